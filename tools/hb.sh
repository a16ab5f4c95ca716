# hb.sh cfg harness args...   env: S seed N cases NP TH
cd /verif; CFG=$1; H=$2; shift 2
python3 vbuild.py $CFG $H >/tmp/hb.log 2>&1 || { grep -E "error:" /tmp/hb.log | head -20; exit 1; }
export VF_SEED=${S:-1} VF_CASES=${N:-100} VF_SCRATCH=/tmp/vfs VF_REPO=/repo VF_VERIF=/verif OMP_NUM_THREADS=${TH:-1} OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 HOME=/root OPENBLAS_NUM_THREADS=1
export ASAN_OPTIONS=detect_leaks=0:exitcode=77 UBSAN_OPTIONS=print_stacktrace=1
X=/verif/.build/$CFG/$H
if [ "${NP:-1}" -gt 1 ]; then time timeout ${TO:-300} mpirun -n $NP $X "$@" >/tmp/o.out 2>/tmp/o.err; else time timeout ${TO:-300} $X "$@" >/tmp/o.out 2>/tmp/o.err; fi
echo rc=$?; grep '@V' /tmp/o.out | cut -c1-420 | head -${V:-12}; grep -c '@V' /tmp/o.out; grep '@C' /tmp/o.out | tail -1 | cut -c1-300; grep '@E' /tmp/o.out | sed "s,.samples.*,,"| cut -c1-${CW:-1200}; tail -${EL:-5} /tmp/o.err | cut -c1-400
