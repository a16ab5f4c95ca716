#!/bin/bash
# Builds demo.cpp against the libraries of the tree in the current directory and runs it: 0 = behaves, otherwise not.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real; L=$R/_build/lib
g++ -std=c++14 -O1 -w -fopenmp -DDEBUG=1 -DWITH_PETSC=1 -I"$R/src" -I"$D" -isystem /usr/include/eigen3 -isystem $P/include -isystem /usr/include/scotch -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" -o "$W/demo" -Wl,--start-group $L/libfvens_base.a $L/libfvens_parsing_errh.a $L/libens_gasdynamics.a -Wl,--end-group -L$P/lib -lpetsc -lscotch -lscotcherr -lboost_program_options -lmpi_cxx -lmpi || exit 3
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=$W TMPDIR=$W
unset PETSC_OPTIONS
cd "$W" || exit 3
NP=$(sed -n 's/^\/\/ *np *\([0-9 ]*\).*/\1/p' "$D/demo.cpp" | head -1)
for n in ${NP:-1}; do if [ "$n" -gt 1 ]; then timeout 120 mpirun -n "$n" ./demo "$W" "$R" >out.txt 2>&1; else timeout 120 ./demo "$W" "$R" >out.txt 2>&1; fi; rc=$?; grep -a "DEMO" out.txt | head -5; [ $rc -eq 0 ] || { tail -5 out.txt; exit 1; }; done
exit 0
