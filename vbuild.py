"""Builds the library under test (from /repo's working tree) and a harness, per sanitizer configuration.

The sources are found by globbing, not listed, so files that are added, split or renamed are picked up.
Everything is written below /verif/.build (ignored by git)."""
import os, re, glob, subprocess, sys, hashlib, shutil
VERIF=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('FVENS_REPO','/repo')
BUILD=os.environ.get('FVENS_VBUILD',os.path.join(VERIF,'.build'))
PETSC='/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real'
SAN='-fno-omit-frame-pointer'
CONFIGS={
 # -DDEBUG=1 and asserts on, as /opt/vp/build.sh builds it
 'plain':dict(c='-O2 -g1 -fopenmp',l='-fopenmp'),
 'fast':dict(c='-O1 -g1 -fopenmp',l='-fopenmp'),
 'release':dict(c='-O2 -g1 -fopenmp -UDEBUG -DNDEBUG',l='-fopenmp',nodebug=True),
 'asan':dict(c='-O1 -g1 -fopenmp -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined,float-cast-overflow -fno-sanitize=alignment '+SAN,l='-fopenmp -fsanitize=address,undefined,float-cast-overflow'),
 'tsan':dict(c='-O1 -g1 -fopenmp -fsanitize=thread '+SAN,l='-fsanitize=thread -lpthread',shim=True),
 'memc':dict(c='-O1 -g -fopenmp',l='-fopenmp'),
}
def env():
    e=dict(os.environ)
    e.update(LC_ALL='C.UTF-8',HOME='/root',OMPI_ALLOW_RUN_AS_ROOT='1',OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
      OMPI_MCA_rmaps_base_oversubscribe='1',OMPI_MCA_hwloc_base_binding_policy='none',OMPI_MCA_plm='isolated',OMPI_MCA_ess_singleton_isolated='1',
      OMPI_MCA_btl='self,vader',OMPI_MCA_btl_vader_single_copy_mechanism='none',OMPI_MCA_mpi_yield_when_idle='1',PMIX_MCA_gds='hash',
      OMP_WAIT_POLICY='passive',OPENBLAS_NUM_THREADS='1')
    e.setdefault('OMP_NUM_THREADS','2')
    for v in ('PETSC_DIR','PETSC_ARCH','SCOTCH_DIR','PETSC_OPTIONS'): e.pop(v,None)
    return e
def sources():
    libs=[];mains={}
    for f in sorted(glob.glob(REPO+'/src/**/*.cpp',recursive=True)):
        t=open(f,errors='replace').read()
        if re.search(r'^\s*int\s+main\s*\(',t,re.M): mains[os.path.splitext(os.path.basename(f))[0]]=f
        else: libs.append(f)
    return libs,mains
_own=set()
def ownfiles():
    """names of the sources of the repository and of the harnesses"""
    if not _own:
        for d in (REPO+'/src',VERIF+'/h'):
            for _,_,f in os.walk(d): _own.update(f)
    return _own
def build(cfg,targets,quiet=True):
    """targets: harness names (h/<name>.cpp) or names of /repo's own programs. Returns {name: path}."""
    C=CONFIGS[cfg]; bd=os.path.join(BUILD,cfg); os.makedirs(bd,exist_ok=True)
    libs,mains=sources()
    dbg='' if C.get('nodebug') else '-DDEBUG=1'
    inc='-I%s/src -I%s/h -isystem /usr/include/eigen3 -isystem %s/include -isystem /usr/include/scotch -isystem /usr/lib/x86_64-linux-gnu/openmpi/include'%(REPO,VERIF,PETSC)
    ll='-L%s/lib -lpetsc -lscotch -lscotcherr -lboost_program_options -lmpi_cxx -lmpi'%PETSC
    n=['ninja_required_version = 1.3','builddir = '+bd]
    # -w: only what the code does matters here
    n.append('rule cxx\n  command = g++ -std=c++14 -w -DEIGEN_DONT_PARALLELIZE -DWITH_PETSC=1 %s %s %s $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc'%(dbg,C['c'],inc))
    n.append('rule shim\n  command = g++ -std=c++17 -w -O1 -g1 -fsanitize=thread -c $in -o $out')
    n.append('rule ld\n  command = g++ $in %s %s -o $out'%(C['l'],ll))
    objs=[]
    for f in libs:
        o=os.path.join(bd,'lib',os.path.relpath(f,REPO).replace('/','_')+'.o'); objs.append(o)
        n.append('build %s: cxx %s'%(o,f))
    shim=[]
    if C.get('shim'):
        o=os.path.join(bd,'ompshim.o'); shim=[o]; n.append('build %s: shim %s/h/ompshim.cc'%(o,VERIF))
    out={}
    for t in targets:
        srcs=[mains[t]] if t in mains else [os.path.join(VERIF,'h',t+'.cpp')]
        o=os.path.join(bd,t+'.o'); e=os.path.join(bd,t)
        n.append('build %s: cxx %s'%(o,' '.join(srcs)))
        n.append('build %s: ld %s %s'%(e,o,' '.join(objs+shim)))
        out[t]=e
    nf=os.path.join(bd,'build.%s.ninja'%hashlib.md5(' '.join(targets).encode()).hexdigest()[:8])
    open(nf,'w').write('\n'.join(n)+'\n')
    r=subprocess.run(['ninja','-f',nf]+list(out.values()),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env())
    if r.returncode!=0:
        sys.stdout.write('\n'.join(l for l in r.stdout.splitlines() if len(l)<1500)[-6000:]); raise RuntimeError('build failed (%s: %s)'%(cfg,' '.join(targets)))
    return out
if __name__=='__main__':
    print(build(sys.argv[1],sys.argv[2:]))
