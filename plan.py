"""What each check runs. stage: cfg (build configuration), bin (harness or /repo program), cases, args, ...; see check.py."""
def T(q,t):
    return lambda tier: t if tier=='thorough' else q
def tier_cases(tier,n,f=20): return n*f if tier=='thorough' else n
def point(mode,n,extra=()):
    """pointwise monitor: optimised build with asserts, plus a sanitizer build on a smaller number of cases"""
    def st(tier):
        k=tier_cases(tier,n)
        return [dict(cfg='plain',bin='hpoint',args=[mode],cases=k//6,shards=6,timeout=300 if tier=='quick' else 3000)]
    return st
PLAN={}
PLAN['C04']=dict(stages=point('flux',120000),min_eval=1000,
  rule='one case = one random gas (gamma, Minf), one unit normal and one state pair (random Mach number in +-3, random/equal/contact/shear/supersonic/mirrored pairs) evaluated with all 7 fluxes; distinct = distinct state pair')
PLAN['C05']=dict(stages=point('fluxjac',120000),min_eval=1000,
  rule='one case = one random gas, normal and state pair away from branch switches, both Jacobian blocks of each flux that offers one, against forward-mode derivatives of the reference flux; distinct = distinct state pair')
PLAN['C07']=dict(stages=point('bc',120000),min_eval=1000,
  rule='one case = one random gas, normal, interior state; all boundary types with random wall speeds/temperatures/total conditions, built directly and through the marker map; distinct = distinct interior state')
PLAN['C08']=dict(stages=point('bcjac',120000),min_eval=1000,
  rule='one case = one random gas, normal, interior state away from switching points; Jacobian of each boundary type against forward-mode derivatives; distinct = distinct interior state')
PLAN['C09']=dict(stages=point('gas',120000),min_eval=1000,
  rule='one case = one random gas and state; every conversion, flux, derivative of the physics class against reference formulae; distinct = distinct state')
PLAN['C10']=dict(stages=point('visc',120000),min_eval=1000,
  rule='one case = random gas, normal, states, gradients; flux, primitive-gradient conversion and Jacobian, constant and Sutherland viscosity; distinct = distinct state pair')

def spat(mode,n,bin='hspat',thr=True,np=(2,3),asan=True,extra=(),more=()):
    """whole-mesh monitor: optimised serial runs, threaded runs, multi-process runs, sanitizer runs"""
    def st(tier):
        k=tier_cases(tier,n,30); to=300 if tier=='quick' else 3000
        s=[dict(cfg='plain',bin=bin,args=[mode]+list(more),cases=k//4,shards=4,timeout=to)]
        if thr: s.append(dict(cfg='plain',bin=bin,args=[mode]+list(more),cases=k//10,threads=4,timeout=to,name=bin+'-'+mode+'-threads'))
        for p in np: s.append(dict(cfg='plain',bin=bin,args=[mode]+list(more),cases=max(10,k//20),np=p,timeout=to,name=bin+'-'+mode+'-np%d'%p))
        if np and tier=='thorough':
            s.append(dict(cfg='plain',bin=bin,args=[mode]+list(more),cases=max(10,k//20),np=4,timeout=to,name=bin+'-'+mode+'-np4')); s.append(dict(cfg='plain',bin=bin,args=[mode]+list(more),cases=max(10,k//20),np=2,threads=2,timeout=to,name=bin+'-'+mode+'-np2-threads'))
        if asan: s.append(dict(cfg='asan',bin=bin,args=[mode]+list(more),cases=max(10,k//20),timeout=to,name=bin+'-'+mode+'-asan'))
        return s+list(extra)
    return st
meshrule='one case = one generated mesh (rectangle, annulus, rectangle with removed cells, curved channel; triangles, quads or mixed; perturbed, renumbered, rotated, scaled), one random configuration and state; distinct = distinct configuration and state; run serially, with 4 threads, on 2 and 3 processes and under address/undefined-behaviour sanitizers'
PLAN['C01']=dict(stages=spat('cons',12000),min_eval=500,rule=meshrule)
PLAN['C02']=dict(stages=spat('free',20000),min_eval=500,rule=meshrule)
PLAN['C03']=dict(stages=spat('residual',24000),min_eval=500,rule=meshrule)
PLAN['C11']=dict(stages=spat('grad',24000),min_eval=500,rule=meshrule)
PLAN['C12']=dict(stages=spat('recon',20000),min_eval=500,rule=meshrule)
PLAN['C26']=dict(stages=spat('timestep',20000),min_eval=500,rule=meshrule)

_diffcons=dict(cfg='plain',bin='hmat',args=['diff'],cases=400,timeout=300,name='hmat-diffusion')
PLAN['C01']['stages']=spat('cons',12000,extra=[_diffcons])
PLAN['C06']=dict(stages=spat('matrix',6000,bin='hmat'),min_eval=500,rule=meshrule)
PLAN['C24']=dict(stages=spat('matfree',8000,bin='hmat'),min_eval=500,rule=meshrule)
PLAN['C29']=dict(stages=spat('surf',12000,bin='hmat'),min_eval=500,rule=meshrule)
PLAN['C31']=dict(stages=spat('diff',12000,bin='hmat'),min_eval=500,rule=meshrule)
PLAN['C35']=dict(stages=spat('equi',8000,bin='hmat'),min_eval=500,rule=meshrule)

def cat(*fs):
    """the stages of several plans, one after the other"""
    def st(tier):
        r=[]
        for f in fs: r+= f(tier) if callable(f) else f
        return r
    return st
PLAN['C07']['stages']=cat(point('bc',120000),spat('ghost',6000,asan=False)); PLAN['C07']['rule']+='; one mesh case = one generated mesh with a random condition per marker, the residuals of the boundary cells from the flux of the library and the documented ghost states'
solverule='one case = one generated mesh and problem (scripted residual sequences, flow or diffusion), one random solver set-up; distinct = distinct problem; run serially, with 4 threads, on 2 and 3 processes and under address/undefined-behaviour sanitizers'
PLAN['C22']=dict(stages=cat(spat('script',6000,bin='hsolve',more=['nocfl']),spat('solve',1200,bin='hsolve',more=['nocfl'])),min_eval=500,rule=solverule)
PLAN['C23']=dict(stages=cat(spat('implicit',4000,bin='hsolve'),spat('explicit',3000,bin='hsolve'),spat('solve',1200,bin='hsolve'),spat('script',2000,bin='hsolve',np=(2,),asan=False,thr=False)),min_eval=500,rule=solverule)
PLAN['C25']=dict(stages=lambda tier:[dict(cfg='plain',bin='hsolve',args=['relax'],cases=tier_cases(tier,4000),shards=4,timeout=300),dict(cfg='asan',bin='hsolve',args=['relax'],cases=tier_cases(tier,300),timeout=300,name='hsolve-asan')],min_eval=1000,rule='one case = one random gas, minimum factor, state and update (vanishing, small, large, leading to negative density or pressure)')
PLAN['C37']=dict(stages=spat('rk',6000,bin='hsolve'),min_eval=500,rule=solverule)
PLAN['C06']['stages']=cat(spat('matrix',6000,bin='hmat'),spat('implicit',2000,bin='hsolve',more=['nocfl'],thr=False,asan=False))
PLAN['C31']['stages']=cat(spat('diff',12000,bin='hmat'),spat('solve',1000,bin='hsolve',more=['nocfl'],thr=False,asan=False))

partrule='one case = one generated mesh distributed by the trivial, Scotch or an arbitrary partition (scattered, strips, islands) to 2, 3 or 4 processes, with 1-4 tags per face and cell; distinct = distinct mesh and partition kind'
def _np(mode,n,nps=(2,3,4),asan=True,more=(6,)):
    def st(tier):
        k=tier_cases(tier,n,30); to=300 if tier=='quick' else 3000
        s=[dict(cfg='plain',bin='hmesh',args=[mode],cases=k//(3+len(nps)),np=p,timeout=to,env={'VF_PMPI':1+(p>2)},name='hmesh-%s-np%d'%(mode,p)) for p in (1,)+tuple(nps)]
        for p in tuple(more)+((5,7,8) if tier!='quick' else ()): s.append(dict(cfg='plain',bin='hmesh',args=[mode],cases=max(10,k//12),np=p,timeout=to,env={'VF_PMPI':2},name='hmesh-%s-np%d'%(mode,p)))
        if asan: s.append(dict(cfg='asan',bin='hmesh',args=[mode],cases=max(10,k//20),np=3,timeout=to,name='hmesh-%s-asan-np3'%mode))
        return s
    return st
PLAN['C13']=dict(stages=spat('topo',20000,bin='hmesh',thr=False),min_eval=500,rule=meshrule)
PLAN['C14']=dict(stages=spat('metric',20000,bin='hmesh',thr=True),min_eval=500,rule=meshrule)
PLAN['C15']=dict(stages=_np('part',6000),min_eval=500,rule=partrule)
PLAN['C17']=dict(stages=_np('trace',5000),min_eval=500,rule=partrule+'; each case runs 1-6 rounds in five patterns (plain, sender data overwritten meanwhile, two vectors overlapped, same type overlapped, immediately repeated) with random delays between the calls of each process')
PLAN['C19']=dict(stages=spat('order',10000,bin='hmesh'),min_eval=500,rule=meshrule+'; every ordering option and random permutations')
PLAN['C20']=dict(stages=spat('level',20000,bin='hmesh',thr=False),min_eval=500,rule=meshrule)
PLAN['C21']=dict(stages=spat('periodic',20000,bin='hmesh',thr=False,np=()),min_eval=500,rule='one case = one rectangle mesh with matching sides, renumbered, shuffled, shifted, faces in random directions; distinct = distinct mesh')

def hio(mode,n,np=(),thr=False,asan=100,progs=(),bin='hio',env={}):
    """input/output monitors, with the programs of the repository they run"""
    def st(tier):
        k=tier_cases(tier,n,30); to=300 if tier=='quick' else 3000; b=[bin]+list(progs)
        s=[dict(cfg='plain',bin=bin,build=b,args=[mode],cases=k//4,shards=4,timeout=to,env=env,name=bin+'-'+mode)]
        if thr: s.append(dict(cfg='plain',bin=bin,build=b,args=[mode],cases=k//10,threads=4,timeout=to,env=env,name=bin+'-'+mode+'-threads'))
        for p in np: s.append(dict(cfg='plain',bin=bin,build=b,args=[mode],cases=max(10,k//20),np=p,timeout=to,env=env,name='%s-%s-np%d'%(bin,mode,p)))
        if asan: s.append(dict(cfg='asan',bin=bin,build=b,args=[mode],cases=tier_cases(tier,asan,30),timeout=to,env=dict(env,VF_ASAN=1),name=bin+'-'+mode+'-asan'))
        return s
    return st
PLAN['C27']=dict(stages=hio('io',4000,progs=['convertformat'],asan=60),min_eval=500,rule='one case = one generated mesh written in Gmsh (1-4 tags per boundary face and cell, linear or quadratic cells) and SU2 form, read, written again, compared, converted by the tool; wrong uses of the tool; distinct = distinct mesh and direction')
PLAN['C28']=dict(stages=hio('ctrl',8000,asan=200),min_eval=500,rule='one case = one random complete control file (all sections, optional settings given or absent, orders, quoting and comments varied), parsed into memory filled with a pattern and compared setting by setting; then command-line overrides, a missing mandatory setting, an unknown name; distinct = distinct file')
PLAN['C30']=dict(stages=hio('out',6000,np=(2,3),thr=True,asan=100),min_eval=500,rule=meshrule)
PLAN['C36']=dict(stages=hio('names',8000,asan=200),min_eval=500,rule='one case = one documented or undocumented name of a flux, gradient scheme, limiter, boundary type, update rule, pseudo-time type or flow type, in random case, used from a control file and directly; the selected object is identified by its behaviour or type; distinct = distinct file')
PLAN['C33']=dict(stages=cat(hio('mesh',12000,bin='hfuzz',asan=1000),hio('ctl',8000,bin='hfuzz',asan=800),lambda tier:[dict(cfg='plain',bin='hfuzz',build=['hfuzz','fvens_steady','convertformat'],args=['prog'],cases=tier_cases(tier,120,30),shards=5,timeout=300 if tier=='quick' else 3000,name='hfuzz-prog')]),min_eval=1000,rule='one case = one mesh file (Gmsh or SU2) or control file with 1-4 corruptions (cut, token, line, byte changes, inconsistent connectivity), loaded in a process of its own, and given to the programs fvens_steady (1 to 3 processes) and convertformat; distinct = distinct file text')
PLAN['C34']=dict(stages=hio('run',1200,bin='hrun',progs=['fvens_steady'],np=(2,3),thr=True,asan=60),min_eval=300,rule='one case = one random valid problem (mesh, physics, boundary conditions, numerics, pseudo-time control, optional starter, linear-solver options) with its control file: phases composed from the solvers, then SteadyFlowCase::run_output / run in process, and for a fifth of the cases the program fvens_steady on 1 or 2 processes; distinct = distinct problem')

def _hist(t):
    d={};c=''
    for l in t.splitlines():
        if l.startswith('@C '): c=l[3:]
        if not l.startswith('@H '): continue
        w=l.split(); i=w.index('r'); j=w.index('f'); z=w.index('sc')
        d[w[1]]=(dict(x.split('=') for x in w[2:7]),[float(x) for x in w[i+1:j]],[float(x) for x in w[j+1:z]],[float(x) for x in w[z+1:]],c)
    return d
def compare_hist(s,st,bins):
    """offline monitor: the recorded histories of the same cases on one and on several processes or threads"""
    ref={}; refs=s.kept.get((st['keep'],1),[])
    for out,j in refs: ref.update(_hist(out))
    def num(k,n=1): s.counts[k]=s.counts.get(k,0)+n
    for (tag,np),l in sorted(s.kept.items(),key=str):
        if tag!=st['keep'] or np==1: continue
        for out,j in l:
            for k,x in _hist(out).items():
                if k not in ref: continue
                b=ref[k]; lab=np if isinstance(np,str) else 'np %d'%np; bad=lambda key,msg: s.add(key,'%s | case: %s'%(msg,x[4]),s.replay(j,key))
                if b[0]['fuzzy']=='1': num('histories decided by rounding (skipped)'); continue
                if b[3][2]!=1: num('runs that break down on 1 process (skipped)'); continue
                num('histories compared'); prev=0; grow=False; full=x[0]['fuzzy']=='0'
                for i,(p,q) in enumerate(zip(x[1],b[1])):
                    e=abs(p-q)/abs(q) if q else (1 if p else 0)
                    if not e<=1e-4:
                        if prev<1e-6: bad('history:residual','%s residual %d: %g, alone %g (before: relative difference %.1g)'%(lab,i+1,p,q,prev))
                        grow=True; break
                    prev=e
                    if not full: break
                num('residual values compared',len(b[1]))
                if grow: num('histories drifting apart gradually'); continue
                if not full: num('histories decided by rounding on several processes'); continue
                if any(x[0][q]!=b[0][q] for q in ('t1','t2','n1','n2')): bad('history:outcome','%s: %s; alone: %s'%(lab,x[0],b[0])); continue
                if x[3][2]!=1: bad('history:state','%s: inadmissible final state'%lab); continue
                f=[abs(x[2][i]-b[2][i])/(abs(b[2][i])+z+1e-300) for i,z in ((0,1e-6),(1,b[3][0]),(2,b[3][0]),(3,b[3][1]*1e3))]
                s.max['functional difference']=max(s.max.get('functional difference',0),max(f))
                if not max(f)<=1e-3: bad('history:functionals','%s entropy, CL, CDp, CDf: %s; alone %s'%(lab,x[2],b[2]))
    if st.get('need') and not s.viol and s.counts.get('histories compared',0)<st['need']: s.noverdict.append('too few histories')
def c16(tier):
    q=tier!='thorough'; f=1 if q else 30; to=150 if q else 3000; e={'VF_PMPI':1}; s=[]
    for i,(b,m,n,more) in enumerate((('hspat','residual',700,[]),('hspat','timestep',300,[]),('hspat','grad',500,[]),('hspat','recon',400,[]),('hmat','matrix',150,[]),('hmat','matfree',150,[]),('hmat','surf',300,[]),('hsolve','implicit',120,['nocfl']),('hsolve','explicit',120,['nocfl']),('hsolve','rk',120,['nocfl']))):
        for np in (2,3,4,6)+(() if q else (5,8)): s.append(dict(cfg='plain',bin=b,args=[m]+more,cases=n*f//(1 if np<4 else 2 if np==4 else 5),np=np,timeout=to,env=e,name='%s-%s-np%d'%(b,m,np)))
    for np in (1,2,3,4)+(() if q else (6,)): s.append(dict(cfg='plain',bin='hrun',args=['hist'],cases=1200*f,np=np,timeout=to,env=e,group=777,keep='hist',name='hrun-hist-np%d'%np))
    s.append(dict(cfg='plain',py=compare_hist,keep='hist',need=200))
    return s
PLAN['C16']=dict(stages=c16,isolate=True,min_eval=1000,rule='one case = one generated mesh, configuration and state, evaluated on 2, 3, 4 and 6 processes against a global reference (residual, time step, gradients, reconstruction, matrix, matrix-free action, functionals, solver steps), with the sequence of collective operations of every process recorded and compared; and whole runs of the same case on 1, 2, 3 and 4 processes whose histories are compared; distinct = distinct configuration, state and process count',technique='runtime monitor: global reference oracle, recorded collective-call traces (PMPI interposition) and offline comparison of run histories between process counts')

def c18(tier):
    q=tier!='thorough'; f=1 if q else 40; to=150 if q else 3000; s=[]
    work=(('hspat','residual',60,[]),('hspat','timestep',40,[]),('hspat','grad',80,[]),('hspat','recon',60,[]),('hmat','matrix',60,[]),('hmat','matfree',12,[]),('hmat','surf',30,[]),('hmat','diff',60,[]),
          ('hsolve','implicit',24,['nocfl']),('hsolve','explicit',24,['nocfl']),('hsolve','rk',24,['nocfl']),('hsolve','script',24,['nocfl']),('hsolve','solve',8,['nocfl']),('hmesh','order',60,[]),('hmesh','metric',40,[]),('hio','out',30,[]))
    for b,m,n,more in work:
        for th in (2,3,4,8) if q else (2,3,4,5,8,16): s.append(dict(cfg='tsan',bin=b,args=[m]+more,cases=max(4,n*f*2//th if th>2 else n*f),threads=th,cores=max(1,th//3),timeout=to,name='%s-%s-tsan%d'%(b,m,th)))
    for b,m,n,more in work:   # threads within several processes: faces between subdomains
        if b in ('hspat','hmat','hsolve') and m not in ('surf','solve'):
            for np,th in ((2,3),) if q else ((2,3),(2,8),(3,4)): s.append(dict(cfg='tsan',bin=b,args=[m]+more,cases=max(6,n*f//2),np=np,threads=th,cores=3,timeout=to,name='%s-%s-np%d-tsan%d'%(b,m,np,th)))
    for b,m,n,more in work:
        for th in (2,5,8): s.append(dict(cfg='plain',bin=b,args=[m]+more,cases=n*f*6,threads=th,cores=max(1,th//3),timeout=to,name='%s-%s-threads%d'%(b,m,th)))
    for th in (1,2,4,8): s.append(dict(cfg='plain',bin='hrun',args=['hist'],cases=400*f,threads=th,cores=max(1,th//2),timeout=to,group=778,keep='thr',variant=1 if th==1 else '%d threads'%th,name='hrun-hist-threads%d'%th))
    s.append(dict(cfg='plain',py=compare_hist,keep='thr',need=100))
    return s
PLAN['C18']=dict(stages=c18,isolate=True,technique='ThreadSanitizer on a pthread OpenMP run-time with randomised scheduling, plus runtime comparison of results and whole-run histories between thread counts',min_eval=1000,rule='one case = one generated mesh, configuration and state, run with 2, 3, 4 and 8 threads under ThreadSanitizer on a pthread OpenMP run-time with random pauses, and with 2, 5 and 8 threads against the serial reference; and whole runs of the same case with 1, 2, 4 and 8 threads compared; distinct = distinct configuration and state')

def c32(tier):
    """every workload of the other monitors, under AddressSanitizer/UndefinedBehaviorSanitizer and under valgrind memcheck"""
    q=tier!='thorough'; f=1 if q else 60; to=150 if q else 3000; s=[]
    vg=['valgrind','-q','--error-limit=no','--num-callers=25']
    work=[(b,m,n,[]) for b,ms in (('hspat',(('residual',300),('timestep',200),('grad',300),('recon',300),('cons',100),('free',100))),('hmat',(('matrix',100),('matfree',60),('surf',150),('diff',200),('equi',100))),
        ('hmesh',(('topo',300),('metric',300),('part',200),('trace',100),('order',200),('level',100),('periodic',300))),('hio',(('io',80),('out',100),('ctrl',100),('names',150))),('hpoint',tuple((x,4000) for x in ('flux','fluxjac','bc','bcjac','gas','visc')))) for m,n in ms]
    work+=[('hsolve',m,n,['nocfl']) for m,n in (('implicit',60),('explicit',60),('rk',60),('script',100),('solve',20))]+[('hsolve','relax',300,[]),('hrun','run',40,[])]
    prog={'hio':['hio','convertformat'],'hrun':['hrun','fvens_steady']}
    for b,m,n,more in work:
        if not (b=='hmesh' and m in ('part','trace')): s.append(dict(cfg='asan',bin=b,build=prog.get(b,[b]),args=[m]+more,cases=n*f,timeout=to,env={'VF_ASAN':1},name='%s-%s-asan'%(b,m)))
        if b in ('hspat','hmat','hsolve','hmesh') and m not in ('relax','periodic'):
            for np in (2,3) if not q or m in ('part','trace') else (3,): s.append(dict(cfg='asan',bin=b,args=[m]+more,cases=max(4,n*f//4),np=np,timeout=to,name='%s-%s-asan-np%d'%(b,m,np)))
            if not q: s.append(dict(cfg='asan',bin=b,args=[m]+more,cases=max(4,n*f//4),threads=4,timeout=to,name='%s-%s-asan-threads'%(b,m)))
        if (b,m) not in (('hio','ctrl'),('hmat','equi'),('hspat','cons'),('hspat','free')) or not q: s.append(dict(cfg='memc',bin=b,build=prog.get(b,[b]),args=[m]+more,cases=max(3,n*f//(8 if b!='hpoint' else 20)),timeout=to*2,wrap=vg,name='%s-%s-memcheck'%(b,m)))
    return s
PLAN['C32']=dict(stages=c32,only='(san|ub|valgrind|assert|signal|uncaught):',min_eval=1000,rule='one case = one generated valid input of any of the other monitors (meshes, states, configurations, files, whole runs; serial and several processes), executed with every access, cast and arithmetic operation watched by AddressSanitizer/UndefinedBehaviorSanitizer, or every value by valgrind memcheck; distinct = distinct input',technique='runtime sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer (incl. float-cast-overflow), checked standard containers, valgrind memcheck over all workloads')
