#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay file]: builds what the property needs from /repo's
working tree, runs its monitors, applies the known-findings file, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: no verdict (infrastructure)."""
import os, sys, json, time, subprocess, re, signal, shutil, tempfile, threading, concurrent.futures as cf
import vbuild
from plan import PLAN
VERIF=os.path.dirname(os.path.abspath(__file__))
def known():
    k=[]
    p=os.path.join(VERIF,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'open: property=(\S+) key=(\S+) :: (.*)',l.strip())
            if m: k.append(m.groups())
    return k
def san_key(err):
    """a short stable key and description for a sanitizer/abort report"""
    fr=''
    for l in err.splitlines():
        m=re.search(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)',l) or re.search(r'#\d+ (\S.*?) (/\S+?):(\d+)',l)
        if m and '/src/' in m.group(2) and vbuild.REPO in m.group(2):
            fr='%s:%s'%(os.path.basename(m.group(2)),re.sub(r'[^A-Za-z0-9_:~]','',re.sub(r'\(.*|<[^()]*>','',m.group(1)))); break
    m=re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([A-Za-z-]+(?: race)?)',err)
    if m: return 'san:%s:%s'%(m.group(2).replace(' ','-'),fr)
    m=re.search(r'(\S+):(\d+):\d+: runtime error: (.*)',err)
    if m: return 'ub:%s:%s'%(os.path.basename(m.group(1)),re.sub(r'0x[0-9a-f]+|-?\d+','N',m.group(3))[:60].replace(' ','-'))
    m=re.search(r"Assertion `(.*?)' failed",err)
    if m: return 'assert:'+re.sub(r'\s+','',m.group(1))[:60]
    m=re.search(r'terminate called.*?(?:what\(\):\s*(.*))?$',err,re.S)
    if m and 'terminate called' in err: return 'uncaught:'+re.sub(r'\s+','-',(m.group(1) or 'exception').strip())[:60]
    return ''
def vg_errors(err):
    """memcheck reports with a frame in the monitored sources or in the harness that received the value"""
    out=[]
    for b in re.split(r'\n==\d+== *(?=\n|$)',err):
        t=[re.sub(r'^==\d+== ?','',l) for l in b.splitlines() if re.match(r'==\d+==',l)]
        t=[l for l in t if l.strip()]
        if not t or not re.search(r'uninitialised|Invalid (?:read|write|free)|Mismatched free|overlap|Process terminating|jump',t[0]): continue
        if not re.match(r'(Conditional jump|Use of uninit|Invalid|Mismatched|Source and destination|Syscall param)',t[0]): continue
        fr=[m.groups() for m in (re.search(r'(?:at|by) 0x[0-9A-F]+: (.+) \(([^()]+):(\d+)\)$',l) for l in t) if m]
        own=[(f,x) for f,x,_ in fr if os.path.basename(x) in vbuild.ownfiles()]
        if not own: continue
        out.append(('valgrind:%s:%s:%s'%(t[0].split('(')[0].strip()[:28].replace(' ','-'),own[0][1],re.sub(r'[^A-Za-z0-9_:~]','',re.sub(r'\(.*|<[^()]*>','',own[0][0]))[:40]),' / '.join(x.strip() for x in t)[:900]))
    return out
INFRA=re.compile(r'orte_init failed|ompi_rte_init failed|ORTE_ERROR_LOG|Unable to start a daemon|pmix_init failed|PMIX ERROR: (?:OUT-OF-RESOURCE|ERROR|NO-PERM)')
def run_one(job):
    """job: dict(cmd, env, timeout, dir). returns dict(rc, out, err, hang)"""
    def go(t):
        os.makedirs(job['dir'],exist_ok=True)
        for f in os.listdir(job['dir']):
            if f.startswith('rank.'): os.remove(os.path.join(job['dir'],f))
        fo=open(job['dir']+'/stdout','w'); fe=open(job['dir']+'/stderr','w')
        p=subprocess.Popen(job['cmd'],stdout=fo,stderr=fe,stdin=subprocess.DEVNULL,env=job['env'],cwd=job['dir'],start_new_session=True)
        hang=False
        end=time.time()+t; stopped=False
        while p.poll() is None:
            if time.time()>end or time.time()>job['stop']():
                hang=time.time()>end; stopped=not hang
                try: os.killpg(p.pid,signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
            time.sleep(0.02)
        try: os.killpg(p.pid,signal.SIGKILL)
        except (ProcessLookupError,PermissionError): pass
        fo.close(); fe.close()
        out=open(job['dir']+'/stdout',errors='replace').read()
        for f in sorted(os.listdir(job['dir'])):
            if f.startswith('rank.'): out+='\n'+open(os.path.join(job['dir'],f),errors='replace').read()
        return dict(rc=p.returncode,out=out,err=open(job['dir']+'/stderr',errors='replace').read()[-60000:],hang=hang,stopped=stopped)
    if time.time()>job['stop'](): return dict(rc=0,out='',err='',hang=False,stopped=True)
    r=go(job['timeout'])
    for _ in range(3):   # the launcher itself failed before the monitored program began: not an observation
        if r['rc']==0 or r['hang'] or r['stopped'] or '@' in r['out'] or not INFRA.search(r['err']): break
        time.sleep(1); r=go(job['timeout'])
    if r['hang']: r=go(job['timeout']*2)   # three-valued: only a repeated time-out is a verdict
    return r
class Check:
    def __init__(s,pid,tier,seed):
        s.known={k[1] for k in known() if k[0]==pid}; s.end=1e300   # once a violation is known, the remaining runs get 20 s
        s.pid=pid;s.tier=tier;s.seed=seed;s.viol={};s.ev=dict(evaluations=0,sigs=0);s.counts={};s.max={};s.samples=[];s.stages=[];s.noverdict=[];s.kept={}
        s.scr=tempfile.mkdtemp(prefix='vf_%s_'%pid)
    def add(s,key,msg,replay): s.viol.setdefault(key,[]).append((msg,replay))
    def run(s):
        plan=PLAN[s.pid]; stages=plan['stages'](s.tier) if callable(plan['stages']) else plan['stages']
        need={}
        for st in stages: need.setdefault(st['cfg'],[]).extend(x for x in st.get('build',[st['bin']] if 'bin' in st else []) if x not in need.get(st['cfg'],[]))
        bins={}
        t0=time.time()
        for c,t in need.items():
            try: bins[c]=vbuild.build(c,sorted(set(t)))
            except RuntimeError as e:
                print('NO-VERDICT property=%s %s'%(s.pid,e)); return 2
        s.tbuild=time.time()-t0
        jobs=[]
        for st in stages:
            if 'py' in st: continue
            for sh in range(st.get('shards',1)):
                env=vbuild.env(); env.pop('VF_OUTDIR',None); env['OMP_NUM_THREADS']=str(st.get('threads',1))
                d=os.path.join(s.scr,'%s_%d_%d'%(st.get('bin','x'),stages.index(st),sh)); env['TMPDIR']=d
                env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1'
                env['UBSAN_OPTIONS']='print_stacktrace=1:exitcode=78'
                env['TSAN_OPTIONS']='exitcode=66:halt_on_error=0:suppressions=%s/tsan.supp:history_size=4:ignore_noninstrumented_modules=1'%VERIF
                vs=(s.seed*1000003+st.get('group',stages.index(st))*1009+sh)&0x7fffffff   # stages of one group see the same cases
                env.update(VF_SEED=str(vs),VF_CASES=str(st['cases']),VF_SCRATCH=d+'/w',VF_TIER=s.tier,VF_REPO=vbuild.REPO,VF_VERIF=VERIF)
                env.update({k:str(v) for k,v in st.get('env',{}).items()})
                exe=bins[st['cfg']][st['bin']]
                if len(st.get('build',[]))>1: env['VF_BINDIR']=os.path.dirname(exe)
                args=st.get('args',[])
                if st.get('np',1)>1 or st.get('mpirun'): env['VF_OUTDIR']=d
                cmd=[exe]+args
                if st.get('np',1)>1 or st.get('mpirun'): cmd=['mpirun','-n',str(st['np'])]+cmd
                if st.get('wrap'): cmd=st['wrap']+cmd
                jobs.append(dict(cmd=cmd,env=env,timeout=min(150,st.get('timeout',200)) if s.tier=='quick' else st.get('timeout',200),stop=lambda:s.end,dir=d,st=st,cores=st.get('cores') or max(1,st.get('np',1)*st.get('threads',1))))
        # bounded parallelism by cores
        budget=threading.Semaphore(8); lock=threading.Lock(); alock=threading.Lock()
        def task(j):
            n=min(8,j['cores'])
            with lock:
                for _ in range(n): budget.acquire()
            try:
                r=run_one(j); j['skip']=set()
                iso=PLAN[s.pid].get('isolate')
                if iso and '\n@V ' in '\n'+r['out'] and not r['stopped'] and (j['st'].get('np',1)>1 or j['st'].get('threads',1)>1):
                    # the same cases alone: what is wrong there too is not a matter of processes or threads
                    j1=dict(j,env=dict(j['env'],OMP_NUM_THREADS='1'),cmd=[x for x in j['cmd'] if x not in ('mpirun',)],dir=j['dir']+'_alone')
                    if j['cmd'][0]=='mpirun': j1['cmd']=j['cmd'][3:]
                    j1['env'].pop('VF_OUTDIR',None)
                    j['skip']={l[3:].partition(' | ')[0].strip() for l in run_one(j1)['out'].splitlines() if l.startswith('@V ')}
                with alock:
                    s.absorb(j,r)
                    if s.end>1e299 and any(k not in s.known for k in s.viol): s.end=time.time()+20
            finally:
                for _ in range(n): budget.release()
        with cf.ThreadPoolExecutor(max_workers=16) as ex:
            for _ in ex.map(task,jobs): pass
        for st in stages:
            if 'py' in st and time.time()<s.end: st['py'](s,st,bins)
        return s.finish()
    def replay(s,j,tag):
        rd=os.path.join(VERIF,'evidence','replay'); os.makedirs(rd,exist_ok=True)
        p=os.path.join(rd,'%s-%s.json'%(s.pid,re.sub(r'[^A-Za-z0-9]+','_',tag)[:50]))
        json.dump(dict(property=s.pid,cfg=j['st']['cfg'],bin=j['st']['bin'],cmd=j['cmd'],env={k:v for k,v in j['env'].items() if k.startswith(('VF_','OMP_'))},note='rebuild with vbuild.py and rerun cmd with env'),open(p,'w'),indent=1)
        return p
    def absorb(s,j,r):
        done=False; last=''; only=PLAN[s.pid].get('only') and re.compile(PLAN[s.pid]['only'])
        nr=0
        if 'keep' in j['st']: s.kept.setdefault((j['st']['keep'],j['st'].get('variant',j['st'].get('np',1))),[]).append((r['out'],j))
        for l in r['out'].splitlines():
            if l.startswith('@V '):
                key,_,msg=l[3:].partition(' | ')
                if only and not only.match(key): s.counts['reports that belong to other properties']=s.counts.get('reports that belong to other properties',0)+1; continue
                if key.strip() in j.get('skip',()): s.counts['differences present on one process and thread too']=s.counts.get('differences present on one process and thread too',0)+1; continue
                s.add(key.strip(),msg,s.replay(j,key))
            elif l.startswith('@C '): last=l[3:]
            elif l.startswith('@E '):
                e=json.loads(l[3:]); s.ev['evaluations']+=e['evaluations']; s.ev['sigs']+=e['sigs']
                for k,v in e['counts'].items(): s.counts[k]=s.counts.get(k,0)+v
                for k,v in e['max'].items(): s.max[k]=max(s.max.get(k,-1e300),v)
                s.samples+=e['samples'][:2]
            elif l.startswith('@R '): nr+=1
        done= nr>=j['st'].get('np',1)
        name=j['st'].get('name',j['st']['bin'])
        if r['stopped']: return
        if r['hang']: s.add('hang:'+name,'did not finish in %ds (twice); case: %s'%(j['timeout'],last),s.replay(j,'hang'+name)); return
        err=r['err']
        if 'ThreadSanitizer' in err and j['st']['cfg']=='tsan':
            for rp in re.split(r'(?===================\n)',err):
                if 'WARNING: ThreadSanitizer' in rp:
                    k=san_key(rp); s.add(k,rp.strip()[:700].replace('\n',' / '),s.replay(j,k))
        if j['st'].get('wrap',[''])[0]=='valgrind':
            for k,b in vg_errors(err): s.add(k,b,s.replay(j,k))
        if not done or (r['rc']!=0 and not ('ThreadSanitizer' in err and r['rc']==66)):
            k=san_key(err) or ('exit:%s:%s'%(name,r['rc']) if r['rc']>=0 else 'signal:%s:%s'%(name,-r['rc']))
            s.add(k,'rc=%s last case: %s; %s'%(r['rc'],last,' / '.join(err.strip().splitlines()[-25:])[:1500]),s.replay(j,k))
    def finish(s):
        kn=[x for x in known() if x[0]==s.pid]; bad=[]
        for key,l in sorted(s.viol.items()):
            if any(k[1]==key for k in kn): continue
            bad.append((key,l))
        for k in kn:
            if k[1] in s.viol: print('KNOWN-FINDING: property=%s %s'%(s.pid,k[2]))
        ev=dict(property=s.pid,tier=s.tier,seed=s.seed,level=PLAN[s.pid].get('level','exploration'),wall_s=round(time.time()-T0,2),violations=len(bad),
          coverage=dict(evaluations=s.ev['evaluations'],distinct_nontrivial=s.ev['sigs'],rule=PLAN[s.pid]['rule'],samples=s.samples[:8] or ['none'],observed={k:round(v,6) for k,v in sorted(s.counts.items())},largest={k:v for k,v in sorted(s.max.items())},build_s=round(s.tbuild,1)),
          assumptions=PLAN[s.pid].get('assume',['tolerances are stated in the monitor sources; floating-point rounding is not a violation']))
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(ev,open(os.path.join(VERIF,'evidence',s.pid+'.json'),'w'),indent=1)
        shutil.rmtree(s.scr,ignore_errors=True)
        for key,l in bad:
            for msg,rp in l[:2]: print('  [%s] x%d %s'%(key,len(l),msg[:1500]))
            print('VIOLATION property=%s replay=%s'%(s.pid,l[0][1]))
        if bad: return 1
        mine=PLAN[s.pid].get('min_eval',1)
        if s.ev['evaluations']<mine or s.noverdict:
            print('NO-VERDICT property=%s only %d evaluations %s'%(s.pid,s.ev['evaluations'],s.noverdict)); return 2
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs'%(s.pid,s.ev['evaluations'],s.ev['sigs'],time.time()-T0))
        return 0
T0=time.time()
if __name__=='__main__':
    a=sys.argv[1:]
    tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in a: tier=a[a.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    sys.exit(Check(a[0],tier,seed).run())
