"""mk.py <id>: turns tools/seed/src/<id>.py (P, FILES=[(file,old,new)], NEEDS, BREAKS, DEMO) into /verif/seeded/<id> after confirming it:
builds and tests /repo with the change, runs the demonstration with and without it, runs the property's check, and undoes the change."""
import sys,os,subprocess,json,shutil,re
sid=sys.argv[1]; quick='-q' in sys.argv; V='/verif'; R='/repo'; S=V+'/tools/seed'
g={}; exec(open('%s/src/%s.py'%(S,sid)).read(),g)
def sh(c,t=900): 
    r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,cwd=R); return r.returncode,r.stdout.decode(errors='replace')
assert sh('git status --porcelain --untracked-files=no')[1].strip()=='' ,'dirty /repo'
D=V+'/seeded/'+sid; os.makedirs(D,exist_ok=True)
open(D+'/demo.cpp','w').write(g['DEMO'].lstrip()); shutil.copy(S+'/demo.hpp',D); shutil.copy(S+'/demo.sh',D); os.chmod(D+'/demo.sh',0o755)
json.dump(dict(property=g['P'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(D+'/meta.json','w'),indent=1)
ok=True
try:
    if not quick:
        print('clean build',sh('bash /opt/vp/build.sh')[0]); rc,o=sh('bash %s/demo.sh'%D); print('demo on clean',rc,o[-600:] if rc else ''); ok&=rc==0
    for f,a,b in g['FILES']:
        s=open(R+'/'+f).read(); assert s.count(a)==1,(f,s.count(a),a); open(R+'/'+f,'w').write(s.replace(a,b))
    open(D+'/patch.diff','w').write(sh('git diff')[1])
    rc,o=sh('bash /opt/vp/build.sh'); print('build',rc); ok&=rc==0
    if rc: print(o[-1500:])
    else:
        if not quick:
            sh('bash /opt/vp/test.sh /tmp/o_%s.json'%sid+'',900); j=json.load(open('/tmp/o_%s.json'%sid)); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); m=st-set(j['passed']); print('broken stable tests',sorted(m)); ok&=not m
        rc,o=sh('bash %s/demo.sh'%D); print('demo with change',rc,o[-300:]); ok&=rc!=0
        rc,o=sh('cd %s; python3 check.py %s'%(V,g['P'])); print('check',g['P'],rc,'\n'.join(l for l in o.splitlines() if 'VIOL' in l or 'msg' in l)[:600]); caught=rc==1
finally:
    sh('git checkout -- .')
print('RESULT',sid,'valid' if ok else 'INVALID','caught' if caught else 'MISSED')
if not ok: shutil.move(D,'/tmp/bad_'+sid+str(os.getpid()))
