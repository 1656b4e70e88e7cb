"""revert.py WORKDIR [LO HI]: undoes each fix commit of /repo in a scratch copy and runs the check of its property.
One line per fix: caught / MISSED / conflict."""
import sys,os,subprocess,json,shutil,time
W=sys.argv[1]; R=W+'/repo'; V=W+'/verif'
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.check_call(['cp','-a','/repo',R]); subprocess.check_call('git checkout -q -- . && git clean -fdq',cwd=R,shell=True)
subprocess.check_call('cp -a /verif %s && rm -rf %s/seeded %s/evidence; mkdir %s/evidence'%(V,V,V,V),shell=True)
subprocess.check_call("sed -i 's#/repo#%s#' %s/mc/go.mod %s/mc/props/c18.go"%(R,V,V),shell=True)
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off')
fixed=json.load(open('/verif/tools/fixed.json'))
def sh(c): return subprocess.run(c,cwd=R,shell=True,capture_output=True,text=True,env=env)
log=[l.split(' ',1) for l in sh('git log --reverse --format="%h %s"').stdout.splitlines()]
log=[(h,s[5:]) for h,s in log if s.startswith('fix: ')]
lo,hi=(int(sys.argv[2]),int(sys.argv[3])) if len(sys.argv)>3 else (0,len(log))
for h,s in log[lo:hi]:
    t0=time.time()
    p=fixed[s][0]
    sh('git reset -q --hard')
    o=sh('git show %s | git apply -R -3'%h)
    if o.returncode:
        print(h,p,'conflict',s,flush=True); continue
    o=sh('go build ./...')
    if o.returncode: print(h,p,'build',s,flush=True); continue
    try:
        o=subprocess.run(['bash',V+'/run.sh',p,'quick'],capture_output=True,text=True,env=env,timeout=800)
        t=o.stdout+o.stderr; i=t.find('VIOLATION')
        r='caught' if i>=0 and o.returncode==1 else 'MISSED' if o.returncode==0 else 'RC%d'%o.returncode
    except subprocess.TimeoutExpired: r='TIMEOUT'
    print(h,p,r,s,'%.0fs'%(time.time()-t0),flush=True)
sh('git reset -q --hard')
