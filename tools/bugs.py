"""bugs.py WORKDIR SPEC.py [ID...]: tries patch-only bugs in a scratch copy of /repo and /verif; prints which check reports each.
SPEC.py calls bug(id, "C01 C02", (file, old, new)...)."""
import sys,os,subprocess,json,shutil,time
W=sys.argv[1]; want=set(sys.argv[3:])
R=W+'/repo'; V=W+'/verif'
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
SR=os.environ.get('SRC_REPO','/repo'); SV=os.environ.get('SRC_VERIF','/verif')
subprocess.check_call(['cp','-a',SR,R]); subprocess.check_call('git checkout -q -- . && git clean -fdq',cwd=R,shell=True)
subprocess.check_call('cp -a %s %s && rm -rf %s/seeded %s/evidence; mkdir %s/evidence'%(SV,V,V,V,V),shell=True)
subprocess.check_call("sed -i 's#=> .*/r.*#=> %s#' %s/mc/go.mod; sed -i 's#/repo#%s#' %s/mc/props/c18.go"%(R,V,R,V),shell=True)
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off')
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c): return subprocess.run(c,cwd=R,shell=True,capture_output=True,text=True,env=env)
def bug(id,props,*edits):
    if want and id not in want and id.split('-')[0] not in want: return
    t0=time.time()
    try:
        for f,a,b in edits:
            s=open(R+'/'+f).read()
            if s.count(a)!=1: print(id,'EDIT count',s.count(a),'in',f,repr(a)[:80],flush=True); return
            open(R+'/'+f,'w').write(s.replace(a,b))
        o=sh('go build ./...')
        if o.returncode: print(id,'BUILD',o.stderr[:400],flush=True); return
        o=sh('go test ./... 2>&1 | grep -e "--- FAIL"').stdout
        note=' [TESTS FAIL %s]'%o.strip()[:80] if o.strip() else ''
        res=[]; t1=time.time()
        for c in props.split():
            try:
                o=subprocess.run(['bash',V+'/run.sh',c,'quick'],capture_output=True,text=True,env=env,timeout=600)
                t=o.stdout+o.stderr
                i=t.find('VIOLATION')
                res.append(c+':'+('caught '+' '.join(x.strip() for x in t[i:].split('\n')[1:4])[:130] if i>=0 and o.returncode==1 else 'MISSED' if o.returncode==0 else 'RC%d %s'%(o.returncode,t[-200:])))
                if i>=0: break
            except subprocess.TimeoutExpired: res.append(c+':TIMEOUT')
        print(id,'|',' '.join(res),note,'%.0fs'%(time.time()-t1),flush=True)
    finally: sh('git checkout -q -- .')
exec(open(sys.argv[2]).read(),{'bug':bug,'os':os,'R':R})
