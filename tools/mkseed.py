"""mkseed.py SPEC.py [ID...]: builds /verif/seeded/<id> from specs, after confirming each in a scratch copy.
SPEC.py calls seed(id, prop, edits, demo, needs, breaks)."""
import sys,os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/work" "$t/m"
cp "$d"/*.go.txt "$t/m/main.go"
sed 's#^module .*#module demo#' "$repo/go.mod" > "$t/m/go.mod"
printf '\\nrequire github.com/binzume/modelconv v0.0.0\\nreplace github.com/binzume/modelconv => %s\\n' "$repo" >> "$t/m/go.mod"
cp "$repo/go.sum" "$t/m/go.sum"
(cd "$repo" && [ -d cmd/modelconv ] && go build -o "$t/modelconv" ./cmd/modelconv) || exit 2
(cd "$t/m" && go build -o "$t/demo" .) || exit 2
cd "$t/work" && TMPDIR="$t/work" MODELCONV="$t/modelconv" REPO="$repo" timeout 120 "$t/demo"
'''
want=set(sys.argv[2:])
def sh(cmd,cwd): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True)
def seed(id,prop,edits,demo,needs,breaks):
    if want and id not in want: return
    out='/verif/seeded/'+id
    if os.path.exists(out+'/patch.diff') and not want: return
    w=tempfile.mkdtemp(prefix='seed'); 
    try:
        subprocess.check_call(['cp','-a','/repo',w+'/r']); r=w+'/r'
        sh('git checkout -q -- . && git clean -fdq',r)
        for f,a,b in edits:
            s=open(r+'/'+f).read()
            if s.count(a)!=1: print(id,'EDIT count',s.count(a),'in',f,repr(a)[:80]); return
            open(r+'/'+f,'w').write(s.replace(a,b))
        if sh('gofmt -l $(git diff --name-only)',r).stdout: print(id,'gofmt:',sh('gofmt -d $(git diff --name-only)',r).stdout)
        d=sh('git diff',r).stdout
        root='3a9a2785'
        def orig_ok():
            for f in set(e[0] for e in edits):
                bl=sh('git blame -s -l HEAD -- '+f,r).stdout.split('\n')
                for l in sh('git diff -U0 -- '+f,r).stdout.split('\n'):
                    import re
                    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
                    if m:
                        a=int(m.group(1)); n=int(m.group(2) or 1)
                        for k in range(a,a+n):
                            if root in bl[k-1][:60]: return True
            return False
        if not orig_ok(): print(id,'WARNING: no original line changed')
        os.makedirs(w+'/s'); open(w+'/s/demo.sh','w').write(DEMO); open(w+'/s/main.go.txt','w').write(demo)
        b=sh('go build ./... && bash /opt/vp/test.sh '+w+'/t.json',r)
        base=json.load(open('/opt/vp/BASELINE.json'))
        res=open(w+'/t.json').read() if os.path.exists(w+'/t.json') else ''
        if b.returncode!=0: print(id,'BUILD/TEST',b.stdout[-1500:],b.stderr[-1500:]); 
        try:
            ok=set(json.loads(res).get('passed',[])); bl=base['stable']
            miss=[x for x in bl if x not in ok]
            if miss: print(id,'TESTS FAIL',miss); return
        except Exception as e: print(id,'results',e,res[:300]); return
        bad=sh('bash '+w+'/s/demo.sh',r)
        sh('git checkout -q -- .',r)
        good=sh('bash '+w+'/s/demo.sh',r)
        if good.returncode!=0 or bad.returncode==0 or bad.returncode==2 and 'panic' not in bad.stderr:
            print(id,'DEMO good',good.returncode,good.stdout[-800:],good.stderr[-1500:],'bad',bad.returncode,bad.stdout[-500:],bad.stderr[-800:]); return
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(d); shutil.copy(w+'/s/demo.sh',out); shutil.copy(w+'/s/main.go.txt',out)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1)
        print(id,'ok;',(bad.stdout+bad.stderr)[:150].strip())
    finally: shutil.rmtree(w)
exec(open(sys.argv[1]).read())
