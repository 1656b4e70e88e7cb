import json,os,random,subprocess,sys,shutil,time
M=[json.loads(l) for l in open('/tmp/mut/all.jsonl')]
MAP={'geom/utils':'C22 C21 C10','geom':'C21 C22 C23','mqo/mqo_parser':'C01 C07 C08 C24','mqo/mqo_writer':'C01 C09','mqo/bone':'C02 C23 C12','mqo/mqo.go':'C01 C02 C23 C09 C24','mqo/morph':'C02 C23 C12','mqo/phys':'C02 C23','mqo/utils':'C23 C01 C13','mqo/mqx':'C02 C09 C08',
'mmd/base':'C04 C08 C07','mmd/mmd.go':'C03 C04 C09 C07','mmd/pmd':'C04 C08','mmd/pmx_parser':'C04 C03 C08','mmd/pmx_writer':'C03 C09','mmd/vmd':'C04 C25 C08',
'fbx/binary':'C06 C08 C07','fbx/text':'C05 C06 C08 C07','fbx/fbx_node':'C05 C06 C26 C15 C09','fbx/fbx.go':'C05 C06 C09','fbx/fbx_document':'C26 C06 C15','fbx':'C26 C06 C15',
'gltfutil':'C17 C24','unity/unity_assets':'C20 C19','unity/unity.go':'C20 C19','unity':'C19 C20','vrm':'C18 C09 C24',
'converter/fbx2mqo':'C15 C19','converter/glbanim':'C25 C24','converter/gltf2mqo':'C16 C24','converter/mmd2mqo':'C13 C14','converter/mqo2gltf':'C11 C12 C10','converter/mqo2mmd':'C14','converter/unity2mqo':'C19 C24','converter/vrmconfig':'C18','cmd':'C24'}
def checks(f):
    for k in sorted(MAP,key=len,reverse=True):
        if f.startswith(k): return MAP[k].split()
W=sys.argv[1]; rate=float(sys.argv[2]); seedn=int(sys.argv[3]); filt=sys.argv[4:] 
R=W+'/repo'; V=W+'/verif'
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.check_call(['cp','-a','/repo',R]); subprocess.check_call(['cp','-a',R,R+'.orig'])
subprocess.check_call('git -C /verif archive HEAD --prefix=verif/ | tar x -C %s'%W,shell=True)
subprocess.check_call("sed -i 's#/repo#%s#' %s/mc/go.mod %s/mc/props/c18.go; mkdir -p %s/evidence"%(R,V,V,V),shell=True)
rnd=random.Random(seedn); sel=[]
by={}
for m in M: by.setdefault(m['file'],[]).append(m)
for f,l in by.items():
    if filt and not any(f.startswith(x) for x in filt): continue
    r=rate*(0.25 if f in('geom/matrix4.go','unity/unity_builtin.go') else 1)
    k=max(1,round(len(l)*r)); sel+=rnd.sample(l,min(k,len(l)))
rnd.shuffle(sel)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off')
print(len(sel),'mutants',flush=True)
out=open(W+'.res','a')
for i,m in enumerate(sel):
    p=R+'/'+m['file']; s=open(p,'rb').read(); orig=open(R+'.orig/'+m['file'],'rb').read()
    assert s==orig,'repo changed'
    open(p,'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
    t0=time.time(); res='?'
    try:
        if subprocess.run('go build ./... && go vet ./... ',cwd=R,shell=True,capture_output=True,env=env).returncode: res='nobuild'; continue
        # existing tests
        t=subprocess.run('go test ./fbx ./geom ./unity ./vrm 2>&1',cwd=R,shell=True,capture_output=True,text=True,env=env,timeout=120)
        m['testfail']=t.stdout.count('--- FAIL')
        res='SURVIVED'
        for c in checks(m['file']):
            try:
                o=subprocess.run(['bash',V+'/run.sh',c,'quick'],capture_output=True,text=True,env=env,timeout=400)
                if 'VIOLATION' in o.stdout+o.stderr: res='killed '+c; break
                if o.returncode not in(0,1): res='ERR%d %s %s'%(o.returncode,c,(o.stdout+o.stderr)[-300:]); break
            except subprocess.TimeoutExpired: res='TIMEOUT '+c; break
    except subprocess.TimeoutExpired: res='testhang'
    finally:
        open(p,'wb').write(orig)
        m['res']=res; m['t']=round(time.time()-t0,1); out.write(json.dumps(m)+'\n'); out.flush()
        print(i,m['file'],m['line'],m['kind'],repr(m['old'])[:50],'->',repr(m['new'])[:40],res,m['t'],m.get('testfail'),flush=True)
