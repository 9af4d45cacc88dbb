# run.py MUTFILE [names...]: mutants M=[(name, ids, [(file,old,new)...])]
import subprocess,sys,os,shutil,threading,queue,time
ns={}; exec(open(sys.argv[1]).read(),ns); M=ns['M']; sel=sys.argv[2:]
L=int(os.environ.get('LANES','2'))
env0=dict(os.environ,VERIF_TIER='quick',VERIF_SEED=os.environ.get('VERIF_SEED','1'))
q=queue.Queue()
for m in M:
    if not sel or m[0] in sel: q.put(m)
lock=threading.Lock()
def lane(l):
    base=f'/tmp/hm/l{l}'; shutil.rmtree(base,ignore_errors=True); os.makedirs(base)
    subprocess.run(f'cp -a /repo {base}/repo && mkdir {base}/verif && cp -a /verif/harness /verif/check.sh /verif/known-findings.txt {base}/verif/ && mkdir {base}/verif/evidence && sed -i s,/repo,{base}/repo, {base}/verif/harness/go.mod',shell=True,check=True)
    repo=base+'/repo'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        name,ids,eds=m
        t=time.time(); out=[]
        try:
            for f,o,n in eds:
                p=repo+'/'+f; s=open(p).read()
                assert s.count(o)>=1,('not found',name,o)
                open(p,'w').write(s.replace(o,n,1))
            r=subprocess.run('. /opt/vp/env.sh; go vet ./... 2>&1 | head -3; go test ./... 2>&1 | grep -E "^(--- FAIL|ok|FAIL|.*cannot|#)" | head -8',shell=True,cwd=repo,capture_output=True,text=True)
            fails=[x for x in r.stdout.split('\n') if '--- FAIL' in x and 'TestCompressBytes' not in x]
            if fails or 'build failed' in r.stdout: out.append('TESTS: '+r.stdout[:300])
            hit=False
            for id in ids.split():
                try:
                    r=subprocess.run(['bash',base+'/verif/check.sh',id],env=env0,capture_output=True,text=True,timeout=900); rc=r.returncode
                except subprocess.TimeoutExpired: rc=99
                out.append(f'{id}={rc}')
                if rc==1:
                    out.append(r.stdout[:250].replace('\n',' // ')); hit=True; break
                if rc!=0: out.append((r.stdout+r.stderr)[-200:])
        except Exception as e: out.append(repr(e)); hit=False
        finally: subprocess.run('git checkout -q -- .',shell=True,cwd=repo)
        with lock: print(('CAUGHT ' if hit else '**MISSED** '),name,round(time.time()-t),' '.join(out),flush=True)
    shutil.rmtree(base,ignore_errors=True)
ts=[threading.Thread(target=lane,args=(l,)) for l in range(L)]
[t.start() for t in ts]; [t.join() for t in ts]; print('END')
