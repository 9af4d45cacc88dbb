# run.py N SEED [files]: random operator mutants, survivors printed
import subprocess,sys,os,shutil,threading,queue,time,json,random
N=int(sys.argv[1]); random.seed(int(sys.argv[2])); files=sys.argv[3:]
L=int(os.environ.get('LANES','3'))
env0=dict(os.environ,VERIF_TIER='quick',VERIF_SEED='1')
dead=set(open('/tmp/am/dead').read().split())
skipfn={'String','dumpGetByte','Copy','startIndicator'}
codec='C01 C04 C03 C06 C07 C15'
hdr='C18 C05 C09 C06 C02 C03 C21 C07'
upd='C09 C19 C11 C02 C22 C10 C12 C13 C20 C16'
ext='C02 C08 C14 C22 C13 C06 C11 C17 C16 C12'
def ids(m):
    f,fn=m['File'],m['Func']
    if f in('huf.go','slide.go','maketree.go','append.go'): return 'C01 C03 C04'
    if f in('bitio.go','crcio.go','extract.go','util.go','indicator.go'): return codec+' C11 C09 C22 C17'
    if f in('dhuf.go','shuf.go','larc.go','pm.go','pm2hist.go','pmtree.go','maketbl.go'): return 'C04 C07 C01 C06'
    if f=='header.go': return hdr
    if f.endswith('lharc.go'): return 'C16 C22'
    if f=='lha.go': return 'C17 C12 C01 C09 C11 C13 C06 C22'
    if fn in('CommandList','listTailer','printBar','listHeader','printSize','printStamp','listOne','ratio'): return 'C21 C17 C13 C16'
    if fn in('inquire','readAnswer','inquireExtract','confirmExtract','forgetAnswers'): return 'C14 C22 C12'
    if fn in('SeekLhaHeader','archiveIsMsdosSfx1','openOldArchive'): return 'C20 C09 C17 C11'
    line=m['Line']
    return upd if line<960 else ext
ms=[]
for f in sorted(set(['append','bitio','crcio','dhuf','extract','header','huf','larc','lha','lhext','maketbl','maketree','pm','pm2hist','pmtree','shuf','slide','util'])):
    if files and f not in files: continue
    ms+= [json.loads(l) for l in subprocess.run(['/tmp/am/am',f'/repo/{f}.go'],capture_output=True,text=True).stdout.splitlines()]
if not files or 'cmd' in files:
    for l in subprocess.run(['/tmp/am/am','/repo/cmd/lharc.go'],capture_output=True,text=True).stdout.splitlines():
        m=json.loads(l); m['File']='cmd/lharc.go'; ms.append(m)
ms=[m for m in ms if m['Func'] not in dead and m['Func'] not in skipfn]
random.shuffle(ms); ms=ms[:N]
q=queue.Queue(); [q.put(m) for m in ms]
lock=threading.Lock(); stat={}
def lane(l):
    base=f'/tmp/am/l{os.getpid()}_{l}'; shutil.rmtree(base,ignore_errors=True); os.makedirs(base)
    subprocess.run(f'cp -a /repo {base}/repo && mkdir {base}/verif && cp -a /verif/harness /verif/check.sh /verif/known-findings.txt {base}/verif/ && mkdir {base}/verif/evidence && sed -i s,/repo,{base}/repo, {base}/verif/harness/go.mod',shell=True,check=True)
    repo=base+'/repo'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=repo+'/'+m['File']; s=open(p,'rb').read(); t=time.time(); res=''; info=''
        open(p,'wb').write(s[:m['A']]+m['New'].encode()+s[m['B']:])
        try:
            r=subprocess.run('. /opt/vp/env.sh; go build ./... 2>&1 && timeout 60 go test -vet=off ./... < /dev/null 2>&1 | grep -E "^(--- |ok|FAIL|panic)"',shell=True,cwd=repo,capture_output=True,text=True)
            o=r.stdout
            if r.returncode and not o.strip().startswith(('---','ok','FAIL','panic')): res='nobuild'
            elif 'panic' in o or any('--- FAIL' in x and 'TestCompressBytes' not in x for x in o.split('\n')) or 'FAIL: TestCompressBytes' not in o and 'ok' not in o: res='tests'
            else:
                res='SURVIVED'
                for id in ids(dict(m,File=m['File'].split('/')[-1])).split():
                    try:
                        r=subprocess.run(['bash',base+'/verif/check.sh',id],env=env0,capture_output=True,text=True,timeout=900); rc=r.returncode
                    except subprocess.TimeoutExpired: rc=99
                    info+=f' {id}={rc}'
                    if rc==1: res='caught'; break
                    if rc!=0: info+=(r.stdout+r.stderr)[-150:]
        finally:
            open(p,'wb').write(s); subprocess.run('git clean -qfd; git checkout -q -- .',shell=True,cwd=repo)
        with lock:
            stat[res]=stat.get(res,0)+1
            if res not in('nobuild','tests'): print(res,f"{m['File']}:{m['Line']} {m['Func']}: {m['Old'][:80]!r} -> {m['New'][:80]!r}",round(time.time()-t),info,flush=True)
    shutil.rmtree(base,ignore_errors=True)
ts=[threading.Thread(target=lane,args=(l,)) for l in range(L)]
[t.start() for t in ts]; [t.join() for t in ts]; print('END',stat)
