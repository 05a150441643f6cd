#!/usr/bin/env python3
"""run.py OUT N SEED FILE...: N random mutants of each file; those that build and pass the tests are given to the file's checks until one reports."""
import sys,os,re,json,random,subprocess,threading,queue,time,shutil
V='/verif'; S='/tmp/sc/mut'
OUT,N,SEED=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); FILES=sys.argv[4:]
J=int(os.environ.get('J','4'))
CH={'authenticator.go':'C10 C11 C09','h264rtpparser.go':'C04 C02 C08 C06','hevcrtpparser.go':'C05 C02 C08','markrtpparser.go':'C07 C02 C06','simplertpparser.go':'C07 C02',
'rtpparser.go':'C08 C04 C05 C02 C07 C06','rtpparserinterface.go':'C07 C06','rtpstreamprotocol.go':'C01 C03 C06 C28','rtspclient.go':'C15 C16 C11 C06 C12 C29 C14 C11 C13 C16 C30 C20 C09 C19','rtspparser.go':'C09 C03 C01 C11 C10',
'rtsprequest.go':'C13 C14 C11 C10 C12 C15 C16 C30','sdpparser.go':'C19 C20 C15','websocketconn.go':'C28','sdp/decoder.go':'C24 C25 C23 C21 C22 C27 C26 C19','sdp/encoder.go':'C22 C23 C27',
'sdp/fields.go':'C23 C24 C27 C26 C21','sdp/sdp.go':'C23 C26 C24 C27','tcpnetwork/tcpnetwork.go':'C18 C17 C01 C16 C29 C30 C01'}
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',VERIF_TIER='quick')
def sh(c,cwd=None,t=120):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return 124,''
done=set()
if os.path.exists(OUT):
    for l in open(OUT): d=json.loads(l); done.add((d['file'],d['Off'],d['End'],d['New']))
rnd=random.Random(SEED); jobs=[]
for f in FILES:
    _,o=sh(f'/tmp/mutate /repo/{f}')
    m=[json.loads(l) for l in o.splitlines()]
    rnd.shuffle(m)
    for x in m[:N]:
        x['file']=f
        if (f,x['Off'],x['End'],x['New']) not in done: jobs.append(x)
rnd.shuffle(jobs)
q=queue.Queue()
for x in jobs:q.put(x)
lock=threading.Lock()
def work(k):
    w=f'{S}/w{k}'; vd=f'{S}/v{k}'
    sh(f'/usr/bin/rm -rf {w} {vd}; mkdir -p {S}; git clone -q /repo {w}; mkdir -p {vd}/evidence; ln -s {V}/harness {vd}/harness; ln -s {V}/overlay {vd}/overlay; ln -s {V}/known_findings.txt {vd}/known_findings.txt')
    while True:
        try:x=q.get_nowait()
        except queue.Empty:return
        p=f'{w}/{x["file"]}'; src=open(p,'rb').read()
        new=src[:x['Off']]+x['New'].encode()+src[x['End']:]
        open(p,'wb').write(new)
        t0=time.time(); x['text']=src[x['Off']:x['End']].decode('utf8','replace')[:100]
        rc,o=sh('go build ./... && go vet -composites=false ./sdp >/dev/null 2>&1; go build ./...',w)
        if rc: x['res']='nobuild'
        else:
            rc,o=sh('go test -vet=off -count=1 -timeout 60s ./...',w)
            bad=set(re.findall(r'--- FAIL: (\S+)',o))-{'TestDecoder_Errors','TestDecoder_Errors/sdp_session_ex_err8','TestDecoder_Errors/sdp_session_ex_err9'}
            if bad or 'panic:' in o or rc==124: x['res']='tests'
            else:
                x['res']='MISSED'; x['inc']=''
                for c in CH[x['file']].split()[:3]:
                    rc,o=sh(f'{V}/bin/symgo -repo {w} -verif {vd} -prop {c} -tier quick -workers 2 -first',t=900)
                    if rc==1: x['res']=c; break
                    if rc!=0: x['inc']+=f'{c}:{rc} '
        x['t']=round(time.time()-t0)
        open(p,'wb').write(src)
        with lock:
            open(OUT,'a').write(json.dumps(x)+'\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(J)]
for t in ts:t.start()
for t in ts:t.join()
sh(f'/usr/bin/rm -rf {S}')
