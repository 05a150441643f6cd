#!/usr/bin/env python3
"""plant.py ID... : (re)creates seeded/<ID> from plant/bugs/*.py and confirms it in a scratch copy.
A bug is a dict: id, prop, needs, breaks, edits=[(file, old, new)...], pkg (''|'sdp'|'tcpnetwork'), demo (Go test source, func TestSeeded)."""
import sys, os, subprocess, shutil, json, glob, re
V='/verif'; S='/tmp/sc/plant'
here=os.path.dirname(os.path.abspath(__file__))
bugs={}
def bug(**k):
    assert k['id'] not in bugs, k['id']
    bugs[k['id']]=k
for f in sorted(glob.glob(here+'/bugs/*.py')): exec(open(f).read())
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
def sh(c,cwd=None,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode('utf8','replace')
DEMO='''#!/bin/bash
# run in the repository; exit 0: the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*.go.txt; do
    echo "$sep\\"$repo/@PKG@seeded_$(basename "$f" .go.txt)_test.go\\":\\"$f\\""; sep=,
  done
  echo '}}'
} > "$t/overlay.json"
cd "$repo/@PKG@" && go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestSeeded$' .
'''
def make(b):
    shutil.rmtree(S,ignore_errors=True)
    sh(f'mkdir -p /tmp/sc && git -C /repo worktree prune; git clone -q /repo {S}')
    for f,o,n in b['edits']:
        p=f'{S}/{f}'; t=open(p,'rb').read(); crlf=b'\r\n' in t
        s=t.decode().replace('\r\n','\n')
        if s.count(o)!=1: return f'{f}: {s.count(o)} matches of {o!r}'
        s=s.replace(o,n)
        open(p,'wb').write((s.replace('\n','\r\n') if crlf else s).encode())
    _,blame=0,''
    rc,diff=sh('git diff',S)
    diff=subprocess.run('git diff',shell=True,cwd=S,stdout=subprocess.PIPE).stdout
    # every removed line: is it original?
    orig=0; new=0
    for f in {e[0] for e in b['edits']}:
        d=subprocess.run(['git','diff','-U0','--',f],cwd=S,stdout=subprocess.PIPE).stdout.decode('utf8','replace')
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d,re.M):
            a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
            if n==0: continue
            o=subprocess.run(['git','blame','-s','-L',f'{a},{a+n-1}','HEAD','--',f],cwd=S,stdout=subprocess.PIPE).stdout.decode('utf8','replace')
            root=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd=S,stdout=subprocess.PIPE).stdout.decode().strip()
            for l in o.splitlines():
                if l.lstrip('^').startswith(root[:7]): orig+=1
                else: new+=1
    out=f"{V}/seeded/{b['id']}"
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','wb').write(diff)
    pkg=b.get('pkg','')
    if pkg=='': shutil.copy(here+'/demohelp_root.go.txt',out+'/help.go.txt')
    elif os.path.exists(f'{here}/demohelp_{pkg}.go.txt'): shutil.copy(f'{here}/demohelp_{pkg}.go.txt',out+'/help.go.txt')
    open(out+'/demo.go.txt','w').write(b['demo'].lstrip('\n'))
    open(out+'/demo.sh','w').write(DEMO.replace('@PKG@',pkg+'/' if pkg else ''))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
    rc,o=sh('go build ./... && go vet ./... 2>&1 | grep -v "^#" | head -0',S)
    if rc: return 'BUILD\n'+o
    rc,o=sh('go test -vet=off -count=1 -json ./... > /tmp/sc/t.json; true',S)
    base=json.load(open('/opt/vp/BASELINE.json'))
    passed=set()
    for l in open('/tmp/sc/t.json'):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): passed.add((e['Package'],e['Test']))
    npass=len(passed)
    rp,op=sh(f'bash {out}/demo.sh',S,300)
    sh('git checkout -q -- .',S)
    rc0,oc=sh(f'bash {out}/demo.sh',S,300)
    ok = rp!=0 and rc0==0 and orig>0 and npass>=92
    return f"{'ok ' if ok else 'BAD'} tests={npass} patched={rp} clean={rc0} orig={orig} new={new}" + ('' if ok else '\n--- patched\n'+op[-1500:]+'\n--- clean\n'+oc[-1500:])
ids=sys.argv[1:] or list(bugs)
for i in ids:
    print(i, make(bugs[i]), flush=True)
shutil.rmtree(S,ignore_errors=True)
