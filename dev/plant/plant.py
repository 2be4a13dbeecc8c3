import sys,subprocess,os
sys.path.insert(0,'/tmp/plant')
from bugs import B
import bugs4, bugs5, bugs6
W='/tmp/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.isdir(W): sh('cp -a /repo '+W)
ids=sys.argv[1:] or list(B)
for i in ids:
    sh('git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD',cwd=W)
    bad=False
    for f,o,n in B[i][3]:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(i,'MATCH',f,s.count(o)); bad=True; break
        open(p,'w').write(s.replace(o,n))
    if bad: continue
    # build and test against copy: scripts use cwd?
    r=sh('unshare -rm true',cwd=W)
    os.makedirs(f'/tmp/plant/out/{i}',exist_ok=True)
    d=sh('git diff',cwd=W).stdout
    open(f'/tmp/plant/out/{i}/patch.diff','w').write(d)
    r=sh('. /opt/vp/env.sh >/dev/null 2>&1; cd /tmp/wt; export CARGO_TARGET_DIR=/tmp/wt/target; timeout -k 5 200 cargo test --workspace --locked --offline --no-fail-fast 2>&1')
    import re
    if 'error: could not compile' in r.stdout or re.search(r'^error(\[|:)',r.stdout,re.M) and 'test failed' not in r.stdout and 'target' not in r.stdout:
        print(i,'BUILD FAIL'); print('\n'.join(l for l in r.stdout.splitlines() if l.startswith('error'))); 
        print(r.stdout[-1500:]); continue
    if 'test result' not in r.stdout or r.returncode==124: print(i,'HANG REJECT',flush=True); continue
    fails=sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED',r.stdout,re.M))-{'aliases::add_remove','passwords::add'})
    print(i,'fails:',fails,'ok' if not fails else 'REJECT',flush=True)
