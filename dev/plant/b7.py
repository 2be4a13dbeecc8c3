import sys,subprocess,os,re
sys.path.insert(0,'/tmp/mt')
mod=__import__(sys.argv[1]); B=mod.B; ids=sys.argv[2:] or list(B)
D='/tmp/mt/'+os.environ.get('SLOT','3')
env=dict(os.environ,PATH='/usr/local/cargo/bin:/root/.cargo/bin:'+os.environ['PATH'],RUSTUP_TOOLCHAIN='1.90.0',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUST_BACKTRACE='0')
def sh(c,t=600):
    p=subprocess.run(['timeout','-k','5',str(t),'bash','-c',c],env=env,cwd=D+'/repo',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL); return p.returncode,p.stdout.decode('utf8','replace')
KNOWN={'stale-load','mem-tty-buffer','mem-json-scratch','mem-tty-cut'}
os.makedirs('/tmp/mt/b7',exist_ok=True)
for i in ids:
    sh('git checkout -q -- .; git pull -q /repo main')
    p,reps=B[i]; ok=True
    for f,o,n in reps:
        s=open(f'{D}/repo/{f}').read()
        if s.count(o)!=1: print(i,'MATCH',f,s.count(o),flush=True); ok=False; break
        open(f'{D}/repo/{f}','w').write(s.replace(o,n))
    if not ok: continue
    open(f'/tmp/mt/b7/{i}.diff','w').write(sh('git diff')[1])
    rc,o=sh(f'(cd {D}/verif/targets/cli && CARGO_TARGET_DIR={D}/verif/target/cli cargo build --offline --release) && (cd {D}/verif/targets/libdrv && CARGO_TARGET_DIR={D}/verif/target/lib cargo build --offline --release)')
    if rc: print(i,'BUILD',re.findall(r'error.*\n.*',o)[:3],flush=True); continue
    rc,o=sh(f'{D}/verif/target/sim/release/pfpsim survey {p} quick 1 {D}/verif/target 3 5000 45 2>/dev/null',300)
    hits=[]; other=[]
    for l in o.splitlines():
        m=re.match(r'\s+(\d+) (\S+) \[(.*?)\] \(seed (\d+)\): (.*)',l)
        if m and m.group(2) not in KNOWN:
            (hits if p in m.group(3) else other).append(m.group(1)+' '+m.group(2))
    print(i,p,'CAUGHT' if hits else 'MISSED',hits[:4],'other:',other[:4], '' if 'not repeatable' in o else o[-200:],flush=True)
sh('git checkout -q -- .')
