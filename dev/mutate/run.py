import json,os,subprocess,sys,re,time
W=int(sys.argv[1]); N=int(sys.argv[2]); ONLY=[int(x) for x in sys.argv[3:]]
D=f'/tmp/mt/{W}'
env=dict(os.environ); 
env.update(PATH='/usr/local/cargo/bin:/root/.cargo/bin:'+env['PATH'],RUSTUP_TOOLCHAIN='1.90.0',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never')
for k in('RUSTC_WRAPPER','RUSTFLAGS','CARGO_INCREMENTAL'): env.pop(k,None)
tenv=dict(env); tenv['CARGO_TARGET_DIR']=D+'/t'; tenv['CARGO_BUILD_JOBS']='2'
benv=dict(env); benv['CARGO_BUILD_JOBS']='2'
M=json.load(open('/tmp/mt/mutants.json'))
import random
idx=list(range(len(M))); random.Random(7).shuffle(idx)
idx=[i for i in idx if not ('recovery_codes' in M[i][0] and M[i][3]=='num+1')]
KNOWN={'stale-load','mem-tty-buffer','mem-json-scratch','mem-tty-cut'}
ORDER='C04 C21 C07 C05 C11 C03 C12 C13 C19 C26 C24 C20 C14 C25 C10 C17 C23 C09 C01 C02 C08 C06 C22 C15 C16 C18'.split()
def sh(c,e,t,cwd):
    open(f'/tmp/mt/{W}/c.sh','w').write(c)
    p=subprocess.run(['timeout','-k','5',str(t),'bash',f'/tmp/mt/{W}/c.sh'],env=e,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL)
    return (124 if p.returncode in(124,137) else p.returncode),p.stdout.decode('utf8','replace')
def survey(props,count,secs):
    for P in props:
        rc,o=sh(f'timeout 200 {D}/verif/target/sim/release/pfpsim survey {P} quick {SEED} {D}/verif/target 2 {count} {secs} 2>/dev/null',dict(benv,RUST_BACKTRACE='0'),220,'/tmp')
        for l in o.splitlines():
            m=re.match(r'\s+(\d+) (\S+) \[(.*?)\] \(seed (\d+)\): (.*)',l)
            if m and m.group(2) not in KNOWN and P in m.group(3):
                return P,m.group(2)
        m=re.search(r'(\d+) not repeatable',o)
        if rc not in(0,) and 'runs' not in o: return P,'rc%d %s'%(rc,o[-100:])
    return None
SEED=1
def one(i):
    f,n,new,kind=M[i]; p=f'{D}/repo/{f}'; src=open('/repo/'+f).read(); L=src.split('\n'); L[n]=new
    open(p,'w').write('\n'.join(L))
    try:
        rc,o=sh('cargo test --offline -p pfp --lib && cargo test --offline -p pfp-cli -- --test-threads=4',tenv,45,D+'/repo')
        if 'could not compile' in o or 'error[' in o: return 'nocompile',''
        if rc==124: return 'test-hang',''
        fails=sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED',o,re.M))-{'aliases::add_remove','passwords::add','cli::aliases::add_remove','cli::passwords::add'})
        if fails: return 'tests',','.join(fails)[:60]
        rc,o=sh(f'(cd {D}/verif/targets/cli && CARGO_TARGET_DIR={D}/verif/target/cli cargo build --offline --release) && (cd {D}/verif/targets/libdrv && CARGO_TARGET_DIR={D}/verif/target/lib cargo build --offline --release)',benv,400,D)
        if rc: return 'relfail',o[-300:]
        r=survey(ORDER,int(os.environ.get('CNT','250')),8)
        if r: return 'killed',' '.join(r)
        return 'SURVIVED',''
    finally:
        open(p,'w').write(src)
for i in (ONLY or idx[W::N]):
    t=time.time()
    a,b=one(i)
    print(json.dumps([i,a,b,round(time.time()-t,1),M[i][0],M[i][1]+1,M[i][3],M[i][2].strip()]),flush=True)
