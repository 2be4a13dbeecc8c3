import subprocess,sys,re,os
base=subprocess.run("git -C /repo log --format=%H --grep='^fix:'",shell=True,capture_output=True,text=True).stdout.split()
own=set(h[:8] for h in base)
for d in sys.argv[1:]:
    p=open(d).read(); f=None; res=[]
    for l in p.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        elif l.startswith('@@'):
            n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','-C','/repo','blame','-l','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
            res.append('own' if b.lstrip('^')[:8] in own else 'orig'); n+=1
        elif l.startswith(' '): n+=1
    print(d, 'orig',res.count('orig'),'own',res.count('own'))
