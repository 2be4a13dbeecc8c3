#!/bin/bash
# dev helper: survey of all properties, by kind of violation: ./all.sh [count] [secs] [props...]
c=${1:-3000}; s=${2:-10}; shift 2
P=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26}
for p in $P; do
 W=600 E=0 /verif/dev.sh $p $c $s | grep -v "^  \(faults\|probes\|unsupported\)" | sed "s/^ /$p &/"
done > /tmp/all.out
grep -c "" /tmp/all.out; grep "not repeatable" /tmp/all.out | grep -v " 0 not repeatable"
python3 - <<'P'
import re,collections
d=collections.OrderedDict()
for l in open('/tmp/all.out',errors='replace'):
    m=re.match(r'(C\d\d)\s+(\d+) (\S+) (\[.*?\]) \(seed (\d+)\): (.*)',l)
    if not m: continue
    p,n,sig,tags,seed,text=m.groups()
    e=d.setdefault(sig,[0,[],tags,text]); e[0]+=int(n); e[1].append((p,seed))
for k,v in sorted(d.items(), key=lambda x:-x[1][0]):
    print(v[0],k,v[2],' '.join(a+':'+b for a,b in v[1][:2]),v[3][:130])
P
