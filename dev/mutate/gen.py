import re,glob,json,hashlib
SKIP=('leaking_allocator','logging_allocator','memory.rs','mod.rs.test')
files=[f for f in glob.glob('/repo/pfp/src/**/*.rs',recursive=True)+glob.glob('/repo/cli/src/**/*.rs',recursive=True) if not any(s in f for s in SKIP)]
M=[]
def add(f,n,new,kind): M.append((f[6:],n,new,kind))
for f in files:
    L=open(f).read().split('\n')
    end=next((i for i,l in enumerate(L) if '#[cfg(test)]' in l and i+1<len(L) and 'mod ' in L[i+1]),len(L))
    for n,l in enumerate(L[:end]):
        s=l.strip()
        if not s or s.startswith(('//','#[','use ','*','/*','pub fn','fn ','impl','pub struct','pub enum')): continue
        code=re.sub(r'"(\\.|[^"\\])*"',lambda m:'\0'*len(m.group(0)),l)  # blank strings
        for a,b in [('==','!='),('!=','=='),(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' && ',' || '),(' || ',' && '),(' + ',' - '),(' - ',' + '),(' % ',' / '),(' * ',' + '),('+=','-='),
            ('true','false'),('false','true'),('is_some()','is_none()'),('is_none()','is_some()'),('is_ok()','is_err()'),('is_err()','is_ok()'),('.any(','.all('),('.all(','.any('),('starts_with','ends_with'),('continue;','break;'),('.min(','.max('),('.max(','.min('),('.trim()',''),('.to_lowercase()',''),('.rev()',''),('.sort()',''),('if !','if '),('(!','('),('&& !','&& '),('|| !','|| '),('..=','..'),('.lock()','.unlock_()'),('Some(','None.or(Some('),]:
            if a in('Some(','.lock()'): continue
            for m in re.finditer(re.escape(a),code):
                new=l[:m.start()]+b+l[m.end():]
                add(f,n,new,a.strip()+'->'+b.strip())
        for m in re.finditer(r'(?<![\w.\'])\d+(?![\w.])',code):
            add(f,n,l[:m.start()]+str(int(m.group(0))+1)+l[m.end():],'num+1')
        if re.match(r'^[a-z_][\w.:]*\(.*\)\??;$',s) or re.match(r'^[a-z_][\w.]* [+-]?= .*;$',s):
            add(f,n,'','del')
        if s.endswith(')?;') and not s.startswith('let') : add(f,n,l.replace(')?;',').ok();') if l.count(')?;')==1 else l,'swallow')
        m=re.match(r'^(\s*(?:\} else )?if )(?!let )(.*)( \{)$',l)
        if m:
            add(f,n,m.group(1)+'true || '+m.group(2)+m.group(3) if '&&' not in m.group(2) else m.group(1)+'true'+m.group(3),'if true')
            add(f,n,m.group(1)+'false'+m.group(3),'if false')
        if re.match(r'^\.(filter|trim_start|trim_end|trim|sort_by_key|take|skip|chain|flush|sync_all|convert_error|map_err|or_else)\(.*\)[;?]*$',s):
            add(f,n,';' if s.endswith(';') else '','delchain')
        m=re.search(r'\.(sync_all|sync_data|flush)\(\)',l)
        if s in('break;','return;','continue;') : add(f,n,'','del')
seen=set();out=[]
for m in M:
    orig=open('/repo/'+m[0]).read().split('\n')[m[1]]
    if m[2]==orig or m[:3] in seen: continue
    seen.add(m[:3]); out.append(m)
json.dump(out,open('/tmp/mt/mutants.json','w'))
import collections
print(len(out)); print(collections.Counter(m[0] for m in out)); print(collections.Counter(m[3] for m in out))
