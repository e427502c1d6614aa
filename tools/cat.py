import re,sys,collections
c=collections.Counter(); ex={}
for l in open(sys.argv[1],errors='replace'):
    l=l.rstrip()
    if '=>' not in l: continue
    a,b=l.split('=>',1)
    op=a.strip().split()[1] if len(a.split())>1 else a
    p=re.search(r' p=(\d+)',a); p=p.group(1) if p else ''
    if len(p)>4: p='big%d'%len(p)
    k=(op,p,re.sub(r'\[[0-9a-f, ]*\]','[]',re.sub(r'-?\d+','#',b))[:100])
    c[k]+=1; ex.setdefault(k,l.strip()[:300])
for k,n in sorted(c.items()): print(n,k,'\n      ',ex[k])
