#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows={}
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    files=sorted({l[6:].strip() for l in open(os.path.dirname(m)+'/patch.diff') if l.startswith('+++ b/')})
    rows.setdefault(d['property'],[]).append((i,', '.join(files),d['needs'].replace('|','/'),d['what_it_breaks'].replace('|','/')))
out=[]
for p in sorted(rows):
    out.append('\n**%s** (%d)\n'%(p,len(rows[p])))
    for i,f,n,w in rows[p]: out.append('- `%s` (%s): %s — %s'%(i,f,n,w))
a,b='<!-- seeded begin -->','<!-- seeded end -->'
p=root+'/DESIGN.md'; s=open(p).read()
h,_,r=s.partition(a); _,_,t=r.partition(b)
open(p,'w').write(h+a+'\n'+'\n'.join(out)+'\n'+b+t)
