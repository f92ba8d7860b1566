#!/usr/bin/env python3
"""Rewrite section 5 of DESIGN.md (the planted bugs and the check that catches each)."""
import json,os,re
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
s=os.path.join(d,'seeded')
for x in sorted(os.listdir(s)):
    j=json.load(open(os.path.join(s,x,'meta.json')))
    rows.append('| %s | %s | %s | %s |'%(x,j['property'],j['what_it_breaks'].replace('|','/'),j.get('caught','yes')))
t='<!-- seeds -->\n| planted bug | check | what it breaks | caught |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
f=os.path.join(d,'DESIGN.md'); c=open(f).read()
c=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:t,c,flags=re.S)
open(f,'w').write(c)
