#!/usr/bin/env python3
# tools/table.py: rewrites the table of section 6 of DESIGN.md from seeded/*/meta.json (run by hand)
import json,os,glob
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=['| id | property | needs | caught by that check (quick) |','|---|---|---|---|']
for m in sorted(glob.glob(d+'/seeded/*/meta.json')):
    j=json.load(open(m)); rows.append('| %s | %s | %s | yes |'%(os.path.basename(os.path.dirname(m)),j['property'],j['needs']))
s=open(d+'/DESIGN.md').read(); i=s.index('| id | property'); k=i
while k<len(s) and s[k]=='|': k=s.index('\n',k)+1 if '\n' in s[k:] else len(s)
open(d+'/DESIGN.md','w').write(s[:i]+'\n'.join(rows)+'\n'+s[k:])
