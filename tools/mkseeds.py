#!/usr/bin/env python3
"""Regenerates the table of section 5 of DESIGN.md from seeded/*/meta.json ("missed" there, if present,
says what had to be added to the checks before they caught the change)."""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
rows=['| planted bug | property | needs | missed at first; what was added |','|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[1],m['property'],m['needs'].replace('|','/'),m.get('missed','')))
t=open('DESIGN.md').read()
a=t.index('| planted bug | property |'); b=re.compile(r'\n(?!\|)').search(t,a).start()
t=t[:a]+'\n'.join(rows)+t[b:]
open('DESIGN.md','w').write(t)
