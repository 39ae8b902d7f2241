#!/usr/bin/env python3
"""designrow.py <id> <caught by>: adds a row to DESIGN.md's table of planted bugs"""
import sys,json,re
i,by=sys.argv[1:3]
s=open('/verif/DESIGN.md').read()
if f'| {i} |' in s: sys.exit(0)
m=json.load(open(f'/verif/seeded/{i}/meta.json'))
rows=[x for x in re.finditer(r'^\| c\d\d-.*\n',s,re.M)]
j=rows[-1].end()
open('/verif/DESIGN.md','w').write(s[:j]+f"| {i} | {m['what_it_breaks'].strip()} | {by} |\n"+s[j:])
