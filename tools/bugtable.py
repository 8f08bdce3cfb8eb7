#!/usr/bin/env python3
"""Rewrites the 'planted changes' table of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    files=sorted(set(re.findall(r'^\+\+\+ b/(\S+)',open(os.path.dirname(f)+'/patch.diff').read(),re.M)))
    w=m['what_it_breaks']; w=w if len(w)<150 else w[:147]+'...'
    rows.append(f"| {i} | {m['property']} | {', '.join(os.path.basename(x) for x in files)} | {w.replace('|','/')} | {m.get('caught_by',m['property'])} |")
t='<!-- bugs:begin -->\n| seeded id | property | file | what it breaks | caught by |\n|---|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- bugs:end -->'
d=open('/verif/DESIGN.md').read()
if '<!-- bugs:begin -->' in d:
    d=re.sub(r'<!-- bugs:begin -->.*<!-- bugs:end -->',lambda m:t,d,flags=re.S)
else:
    d=d.rstrip()+'\n\n## Planted changes and the checks that catch them\n\nEach change compiles, passes the 1254 stable tests, and has a demonstration.\n"caught by" names the check that exits 1 on it (verified with tools in this\nsandbox; see the text above for the ones that were first missed).\n\n'+t+'\n'
open('/verif/DESIGN.md','w').write(d)
