#!/usr/bin/env python3
# fills the tables of DESIGN.md from tools/design.md, seeded/*/meta.json and tools/mutants.txt
import json,glob,os
t=open('/verif/tools/design.md').read()
rows=['| planted bug | property | needs | breaks |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t=t.replace('SEEDTABLE','\n'.join(rows)).replace('MUTANTS',open('/verif/tools/mutants.txt').read().rstrip())
open('/verif/DESIGN.md','w').write(t)
