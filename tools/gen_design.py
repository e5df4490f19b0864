#!/usr/bin/env python3
"""Rewrites the generated section of DESIGN.md (units, planted bugs) from the unit headers and /verif/seeded."""
import os, re, sys, glob, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
p = os.path.join(run.ROOT, 'DESIGN.md'); s = open(p).read()
mark = '<!-- generated by tools/gen_design.py -->'
s = s.split(mark)[0]
o = [mark, '## 6. Units', '', '| unit | properties | kind | back end | functions | what |', '|---|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(run.PROOFS, '*.c'))):
    u = run.Unit(f)
    fs = ', '.join(dict.fromkeys([x.split('/')[0] for x in u.enforce + u.enforce_rec] + u.functions))
    o.append('| %s%s | %s | %s | %s | %s | %s |' % (u.name, ' (%d variants)' % len(u.variants) if len(u.variants) > 1 else '', ' '.join(u.props), u.kind,
        {'sat': 'CaDiCaL', 'minisat': 'MiniSat'}.get(u.solver, u.solver), fs, u.what.replace('|', '\\|')))
cat = json.load(open(os.path.join(run.ROOT, 'tools', 'seed_results.json')))
o += ['', '## 7. Planted bugs', '', 'Result of the quick check of the property on the tree with the change applied (`tools/seed_results.json`).', '', '| planted bug | needs | result |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(run.ROOT, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json'))); n = os.path.basename(d)
    o.append('| %s | %s | %s |' % (n, m['needs'], cat.get(n, 'not run')))
open(p, 'w').write(s + '\n'.join(o) + '\n')
