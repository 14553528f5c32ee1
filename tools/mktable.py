#!/usr/bin/env python3
"""Writes section 6 of DESIGN.md (planted bugs by property) from seeded/*/meta.json."""
import glob, json, os
from collections import defaultdict
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = defaultdict(list)
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    d[m['property']].append((f.split('/')[-2], m['needs']))
p = ROOT + '/DESIGN.md'
s = open(p).read()
k = s.find('## 6. ')
s = (s if k < 0 else s[:k]).rstrip() + '\n\n'
n = sum(map(len, d.values()))
s += f'## 6. Which check catches which planted bug\n\nEach of the {n} planted bugs is caught by the quick check of its own property, with `VERIF_SEED=1` (`tools/plant.py check`).\nMany are caught by the checks of other properties too. (Table written by `tools/mktable.py`.)\n\n| check | planted bug | needs |\n|---|---|---|\n'
for c in sorted(d):
    for i, needs in d[c]:
        s += f"| {c} | `{i}` | {needs.replace('|', '/')} |\n"
open(p, 'w').write(s)
