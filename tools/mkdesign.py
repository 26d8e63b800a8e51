"""Rewrites the generated sections of DESIGN.md: families and sizes; planted bugs and what catches them."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), V]
MARK = '<!-- generated below by tools/mkdesign.py -->'
text = open(os.path.join(V, 'DESIGN.md')).read().split(MARK)[0].rstrip() + '\n\n' + MARK + '\n\n## 6. Families\n\nquick/thorough = number of chunks; what was covered in a run is in `evidence/`.\n'
for p in [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]:
    m = importlib.import_module('checks.' + p.lower())
    if hasattr(m, 'prepare') and p in ('C22',):
        m.prepare('quick')
    sizes = {t: {f.name: len(f.chunks) for f in m.families(t)} for t in (('quick', 'thorough') if p != 'C21' else ('quick',))}
    text += f'\n### {p}\n\n| family | explores | quick | thorough |\n|---|---|---|---|\n'
    for f in m.families('quick'):
        text += f'| {f.name} | {f.about} | {sizes["quick"][f.name]} | {sizes.get("thorough", {}).get(f.name, "more")} |\n'
res = json.load(open(os.path.join(V, 'seed_results.json'))) if os.path.exists(os.path.join(V, 'seed_results.json')) else {}
text += '\n## 7. Planted bugs\n\nEach is in `seeded/<id>/`; the column names the checks run against it and what they said (quick tier).\n\n| bug | property | breaks | needs | verdict |\n|---|---|---|---|---|\n'
sd = os.path.join(V, 'seeded')
for i in sorted(os.listdir(sd)):
    d = json.load(open(os.path.join(sd, i, 'meta.json')))
    v = ', '.join(f'{k}: {x}' for k, x in res.get(i, {}).items()) or 'not recorded'
    text += f'| {i} | {d["property"]} | {d["what_it_breaks"]} | {d["needs"]} | {v} |\n'
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
