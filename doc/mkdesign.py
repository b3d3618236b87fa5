#!/usr/bin/env python3
"""Fill in doc/DESIGN.in from properties.jsonl, the evidence of the last quick runs and doc/seeded.tsv."""
import json, os
V = '/verif/'
P = [json.loads(l) for l in open(V + 'properties.jsonl')]
out = ''
for p in P:
    d = json.load(open(V + f'evidence/{p["id"]}.json'))
    assert d['tier'] == 'quick', p['id']
    out += f"**{p['id']} {p['title']}** ({d['wall_s']:.0f} s, {d['coverage']['states']:,} states)\n\n"
    for k, v in d['coverage']['bounds'].items():
        out += f'- {k}: {v}\n'
    out += '\n'
t = open(V + 'doc/DESIGN.in').read().replace('BOUNDS\n', out)
s = ''
if os.path.exists(V + 'doc/seeded.tsv'):
    rows = [l.rstrip('\n').split('\t') for l in open(V + 'doc/seeded.tsv')]
    s = '## Planted bugs\n\nEach is in `seeded/<id>/`; the check of its own property was run on it.\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n'
    s += ''.join('| ' + ' | '.join(r) + ' |\n' for r in rows)
t = t.replace('SEEDED\n', s)
open(V + 'DESIGN.md', 'w').write(t)
