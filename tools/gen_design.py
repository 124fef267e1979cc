#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/level_notes.json and seeded/*/meta.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(VERIF, 'tools', 'level_notes.json')) as f:
    notes = json.load(f)
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
lines = []
for p in props:
    n = notes.get(p['id'], {})
    if p['id'] == 'C26':
        continue
    lines.append('### {} {}\n\n{}\n'.format(p['id'], p['title'], n.get('design') or n.get('note') or 'Planned.'))
seeded = []
root = os.path.join(VERIF, 'seeded')
for d in sorted(os.listdir(root)):
    path = os.path.join(root, d, 'meta.json')
    if os.path.exists(path):
        m = json.load(open(path))
        seeded.append('| {} | {} | {} | {} |'.format(d, m['property'], m['what_it_breaks'], m.get('caught_by', '?')))
text = open(os.path.join(VERIF, 'tools', 'design_head.md')).read()
text = text.replace('@PROPS@', '\n'.join(lines))
text = text.replace('@SEEDED@', '| id | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(seeded))
with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
    f.write(text)
