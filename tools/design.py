#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md from what the last quick runs recorded in evidence/."""
import json, re
text = open('/verif/DESIGN.md').read()
out = []
for line in open('/verif/properties.jsonl'):
    p = json.loads(line)
    e = json.load(open(f"/verif/evidence/{p['id']}.json"))
    if e['tier'] != 'quick':
        raise SystemExit(f"{p['id']}: evidence is not of the quick tier")
    c = e['coverage']
    rule = c['rule']
    out.append(f"### {p['id']} {p['title']}\n\n{rule[0].upper()}{rule[1:]}.\n")
    for a in e['assumptions']:
        out.append(f"Assumed: {a}.\n")
    out.append(f"Quick tier: {c['states']:,} states, {c['transitions']:,} transitions, {c['machines']:,} machines, {e['wall_s']:.0f} s.\n\n")
a = text.index('### C01 ')
b = text.index('No property is `not_applicable`')
open('/verif/DESIGN.md', 'w').write(text[:a] + ''.join(out) + text[b:])

# The table of planted bugs.
import os
rows = []
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |\n")
text = open('/verif/DESIGN.md').read()
a = text.index('|---|---|---|\n') + len('|---|---|---|\n')
b = text.index('\nMissed at first', a)
open('/verif/DESIGN.md', 'w').write(text[:a] + ''.join(rows) + text[b:])
