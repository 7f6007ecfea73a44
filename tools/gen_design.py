#!/usr/bin/env python3
"""Writes DESIGN.md from its fixed parts, the properties, the rules that the last run reported, and seeded/."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f'{V}/tools/design_head.md').read()]
out.append('## Properties, and how each is decided\n')
for line in open(f'{V}/properties.jsonl'):
    p = json.loads(line)
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n")
    f = f"{V}/evidence/{p['id']}.json"
    if not os.path.exists(f):
        out.append('Not applicable, see below.\n')
        continue
    c = json.load(open(f))['coverage']
    fns = c['functions_analysed']
    if len(fns) > 12:
        mods = sorted({x.split('.')[1] for x in fns if '.' in x})
        fns = [f"{len(fns)} functions of {', '.join(mods)}"]
    else:
        fns = sorted({'.'.join(x.split('.')[1:]) for x in fns})
    out.append(f"{c['explanation'].strip()}\n")
    out.append('Analysed: ' + ', '.join(fns) + '. Obligations:\n')
    out += [f'* `{k}`: {v}' for k, v in c['rules'].items()]
    out.append('')
out.append(open(f'{V}/tools/design_tail.md').read())
out.append("""## Planted bugs

Each is in `seeded/<id>/`, passes the stable tests, and was written from its property's statement. All of
them are caught by their property's check.

| id | property | needs |
| --- | --- | --- |""")
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
