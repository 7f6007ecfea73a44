#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has rules; the others are not applicable."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sa import registry   # noqa: E402

TECH = ('path-sensitive abstract interpretation of the source (trace partitioning, value numbering, '
        'branch facts), with typestate, dataflow and call-site rules')
NOTE = ('Sound for the rules as stated, given the listed assumptions: each rule is an obligation on every partition of the '
        'anchored functions; library calls are opaque. Nothing is executed and no solver is used.')
NA = {
    'N01': "needs an inductive proof about the shape of arbitrary trees under every operation sequence; the parts that dataflow can decide (layers, splits, merges, persistence) are M01 to M03",
    'N02': 'a bound on run-time latency: no static argument in reach bounds scheduling, queue lengths or datastore latency',
    'N03': 'quantifies over run-time tree shapes: whether the proof nodes suffice depends on the actual tree, not on the code paths; M05 decides which nodes are included',
}


def main():
    props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
    checks = [{
        'property': p,
        'quick_cmd': f'python3 run.py {p} --tier quick',
        'thorough_cmd': f'python3 run.py {p} --tier thorough',
        'technique': registry.PROPS[p].technique or TECH,
        'level': 'other',
        'level_note': registry.PROPS[p].note or NOTE,
    } for p in props if p in registry.PROPS]
    na = [{'property': p, 'reason': NA.get(p, 'no rules yet')} for p in props if p not in registry.PROPS]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', 'not applicable:', [x['property'] for x in na])


main()
