"""Extracts what the rules need from lexrpc's bundled lexicons, into data/lexicons.json.

Run it by hand, where lexrpc is installed; the checks only read its output.
"""
import glob
import json
import os
import sys

L = sys.argv[1] if len(sys.argv) > 1 else '/opt/venv/lib/python3.12/site-packages/lexrpc/lexicons'
idx = {}
for f in glob.glob(f'{L}/**/*.json', recursive=True):
    d = json.load(open(f))
    idx[d.get('id')] = d


def obj(nsid, s):
    """Required properties of an object schema, nested."""
    if s.get('type') == 'ref' and s['ref'].startswith('#'):
        s = idx[nsid]['defs'][s['ref'][1:]]
    if s.get('type') == 'array':
        return {'items': obj(nsid, s['items'])}
    if s.get('type') == 'object':
        ps = s.get('properties', {})
        return {'required': s.get('required', []), 'properties': {k: obj(nsid, v) for k, v in ps.items()}}
    return {'type': s.get('type')}


out = {}
for nsid, d in sorted(idx.items()):
    m = d.get('defs', {}).get('main', {})
    if not nsid or not nsid.startswith('com.atproto.') or m.get('type') not in ('query', 'procedure', 'subscription'):
        continue
    out[nsid] = {
        'type': m['type'],
        'parameters': m.get('parameters', {}).get('properties', {}) and sorted(m['parameters']['properties']),
        'needed': sorted(m.get('parameters', {}).get('required', [])),
        'defaults': {k: v['default'] for k, v in m.get('parameters', {}).get('properties', {}).items() if 'default' in v},
        'input': obj(nsid, m.get('input', {}).get('schema', {})),
        'output': obj(nsid, m.get('output', {}).get('schema', {})),
        'encoding': m.get('output', {}).get('encoding'),
    }
    if m['type'] == 'subscription':
        out[nsid]['messages'] = {k: obj(nsid, v) for k, v in d['defs'].items() if v.get('type') == 'object'}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'lexicons.json')
os.makedirs(os.path.dirname(p), exist_ok=True)
json.dump(out, open(p, 'w'), indent=1, sort_keys=True)
