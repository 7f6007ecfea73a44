"""Private keys, passwords and tokens: where they may flow."""
import ast

from .common import *
from ..taint import Analysis

RULES = (
    ('logs', 'no private key, password or token is logged or printed'),
    ('errors', 'no error message has a private key, password or token'),
    ('responses', 'no response has a private key, password or token, except the tokens of a session that was authenticated'),
    ('events', 'no event has a private key, password or token'),
    ('blocks', 'no block has a private key, password or token'),
    ('requests', 'no request that\'s sent has a private key, password or token, except in its Authorization header'),
    ('stored', 'private keys are stored in encrypted properties, and passwords and tokens aren\'t stored'),
)


def flows(c):
    a = c.an.__dict__.get('leaks')
    if a is None:
        a = c.an.__dict__['leaks'] = Analysis(c.an.prog)
        a.done = a.run()
        c.an.functions |= set(a.funcs)
        c.an.calls += sum(isinstance(n, ast.Call) for m in a.mods.values() for n in ast.walk(m.tree))
    return a


@rules('U05', explanation=(
    'An information flow analysis of the whole program\'s syntax trees, flow-sensitive within functions, field-sensitive and interprocedural. It follows serialized private keys, '
    'decrypted properties, JWTs, and the environment\'s, files\', headers\' and inputs\' passwords and tokens through variables, containers, string operations, calls and returns to every log '
    'call, exception, handler response, event, block, request and datastore property. Nothing is executed.'),
    assumptions=('libraries don\'t log what they\'re given', 'webutil\'s EncryptedProperty encrypts'))
def u05(c):
    a = flows(c)
    for rule, what in RULES:
        c.rule(f'U05.{rule}', what)
        if not a.done:
            c.unsure('the flows don\'t converge')
            continue
        seen = [k for k in a.seen if k[0] == rule]
        for k in seen:
            c.ob(f'{k[1]}', True, k[2])
        for (kind, msg, where), labels in a.hits.items():
            if kind == rule:
                fn = where.rsplit('(', 1)[-1].rstrip(')')
                c.ob(fn, False, where, f'{msg} has {", ".join(sorted(x[1] for x in labels))}')
        if rule == 'stored':
            enc = {k[2] for k in a.seen if k[0] == 'encrypted'}
            hidden = {f'{m.rsplit(".", 1)[-1]}.{p}' for m, props in a.models.items() for p, kind in props.items() if a.encrypted(kind)}
            c.some('encrypted properties', sorted(enc), 'no property is encrypted')
            for x in sorted(hidden):
                c.ob(f'{x}', True, c.prog.func(f'{DSM}.DatastoreStorage.store_repo'))
        else:
            c.some(f'{rule} found', seen, 'nothing was found')
