"""Maps properties to rules."""
import importlib
import os
import pkgutil

PROPS = {}


class Spec:
    def __init__(self):
        self.rules, self.explanation, self.assumptions = [], '', []
        self.technique = self.note = ''


BASE_ASSUMPTIONS = [
    'library functions (dag_cbor, multiformats, carbox, ndb, redis, lexrpc, requests) behave as documented',
    "the repository's code doesn't use reflection to rebind the analysed names at run time",
]


def rules(prop, explanation='', assumptions=()):
    """Decorator: registers a function as (part of) a property's decision."""
    def deco(fn):
        s = PROPS.setdefault(prop, Spec())
        s.rules.append(fn)
        if explanation:
            s.explanation = explanation
        s.assumptions = s.assumptions or list(BASE_ASSUMPTIONS)
        s.assumptions += [a for a in assumptions if a not in s.assumptions]
        return fn
    return deco


from . import rules as _pkg   # noqa: E402
for m in sorted(pkgutil.iter_modules(_pkg.__path__), key=lambda m: m.name):
    importlib.import_module(f'sa.rules.{m.name}')
