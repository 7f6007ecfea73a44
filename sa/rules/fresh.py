"""Lookups of things that change aren't answered from a cache."""
import ast

from .common import *
from ..program import Func

MEMO = {'lru_cache', 'cache', 'cached', 'cachedmethod', 'cached_property', 'memoize', 'memoized', 'ttl_cache', 'lfu_cache'}
CHANGES = {'now', 'utcnow', 'time', 'time_ns', 'monotonic', 'getenv', 'environ', 'request', 'storage', 'sequences', 'uuid4', 'urandom'}


def memo(f):
    for d in f.node.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        n = x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '')
        if n in MEMO and not (isinstance(x, ast.Name) and x.id in f.mod.funcs):
            return n
    return None


def assigned(c):
    """Attributes that are set other than while an object is made."""
    got = c.an.__dict__.get('fresh_assigned')
    if got is None:
        got = set()
        for f in c.prog.all_funcs():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args else None
                    if not (f.node.name == '__init__' and isinstance(x.value, ast.Name) and x.value.id == me):
                        got.add(x.attr)
        c.an.__dict__['fresh_assigned'] = got
    return got


def changing(c, f, seen=()):
    """What a function's answer depends on that can change, other than its arguments, or None."""
    if f.full in seen:
        return None
    sets = assigned(c)
    me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args else None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            if x.id in f.mod.volatile or x.id in CHANGES and (x.id in f.mod.imports or x.id in f.mod.assigns):
                return x.id
            g = f.mod.funcs.get(x.id)
            if isinstance(g, Func):
                why = changing(c, g, seen + (f.full,))
                if why:
                    return why
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            if x.attr in CHANGES:
                return x.attr
            if isinstance(x.value, ast.Name) and x.value.id == me:
                m = next((k.methods[x.attr] for k in c.prog.mro(f.cls) if x.attr in k.methods), None) if f.cls is not None else None
                if m is not None:
                    why = changing(c, m, seen + (f.full,))
                    if why:
                        return why
                elif x.attr in sets or mutated(c, f, x.attr):
                    return f'self.{x.attr}'
    return None


def mutated(c, f, attr):
    """Is an attribute's value, eg a dict, changed in place?"""
    for k in c.prog.mro(f.cls) + c.prog.subclasses(f.cls):
        for m in k.methods.values():
            for x in ast.walk(m.node):
                y = x.value if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) else \
                    x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                        'add', 'append', 'setdefault', 'update', 'pop', 'remove', 'clear', 'extend', 'insert', 'discard', 'popleft', 'appendleft') else None
                if isinstance(y, ast.Attribute) and y.attr == attr:
                    return True
    return False


def fresh(c, mods):
    n = 0
    for f in c.prog.all_funcs():
        if f.mod.name not in mods:
            continue
        n += 1
        how = memo(f)
        if how is None:
            continue
        ndb = f.cls is not None and any(k.full.endswith('.Model') or any((b or '').endswith('.Model') for b in k.bases) for k in c.prog.mro(f.cls))
        why = changing(c, f) or ('its entity' if ndb else None) or ('the storage' if f.cls is not None and f.cls.full in FULL else None)
        c.ob(f.full, why is None, f, f'is only computed once per argument ({how}), but depends on {why}, which can change')
    c.anchor(n > 3, 'functions')


STORE = ('arroba.storage', 'arroba.datastore_storage')
FULL = (ST, MEM, DS)
SERVE = ('arroba.server', 'arroba.xrpc_repo', 'arroba.xrpc_sync', 'arroba.xrpc_server')


def register(prop, mods, title):
    @rules(prop)
    def fresh_rule(c):
        c.rule(f'{prop}.fresh', title)
        fresh(c, mods)


register('C01', STORE + ('arroba.repo',), "repos and their statuses aren't looked up in a cache that may be stale")
register('C07', STORE, "blocks aren't looked up in a cache that may be stale")
register('C08', STORE, "sequence numbers aren't answered from a cache")
register('C09', STORE, "events and blocks aren't looked up in a cache that may be stale")
register('C11', STORE, "repos and blocks aren't looked up in a cache that may be stale")
register('C12', STORE + ('arroba.repo',), "a repo's records aren't looked up in a cache that may be stale")
register('F02', ('arroba.firehose',), "events aren't served from a cache other than the window")
register('X01', SERVE, "whether a request is authorized isn't answered from a cache")
register('X02', SERVE, "repos and their statuses aren't looked up in a cache that may be stale")
register('X05', SERVE, "heads and archives aren't answered from a cache")
