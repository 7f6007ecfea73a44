"""Names and small helpers shared by rules."""
from ..query import *
from ..registry import rules
from ..terms import (K, NONE, TRUE, FALSE, cval, is_const, linear, mk_bin, mk_fmt, mk_sum,
                     show, subst, subterms)

NSID = 'com.atproto.sync.subscribeRepos'
ST = 'arroba.storage.Storage'
MEM = 'arroba.storage.MemoryStorage'
DS = 'arroba.datastore_storage.DatastoreStorage'
DSM = 'arroba.datastore_storage'
STORAGES = (ST, MEM, DS)
REPO = param('repo')


def ACTION(x):
    return G(f'arroba.storage.Action.{x}')


def is_mst(fn, *names):
    return fn_is(fn, *[f'MST.{n}' for n in names])


def mstcall(*names):
    return lambda e: e.kind == 'call' and is_mst(e.fn, *names)


def setattr_of(attr, base=None):
    return lambda e: (e.kind == 'setattr' and e.fn == attr
                      and (base is None or e.a['self'] == base))


def blockval(t):
    """A Block constructed here, or None."""
    return dict(t[2]) if t[0] == 'call' and t[1] == 'arroba.storage.Block' else None


def elems_of(t, lid=None):
    """('elemof', x, lid) subterms."""
    return [x for x in subterms(t) if x[0] == 'elemof' and (lid is None or x[2] == lid)]


def back_bodies(loop):
    return [b for b in loop.bodies if b.exit == 'back']


def all_loops(path):
    """Every loop summary on a partition, at any depth."""
    for e in flat(path.events):
        if e.kind == 'loop':
            yield e.x


def lin_is(t, vec, const):
    """Is t the linear combination sum(vec) + const?"""
    v, c = linear(t)
    return v == vec and c == const


def diff_is(a, b, const):
    """Is a - b == const, by value numbers?"""
    t = mk_bin('-', a, b)
    return t == K(const)


def inl(call_ev):
    return call_ev.a


def deco_calls(ev, *names):
    """Decorator terms in context that are (calls of) names."""
    out = []
    for d in decos(ev):
        fn = d[1] if d[0] in ('call', 'glob') else None
        if fn and fn_is(fn, *names):
            out.append(d)
    return out


def kwarg(t, name):
    return dict(t[2]).get(name) if t[0] == 'call' else None


def names_in(t):
    return {x[1] for x in subterms(t) if x[0] in ('glob', 'gv')}


def calls_in(t, *names):
    return [x for x in subterms(t) if x[0] == 'call' and fn_is(x[1], *names)]


def one_loop(s):
    """(iterable, [(facts, segments)]) of a collection built by one loop and nothing else."""
    if s[0] in ('list', 'dict', 'set', 'gen') and len(s[1]) == 1 and s[1][0][0] == 'loop':
        return s[1][0][2], s[1][0][3]
    return None


def inner(t):
    """Strips wrappers that keep a collection's elements and order."""
    while t[0] == 'call' and t[1] in ('copy.copy', 'builtins.list', 'builtins.tuple', 'builtins.iter') and t[2]:
        t = t[2][0][1]
    return t


def fact(facts, atom):
    """Truth of an atom in a list of (atom, value) facts."""
    for k, v in facts:
        if k == atom:
            return v
    return None


def ast_funcs(c, *mods):
    """Functions of the repository's own modules (not tests), or of some."""
    for f in c.prog.all_funcs():
        n = f.mod.name
        if '.tests' in n or n.startswith('scripts'):
            continue
        if mods and n not in mods:
            continue
        yield f


def at_node(f, node):
    return f'{f.mod.rel}:{node.lineno} ({f.full})'


def own_nodes(f):
    """AST nodes of a function, without those of nested functions that are analysed separately."""
    import ast
    return ast.walk(f.node)


def calls_of(c, name, *mods):
    """(function, call node) for every syntactic call of a method or function by its last name."""
    import ast
    for f in ast_funcs(c, *mods):
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call):
                fn = node.func
                last = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
                if last == name:
                    yield f, node


def ret_terms(run):
    return [p.value for p in run.returns]


def resolved(c, f, node):
    """Canonical dotted name of a callee expression, by the module's imports; or its last name."""
    parts = []
    n = node
    while hasattr(n, 'attr'):
        parts.append(n.attr)
        n = n.value
    base = getattr(n, 'id', None)
    if base is None:
        return '?.' + '.'.join(reversed(parts))
    parts.append(base)
    parts.reverse()
    d = f.mod.imports.get(base)
    full = '.'.join([d or f'{f.mod.name}.{base}'] + parts[1:])
    return c.prog.canon(full) or full


def lin1(t):
    """(x, k) if t is x + k; else (None, None)."""
    v, k = linear(t)
    if len(v) == 1:
        (x, co), = v.items()
        if co == 1:
            return x, k
    return None, None


def plus(*ts):
    out = ts[0]
    for t in ts[1:]:
        out = mk_bin('+', out, t)
    return out


def carries(c, lp):
    """[(body, {lv term: its value after this iteration})] for iterations that continue."""
    backs = back_bodies(lp)
    out = [(b, {}) for b in backs]
    for key, (init, vals) in lp.changed.items():
        c.anchor(len(vals) == len(backs), 'loop summaries are parallel')
        lv = ('lv', lp.lid, key[2] if key[0] == 'var' else key)
        for (b, d), v in zip(out, vals):
            d[lv] = v
    return out


def inits(lp):
    return {('lv', lp.lid, key[2] if key[0] == 'var' else key): init for key, (init, vals) in lp.changed.items()}


def yields(events):
    return [e for e in events if e.kind == 'yield']


def with_facts(r, p, facts):
    """The state at p with more facts."""
    from ..interp import Facts
    st = r._st(p)
    d = dict(st.facts.d)
    d.update(dict(facts))
    return st.set(facts=Facts(d))


def key_of(r, p, key, arg=('x',)):
    """What a key function computes for arg, or None if it isn't understood."""
    if key[0] == 'call' and fn_is(key[1], 'operator.attrgetter'):
        n = dict(key[2]).get(0, NONE)
        return ('attr', arg, n[2])
    if key[0] == 'call' and fn_is(key[1], 'operator.itemgetter'):
        n = dict(key[2]).get(0, NONE)
        return ('item', arg, n)
    if key[0] == 'func':
        r.it.pending.append([])
        try:
            vs = {v for _, v in r.it.call(p.st, key, [arg], [], r.func.node, False)}
        except Exception:
            return None
        finally:
            r.it.pending.pop()
        return vs.pop() if len(vs) == 1 else None
    return None


def is_get(t, base, key):
    """Is t base[key] or base.get(key)?"""
    k = K(key) if not isinstance(key, tuple) else key
    return t is not None and (
        t[0] in ('item', 'get') and t[1] == base and t[2] == k and (len(t) < 4 or t[3] in (NONE, None))
        or match(C('?.get', k, self=base), t))


def every_case(r, at, pred):
    return all(pred(x) for x in r.cases(at))


def any_loops(events):
    """Every loop summary, finished or not, at any depth, with its enclosing body, once each."""
    seen = set()

    def walk(events, outer):
        for e in events:
            if e.kind in ('loop', 'loopiter'):
                if id(e.x) not in seen:
                    seen.add(id(e.x))
                    yield e.x, outer
                    for b in e.x.bodies:
                        yield from walk(b.events, b)
    yield from walk(events, None)


def chain(t):
    """[(method, args)] of a chained call, innermost first, and the innermost receiver."""
    out = []
    while t[0] == 'call' and dict(t[2]).get('self') is not None:
        d = dict(t[2])
        out.append((t[1].rsplit('.', 1)[-1], d, t))
        t = d['self']
    out.reverse()
    return t, out


def query_of(t):
    """An ndb query's (model, filters, orders, terminal methods), or None."""
    base, ms = chain(t)
    filters, orders, rest = [], [], []
    if base[0] == 'call' and base[1].endswith('.query'):
        model = base[1].rsplit('.', 1)[0]
        filters += [v for k, v in base[2] if isinstance(k, int)]
    else:
        return None
    for name, d, _ in ms:
        if name == 'filter':
            filters += [v for k, v in d.items() if isinstance(k, int)]
        elif name == 'order':
            orders += [v for k, v in d.items() if isinstance(k, int)]
        else:
            rest.append((name, d))
    return model, filters, orders, rest


def defaults(f):
    """{parameter name: its default's expression}"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d
