"""Queries over analysed partitions, for rules."""
import re

from .interp import Interp, Policy, State, Facts, Loop
from .known import KNOWN
from .program import AnalysisError
from .terms import K, NONE, TRUE, FALSE, cval, is_const, show, subterms


# ---------------------------------------------------------------- patterns
class P:
    def match(self, t, b):
        raise NotImplementedError


class _Any(P):
    def match(self, t, b):
        return True


ANY = _Any()


class V(P):
    """Binds a variable."""
    def __init__(self, name, p=ANY):
        self.name, self.p = name, p

    def match(self, t, b):
        if self.name in b:
            return b[self.name] == t
        if not match(self.p, t, b):
            return False
        b[self.name] = t
        return True


class Fn(P):
    def __init__(self, f):
        self.f = f

    def match(self, t, b):
        return bool(self.f(t))


class OneOf(P):
    def __init__(self, *ps):
        self.ps = ps

    def match(self, t, b):
        return any(match(p, t, b) for p in self.ps)


class C(P):
    """A call. Positional arguments are by index, others by parameter name."""
    def __init__(*a, **kw):
        a[0].fn, a[0].args, a[0].kw = a[1], a[2:], kw

    def match(self, t, b):
        if not isinstance(t, tuple) or not t or t[0] != 'call' or not fn_is(t[1], self.fn):
            return False
        have = dict(t[2])
        for i, p in enumerate(self.args):
            if i not in have or not match(p, have[i], b):
                return False
        for k, p in self.kw.items():
            if k not in have or not match(p, have[k], b):
                return False
        return True


def match(p, t, b=None):
    b = {} if b is None else b
    if isinstance(p, P):
        return p.match(t, b)
    if isinstance(p, tuple):
        return (isinstance(t, tuple) and len(p) == len(t)
                and all(match(x, y, b) for x, y in zip(p, t)))
    return p == t


def fn_is(fn, *names):
    """Does a dotted callee match any of names, by dotted suffix? ?.name is a method of anything."""
    for n in names:
        if fn == n or fn.endswith('.' + n) or n.startswith('?.') and fn.endswith(n[1:]):
            return True
    return False


# ---------------------------------------------------------------- terms
def param(n):
    return ('param', n)


SELF = param('self')


def A(t, *attrs):
    for a in attrs:
        t = ('attr', t, a)
    return t


def I(t, k):
    return ('item', t, k if isinstance(k, tuple) else K(k))


def G(name):
    return ('glob', name)


def find(t, p):
    """All subterms of t that match p."""
    return [x for x in subterms(t) if match(p, x)]


def has(t, p):
    return any(match(p, x) for x in subterms(t))


def callname(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'call' else None


def base_of(t):
    """Strips copies, sorts and reverses."""
    while t[0] == 'call' and t[1] in ('copy.copy', 'builtins.list', 'builtins.tuple', 'builtins.iter') and t[2]:
        t = t[2][0][1]
    return t


def root(t):
    """The innermost base of an attribute/item/element chain."""
    while t[0] in ('attr', 'item', 'get', 'elemof', 'valof', 'keyof'):
        t = t[1]
    return t


# ---------------------------------------------------------------- events
class Occ:
    """One effect, with what came before it on its partition."""
    __slots__ = ('ev', 'before', 'loops', 'path', 'bodies')

    def __init__(self, ev, before, loops, path, bodies):
        self.ev, self.before, self.loops, self.path, self.bodies = ev, before, loops, path, bodies

    def must_before(self, pred):
        return [e for e in self.before if pred(e)]

    def may_before(self, pred):
        """Effects that may happen first, including in other iterations."""
        out = []
        for e in self.before:
            out += [x for x in flat([e]) if pred(x)]
        for lp in self.loops:
            for b in lp.bodies:
                out += [x for x in flat(b.events) if pred(x)]
        return out


def flat(events):
    """All effects, including those inside loops."""
    for e in events:
        yield e
        if e.kind == 'loop':
            for b in e.x.bodies:
                yield from flat(b.events)


def occs(path, pred=None):
    """Every effect of a partition, in and out of loops."""
    def walk(events, before, loops, bodies):
        pre = list(before)
        for e in events:
            if pred is None or pred(e):
                yield Occ(e, list(pre), loops, path, bodies)
            if e.kind == 'loop':
                for b in e.x.bodies:
                    yield from walk(b.events, pre, loops + (e.x,), bodies + (b,))
            pre.append(e)
    yield from walk(path.events, [], (), ())


def call(*names):
    return lambda e: e.kind == 'call' and fn_is(e.fn, *names)


def kind(*kinds):
    return lambda e: e.kind in kinds


def in_ctx(ev, pred):
    return any(pred(c) for c in ev.ctx)


def loops_of(ev):
    return [c[1] for c in ev.ctx if c[0] == 'loop']


def withs(ev):
    return [c[1] for c in ev.ctx if c[0] == 'with']


def decos(ev):
    return [c[1] for c in ev.ctx if c[0] == 'deco']


def handlers(ev):
    return [c[1] for c in ev.ctx if c[0] == 'handler']


def gname(t):
    """Dotted name of a global, volatile or not."""
    return t[1] if t and t[0] in ('glob', 'gv') else None


def holds_lock(ev, *names):
    return any(gname(w) and fn_is(gname(w), *names) for w in withs(ev))


# ---------------------------------------------------------------- structure
def S(heap, t, depth=0, seen=(), memo=None):
    """Resolves heap objects in t into structural terms."""
    if not isinstance(t, tuple) or not t or t[0] == 'const':
        return t
    if memo is None:
        memo = {}
    key = (id(t), seen)
    if key in memo:
        return memo[key][1]
    if t[0] == 'obj' and isinstance(t[1], int):
        o = heap.get(t[1])
        if t[1] in seen:
            out = ('cycle',)
        elif o is None or o[0] == 'inst' or depth > 24:
            out = t
        else:
            out = (o[0], S(heap, o[1], depth + 1, seen + (t[1],), memo))
    else:
        out = tuple(S(heap, x, depth, seen, memo) if isinstance(x, tuple) else x for x in t)
    memo[key] = (t, out)
    return out


def dict_entries(s):
    """{key term: value term} of a structural dict, or None if it's not fully known."""
    if not s or s[0] != 'dict':
        return None
    out = {}
    for e in s[1]:
        if e[0] != 'kv':
            return None
        out[e[1]] = e[2]
    return out


def dget(s, key):
    """Value of a constant key in a structural dict; None if absent; ... if unknown."""
    k = K(key) if not isinstance(key, tuple) else key
    if not s or s[0] != 'dict':
        return ...
    for e in reversed(s[1]):
        if e[0] == 'kv':
            if e[1] == k:
                return e[2]
            if is_const(e[1]):
                continue
            return ...
        if e[0] == 'del' and is_const(e[1]) and e[1] != k:
            continue
        if e[0] == 'del' and e[1] == k:
            return None
        return ...
    return None


def dkeys(s):
    return [e[1][2] for e in s[1] if e[0] == 'kv' and is_const(e[1])] if s and s[0] == 'dict' else None


# ---------------------------------------------------------------- runs
class Run:
    """One analysed function."""
    def __init__(self, prog, func, it, paths, self_cls):
        self.prog, self.func, self.it, self.paths, self.cls = prog, func, it, paths, self_cls

    @property
    def returns(self):
        return [p for p in self.paths if p.kind == 'return']

    @property
    def raises(self):
        return [p for p in self.paths if p.kind == 'raise']

    def occs(self, pred, paths=None):
        for p in (self.paths if paths is None else paths):
            yield from occs(p, pred)

    def events(self, pred, paths=None):
        """Distinct effects, by identity."""
        seen = set()
        out = []
        for o in self.occs(pred, paths):
            if id(o.ev) not in seen:
                seen.add(id(o.ev))
                out.append(o)
        return out

    def _st(self, at):
        st = State()
        st.frames, st.globs, st.trace, st.ctx, st.exc = {'cur': None}, {}, None, (), None
        if hasattr(at, 'st'):
            st.facts, st.heap, st.attrs, st.epoch = at.st.facts, at.st.heap, at.st.attrs, at.st.epoch
        else:
            st.facts, st.heap, st.attrs, st.epoch = at.facts, at.heap, at.attrs, at.epoch
        return st

    def cases(self, at, limit=32):
        """The disjuncts that a merged partition may be in."""
        todo, out = [self._st(at)], []
        while todo:
            st = todo.pop()
            k = next((k for k, v in st.facts.d.items() if k[0] == 'or' and v), None)
            if k is None or len(out) + len(todo) > limit:
                out.append(st)
                continue
            d = dict(st.facts.d)
            del d[k]
            st = st.set(facts=Facts(d))
            todo += [s for s in (self.it.assume(st, x, True) for x in k[1]) if s is not None]
        return out

    def decide(self, at, atom):
        st = self._st(at)
        r = self.it.decide(st, atom)
        if r is None and any(k[0] == 'or' for k in st.facts.d):
            rs = {self.it.decide(s, atom) for s in self.cases(at)}
            if len(rs) == 1:
                r = rs.pop()
        return r

    def truth(self, at, t):
        return self.decide(at, self.it.truth_atom(self._st(at), t))

    def isnone(self, at, t):
        return self.decide(at, ('isnone', t))

    def cmp(self, at, op, a, b):
        """True/False if facts at ``at`` decide ``a op b``, else None."""
        st = self._st(at)
        atom, want = self.it.cmp_atom(st, op, a, b)
        if atom[0] == 'const':
            return bool(atom[1]) == want
        r = self.decide(at, atom)
        return None if r is None else (r == want)

    def S(self, at, t):
        return S(at.st.heap if hasattr(at, 'st') else at.heap, t)

    def shape(self, at, t):
        """Like S, but only resolves t itself, not what it contains."""
        while t[0] == 'obj':
            o = (at.st.heap if hasattr(at, 'st') else at.heap).get(t[1])
            if o is None or o[0] == 'inst':
                return t
            t = (o[0], o[1])
        return t

    def exc_is(self, path, *names):
        """Does a raise partition raise one of these classes?"""
        c = path.exc.cls
        if c is None:
            return False
        return any(fn_is(c, n) or self.it.exc_is(c, n) is True for n in names)


class Analysis:
    """Shared by all of a check's rules; caches runs."""
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.functions = set()
        self.partitions = 0
        self.calls = 0

    def run(self, name, cls=None, inline=(), opaque=(), pure=(), log=False, depth=10,
            implicit=True, inline_gens=(), params=None, facts=(), inline_props=()):
        key = (name, cls, tuple(sorted(inline)), tuple(sorted(opaque)), tuple(sorted(pure)), log, depth,
               implicit, tuple(inline_gens), tuple(sorted((params or {}).items())), tuple(facts),
               tuple(inline_props))
        if key in self.cache:
            return self.cache[key]
        f = self.prog.func(name) if isinstance(name, str) else name
        c = None
        if cls:
            c = self.prog.cls(cls)
            if c is None:
                raise AnalysisError(f'anchor vanished: class {cls}')
        op = {k for k in KNOWN if not fn_is(k, *inline)} if inline != ('*',) else set()
        op |= set(opaque)
        if not f.full.startswith('arroba.storage.Block.') and 'Block' not in inline:
            op.add('arroba.storage.Block')
        op.discard(f.full)
        it = Interp(self.prog, Policy(opaque=op, pure=pure, log=log, depth=depth,
                                      implicit=implicit, inline_gens=inline_gens,
                                      inline_props=inline_props))
        paths = it.run(f, self_cls=c, params=params, facts=facts)
        if it.unsupported:
            raise AnalysisError(f'{name}: unsupported syntax {sorted(set(it.unsupported))}')
        self.functions |= it.funcs_seen
        self.partitions += len(paths)
        self.calls += it.calls_seen
        r = self.cache[key] = Run(self.prog, f, it, paths, c)
        return r
