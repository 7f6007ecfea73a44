"""Abstract interpreter: path-partitioned dataflow over the syntax tree.

Computes, for one entry function, the set of abstract execution partitions
(Mauborgne and Rival's trace partitioning): each has a value-number
environment, a heap of freshly allocated objects, a set of branch facts and an
ordered list of effects (calls, stores, raises, yields), each of which
remembers the facts and the syntactic context (held locks and transactions,
decorators, handlers, loops) it happened in.

* Calls to this repository's own helpers are analysed interprocedurally, by
  inlining; library calls, and the operations a rule asks to keep abstract, are
  single effects.
* Loops are analysed to a fixpoint of what they change: anything that's
  different at a back edge is forgotten (havoc), then the body is analysed once
  as an arbitrary iteration.
* Branch facts are syntactic literals over terms. A partition is dropped only
  if a fact directly contradicts the branch; there is no solver.
* Exceptions: inside ``try``, every effect may raise.

Nothing is executed, and no inputs are chosen: terms are names for values.
"""
import ast
import builtins

from .program import AnalysisError, Class, Func, Module
from .terms import (K, NONE, TRUE, FALSE, cval, is_const, is_num, linear, mk_bin,
                    mk_fmt, mk_sum, show, subterms, tid)

MAX_STATES = 6000

PURE_METHODS = frozenset('''
startswith endswith split rsplit strip lstrip rstrip lower upper encode decode
removeprefix removesuffix replace partition rpartition title ljust rjust isdigit
isoformat total_seconds to_bytes from_bytes keys values items index count join
format find rfind islower timestamp astimezone public_key issubset union
intersection difference isalnum isalpha splitlines hex digest
'''.split())
PURE_GLOBS = frozenset('''
builtins.len builtins.int builtins.str builtins.bool builtins.repr builtins.max
builtins.min builtins.sorted builtins.tuple builtins.frozenset builtins.range
builtins.enumerate builtins.zip builtins.iter builtins.reversed builtins.sum
builtins.abs builtins.hash builtins.type builtins.any builtins.all
builtins.getattr builtins.hasattr builtins.bytes builtins.float builtins.map
builtins.filter builtins.ord builtins.chr builtins.divmod builtins.isinstance
builtins.callable builtins.id builtins.round builtins.pow builtins.issubclass
builtins.super builtins.property
itertools.chain itertools.islice itertools.takewhile itertools.dropwhile
itertools.count itertools.filterfalse itertools.zip_longest
datetime.timedelta os.environ.get os.getenv logging.getLogger
multiformats.CID.decode multiformats.CID dag_cbor.encode dag_cbor.decode
multiformats.multihash.digest hashlib.sha256 os.path.commonprefix
math.gcd operator.itemgetter operator.attrgetter functools.partial
urllib.parse.urlparse urllib.parse.unquote urllib.parse.urljoin
base64.urlsafe_b64encode base64.urlsafe_b64decode base64.b32encode
'''.split())
LOG_METHODS = frozenset('debug info warning warn error exception critical log'.split())
LIST_MUT = frozenset('append extend insert pop remove clear sort reverse add discard update appendleft extendleft popleft'.split())
DICT_MUT = frozenset('update pop setdefault clear popitem'.split())

STR_TYPES = ('builtins.str', 'builtins.bytes', 'builtins.int', 'builtins.dict',
             'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.float')

EXT_EXC_BASES = {
    'lexrpc.base.XrpcError': ('builtins.Exception',),
    'lexrpc.ValidationError': ('builtins.ValueError',),
    'lexrpc.base.ValidationError': ('builtins.ValueError',),
    'requests.HTTPError': ('requests.RequestException',),
    'requests.exceptions.HTTPError': ('requests.RequestException',),
    'requests.RequestException': ('builtins.OSError',),
    'requests.exceptions.RequestException': ('builtins.OSError',),
    'lexrpc.server.Redirect': ('builtins.Exception',),
}

# types of attributes and calls, used only to resolve method calls
ATTR_TYPES = {
    'storage': 'arroba.storage.Storage',
    'sequences': 'arroba.storage.Sequences',
    'mst': 'arroba.mst.MST',
}
GLOB_TYPES = {
    'arroba.server.storage': 'arroba.storage.Storage',
    'arroba.server.repo': 'arroba.repo.Repo',
    'arroba.firehose.collector': 'arroba.firehose.Collector',
}
CALL_TYPES = {
    'arroba.storage.Block': 'arroba.storage.Block',
    'arroba.storage.Storage.load_repo': 'arroba.repo.Repo',
    'arroba.server.load_repo': 'arroba.repo.Repo',
    'arroba.repo.Repo.load': 'arroba.repo.Repo',
    'arroba.repo.Repo.create': 'arroba.repo.Repo',
    'arroba.mst.MST.load': 'arroba.mst.MST',
    'arroba.mst.MST.create': 'arroba.mst.MST',
    'arroba.datastore_storage.AtpRepo.get_by_id': 'arroba.datastore_storage.AtpRepo',
    'arroba.datastore_storage.AtpBlock.get_or_insert': 'arroba.datastore_storage.AtpBlock',
    'arroba.datastore_storage.AtpBlock.get_by_id': 'arroba.datastore_storage.AtpBlock',
    'arroba.datastore_storage.AtpRemoteBlob.get_or_insert': 'arroba.datastore_storage.AtpRemoteBlob',
}
for _m in ('add', 'update', 'delete', 'delete_recurse', 'new_tree', 'update_entry',
           'remove_entry', 'append', 'prepend', 'splice_in', 'replace_with_split',
           'trim_top', 'append_merge', 'create_child', 'create_parent'):
    CALL_TYPES[f'arroba.mst.MST.{_m}'] = 'arroba.mst.MST'
for _c in ('Storage', 'MemoryStorage'):
    CALL_TYPES[f'arroba.storage.{_c}.read'] = 'arroba.storage.Block'
    CALL_TYPES[f'arroba.storage.{_c}.write'] = 'arroba.storage.Block'
    CALL_TYPES[f'arroba.storage.{_c}.load_repo'] = 'arroba.repo.Repo'
PARAM_TYPES = {'repo': 'arroba.repo.Repo', 'storage': 'arroba.storage.Storage'}


class Ev:
    """One effect."""
    __slots__ = ('kind', 'fn', 'a', 'res', 'node', 'mod', 'ctx', 'facts', 'heap',
                 'attrs', 'x', 'epoch')

    def __init__(self, kind, st, node, mod, fn=None, a=None, res=None, x=None):
        self.kind, self.fn, self.a, self.res, self.x = kind, fn, a or {}, res, x
        self.node, self.mod = node, mod
        self.ctx, self.facts, self.heap, self.attrs = st.ctx, st.facts, st.heap, st.attrs
        self.epoch = st.epoch

    def arg(self, *keys, default=None):
        for k in keys:
            if k in self.a:
                return self.a[k]
        return default

    @property
    def loc(self):
        return f'{self.mod.rel}:{getattr(self.node, "lineno", "?")}'

    @property
    def where(self):
        for c in reversed(self.ctx):
            if c[0] == 'fn':
                return c[1]
        return '?'

    def __repr__(self):
        a = ', '.join(f'{k}={show(v)}' for k, v in self.a.items() if isinstance(v, tuple))
        return f'{self.loc} {self.kind} {self.fn or ""}({a})' + (
            f' -> {show(self.res)}' if self.res and self.kind != 'call' else '')


class Facts:
    """Immutable set of branch literals."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    def with_(self, k, v):
        n = dict(self.d)
        n[k] = v
        return Facts(n)

    def __iter__(self):
        return iter(self.d.items())


class State:
    __slots__ = ('frames', 'heap', 'attrs', 'globs', 'facts', 'trace', 'ctx',
                 'epoch', 'exc')

    def copy(self):
        s = State()
        for f in State.__slots__:
            setattr(s, f, getattr(self, f))
        return s

    def set(self, **kw):
        s = self.copy()
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def events(self, until=None):
        out = []
        t = self.trace
        while t is not None and t is not until:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


class Loop:
    """Summary of one loop."""
    def __init__(self, lid, node, mod, iterterm=None, targets=None):
        self.lid, self.node, self.mod, self.iter = lid, node, mod, iterterm
        self.bodies = []    # Body
        self.changed = {}   # ('var', fid, name) -> (init, [values at back edges])
        self.kind = 'for'
        self.head_facts = None


class Body:
    def __init__(self, events, facts, exit, st):
        self.events, self.facts, self.exit, self.st = events, facts, exit, st


class Exc:
    """A raised exception. cls None means unknown, ie raised by a library."""
    def __init__(self, cls, term, ev=None, excluded=(), included=None, node=None):
        self.cls, self.term, self.ev, self.excluded = cls, term, ev, excluded
        self.included = included
        self.node = node


class Path:
    def __init__(self, kind, st, value, exc=None):
        self.kind, self.st, self.value, self.exc = kind, st, value, exc
        self.events = st.events()

    @property
    def facts(self):
        return self.st.facts


def rebase(ctx, base, fell=False):
    """The context after leaving a nested block: the enclosing one, with the locks that were acquired or released in it."""
    have = [x for x in ctx if x[0] == 'with']
    out = []
    for x in base:
        if x[0] == 'with':
            if x not in have:
                continue
            have.remove(x)
        out.append(x)
    return tuple(out) + (tuple(have) if fell else ())


class Policy:
    """Which of the repository's functions are kept as single effects."""
    def __init__(self, opaque=(), depth=8, log=False, inline_props=(), pure=(),
                 implicit=True, inline_gens=()):
        self.opaque, self.depth, self.log = frozenset(opaque), depth, log
        self.inline_props = frozenset(inline_props)
        self.pure = frozenset(pure)
        self.implicit = implicit   # opaque calls in try may raise
        self.inline_gens = frozenset(inline_gens)


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.policy = policy or Policy()
        self.uid = 0
        self.fid = 0
        self.pending = [[]]
        self.trydepth = 0
        self.catching = []         # the exceptions that enclosing handlers name
        self.callstack = []
        self.loops = {}
        self.nofork = 0
        self.nstates = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        self.frame_parent = {}
        self.frame_mod = {}
        self.frame_globals = {}
        self.frame_nonlocals = {}
        self.frame_func = {}
        self.closures = {}    # id -> (node, fid, mod, cls)
        self.frame_func_obj = {}
        self.lvtypes = {}     # (loop id, name) -> Class
        self.unsupported = []

    # ------------------------------------------------------------ entry
    def run(self, func, self_cls=None, params=None, facts=()):
        """Analyses func. Returns a list of Path."""
        st = State()
        st.frames, st.heap, st.attrs, st.globs = {}, {}, {}, {}
        st.facts, st.trace, st.ctx, st.epoch, st.exc = Facts(), None, (), 0, None
        env = {}
        a = func.node.args
        params = params or {}
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            env[p.arg] = params.get(p.arg, ('param', p.arg))
        if a.vararg:
            env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
        for k, v in params.items():
            env.setdefault(k, v)  # what a nested function's free variables are
        self.self_cls = self_cls or func.cls
        for t, b in facts:
            st = self.assume(st, t, b)
        self.pending = [[]]
        outs = self.exec_func(func, env, st, func.node, func.mod, entry=True)
        paths = []
        for kind, s, v in outs:
            paths.append(Path('return', s, v))
        for s, exc in self.pending[0]:
            paths.append(Path('raise', s, exc.term, exc))
        return paths

    # ------------------------------------------------------------ utils
    def new_uid(self):
        self.uid += 1
        return self.uid

    def event(self, st, ev):
        return st.set(trace=(ev, st.trace))

    def check(self, n):
        if n > MAX_STATES:
            raise AnalysisError(f'too many partitions in {self.callstack}')

    def alloc(self, st, obj):
        i = self.new_uid()
        return st.set(heap={**st.heap, i: obj}), ('obj', i)

    def obj(self, st, t):
        return st.heap.get(t[1]) if t[0] == 'obj' else None

    def mutate(self, st, t, obj):
        st = st.set(heap={**st.heap, t[1]: obj})
        d = {k: v for k, v in st.facts.d.items() if not _mentions(k, t)}
        if len(d) != len(st.facts.d):
            st = st.set(facts=Facts(d))
        return st

    # ------------------------------------------------------------ types
    def typeof(self, t, st):
        """Returns the repository Class of a term, or None."""
        k = t[0]
        if k == 'obj':
            o = st.heap.get(t[1])
            if o and o[0] == 'inst':
                return self.prog.cls(o[1])
            return None
        if k == 'nt':
            return self.prog.cls(t[1])
        if k == 'lv':
            return self.lvtypes.get((t[1], t[2]))
        if k == 'param':
            if t[1] == 'self' and self.self_cls:
                return self.self_cls
            if t[1] == 'cls' and self.self_cls:
                return None
        for c in st.facts.d:
            if c[0] == 'isinst' and c[1] == t and st.facts.d[c]:
                r = self.prog.cls(c[2])
                if r:
                    return r
        if k == 'param':
            n = PARAM_TYPES.get(t[1])
            return self.prog.cls(n) if n else None
        if k in ('glob', 'gv'):
            n = GLOB_TYPES.get(t[1])
            return self.prog.cls(n) if n else None
        if k == 'attr':
            n = ATTR_TYPES.get(t[2])
            if n:
                return self.prog.cls(n)
            return None
        if k == 'call':
            n = CALL_TYPES.get(t[1])
            return self.prog.cls(n) if n else None
        return None

    # ------------------------------------------------------------ facts
    def decide(self, st, atom):
        """Returns True, False or None (unknown) for a literal."""
        d = st.facts.d
        k = atom[0]
        if k == 'and':
            rs = [self.decide(st, a) for a in atom[1]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.decide(st, a) for a in atom[1]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k == 'not':
            r = self.decide(st, atom[1])
            return None if r is None else not r
        if k == 'lin':
            return self.decide_lin(d, atom)
        v = d.get(atom)
        if v is not None:
            return v
        if k == 'truth':
            return self.decide_truth(st, atom[1])
        if k == 'isnone':
            return self.decide_isnone(st, atom[1])
        if k == 'eqc':
            t, c = atom[1], atom[2]
            if is_const(t) and is_const(c):
                return t[2] == c[2] and (t[1] == c[1])
            if t == c:
                return True
            for a, val in d.items():
                if a[0] == 'eqc' and a[1] == t and val and a[2] != c and self.distinct(a[2], c):
                    return False
            if is_const(c) and c != NONE:
                if d.get(('isnone', t)):
                    return False
                if d.get(('truth', t)) is not None and d[('truth', t)] != bool(c[2]):
                    return False
                if t[0] == 'fmt' and c[1] == 'str' and not fmt_may_be(t, c[2]):
                    return False
            if self.distinct(t, c):
                return False
            if c[0] == 'glob':
                m = self.enum_members(c)
                if m and all(x == c or d.get(('eqc', t, x)) is False for x in m):
                    return True
            return None
        if k == 'isinst':
            return self.decide_isinst(st, atom[1], atom[2])
        if k == 'in':
            o = self.obj(st, atom[2])
            if o and o[0] in ('list', 'set') and not o[1]:
                return False
            return None
        return None

    def enum_members(self, g):
        cn, _, name = g[1].rpartition('.')
        c = self.prog.cls(cn)
        if c and any((b or '').endswith('Enum') for b in c.bases) and name in c.attrs:
            return [('glob', f'{cn}.{m}') for m in c.attrs]
        return None

    def distinct(self, a, b):
        if a == b:
            return False
        if is_const(a) and is_const(b):
            return a[2] != b[2] or (a[1] != b[1] and 'NoneType' in (a[1], b[1]))
        if a[0] == 'glob' and b[0] == 'glob':
            ma = self.enum_members(a)
            return bool(ma and b in ma)
        return False

    def decide_truth(self, st, t):
        d = st.facts.d
        k = t[0]
        if k == 'const':
            return bool(t[2])
        if k in ('nt', 'func'):
            return True
        if k == 'tuple':
            return bool(t[1])
        if k == 'fmt':
            if any(p[0] == 'const' and p[2] for p in t[1]):
                return True
        if k == 'obj':
            o = st.heap.get(t[1])
            if o:
                if o[0] in ('inst', 'func', 'gen'):
                    return True
                if not o[1]:
                    return False
                if any(s[0] in ('one', 'kv') for s in o[1]) and not any(
                        s[0] in ('unk', 'del') for s in o[1]):
                    return True
        if k == 'call' and t[1] == 'builtins.bool' and t[2]:
            return self.decide(st, ('truth', t[2][0][1]))
        if k == 'not':
            r = self.decide(st, ('truth', t[1]))
            return None if r is None else not r
        if d.get(('isnone', t)):
            return False
        for a, v in d.items():
            if a[0] == 'eqc' and a[1] == t and v:
                if is_const(a[2]):
                    return bool(a[2][2])
                return True
            if a[0] == 'isinst' and a[1] == t and v:
                c = self.prog.cls(a[2])
                if c and not (self.prog.find_method(c, '__len__') or self.prog.find_method(c, '__bool__')):
                    return True
        n = d.get(('lin', ((('call', 'builtins.len', ((0, t),), None), 1),)))
        if n:
            lo, ls, hi, hs, ex = n
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                return True
            if hi is not None and (hi < 1 or (hi == 1 and hs)):
                return False
        c = self.typeof(t, st) if k in ('call',) else None
        return None

    def decide_isnone(self, st, t):
        d = st.facts.d
        k = t[0]
        if k == 'const':
            return t[2] is None
        if k in ('nt', 'func', 'tuple', 'fmt', 'obj', 'sum', 'glob', 'bin') and not (
                k == 'glob' and not self.known_nonnull(t)):
            return False
        if d.get(('truth', t)):
            return False
        if k == 'call' and t[1] in ('builtins.len', 'builtins.int', 'builtins.str', 'builtins.sorted'):
            return False
        for a, v in d.items():
            if v and a[0] in ('eqc', 'isinst') and a[1] == t and a[2] != NONE:
                return False
        return None

    def known_nonnull(self, t):
        r = self.prog.lookup(t[1])
        return isinstance(r, (Func, Class, Module))

    def decide_isinst(self, st, t, cn):
        d = st.facts.d
        c = self.prog.cls(cn)
        k = t[0]
        own = None
        if k in ('nt', 'obj'):
            own = self.typeof(t, st)
            if own:
                if c:
                    return c in self.prog.mro(own)
                if cn == 'builtins.dict':
                    return False
                if cn == 'builtins.tuple':
                    return k == 'nt'
                return False
            o = self.obj(st, t)
            if o and o[0] in ('list', 'dict', 'set'):
                return cn == f'builtins.{o[0]}'
        if k == 'const':
            if cn.startswith('builtins.'):
                py = getattr(builtins, cn[9:], None)
                if isinstance(py, type):
                    return isinstance(t[2], py)
            if c:
                return False
        if k == 'fmt':
            return cn == 'builtins.str' if (c or cn in STR_TYPES) else None
        if d.get(('isnone', t)):
            return False
        for a, v in d.items():
            if a[0] == 'isinst' and a[1] == t:
                oc = self.prog.cls(a[2])
                if v:
                    if oc and c:
                        if c in self.prog.mro(oc):
                            return True
                        if oc not in self.prog.mro(c):
                            return False
                    elif (oc and cn in STR_TYPES and not (oc.fields and cn == 'builtins.tuple')) or \
                            (c and a[2] in STR_TYPES and not (c.fields and a[2] == 'builtins.tuple')):
                        return False
                    elif a[2] in STR_TYPES and cn in STR_TYPES and a[2] != cn:
                        return False
                else:
                    if oc and c and oc in self.prog.mro(c):
                        return False
        return None

    def decide_lin(self, d, atom):
        _, vec, op, c = atom
        if not vec:
            return {'<=': 0 <= c, '<': 0 < c, '==': c == 0}[op]
        iv = d.get(('lin', vec))
        lo, ls, hi, hs, ex = iv or (None, False, None, False, frozenset())
        if len(vec) == 1 and _is_len(vec[0][0]) and vec[0][1] == 1 and (lo is None or lo < 0):
            lo, ls = 0, False
        # vec op c
        if op in ('<=', '<'):
            if hi is not None:
                if hi < c or (hi == c and (op == '<=' or hs)):
                    return True
            if lo is not None:
                if lo > c or (lo == c and (op == '<' or ls)):
                    return False
            if op == '<=' and hi == c:
                return True
            return None
        if lo is not None and (lo > c or (lo == c and ls)):
            return False
        if hi is not None and (hi < c or (hi == c and hs)):
            return False
        if lo is not None and lo == hi == c:
            return True
        if c in ex:
            return False
        return None

    def assume(self, st, atom, val):
        """Returns st with atom == val, or None if that contradicts its facts."""
        k = atom[0]
        if k == 'not':
            return self.assume(st, atom[1], not val)
        if (k == 'and' and val) or (k == 'or' and not val):
            for a in atom[1]:
                st = self.assume(st, a, val)
                if st is None:
                    return None
            return st
        r = self.decide(st, atom)
        if r is not None:
            return st if r == val else None
        if k in ('and', 'or'):
            rest = [a for a in atom[1] if self.decide(st, a) is None]
            if len(rest) == 1:
                return self.assume(st, rest[0], val)
            return st.set(facts=st.facts.with_(atom, val))
        if k == 'lin':
            return self.assume_lin(st, atom, val)
        if k == 'truth':
            t = atom[1]
            if t[0] == 'not':
                return self.assume(st, ('truth', t[1]), not val)
            if t[0] == 'call' and t[1] == 'builtins.bool' and t[2]:
                return self.assume(st, ('truth', t[2][0][1]), val)
        st = st.set(facts=st.facts.with_(atom, val))
        return self.propagate(st)

    def propagate(self, st):
        """Unit propagation through the disjunctions that hold."""
        for k, v in list(st.facts.d.items()):
            if k[0] != 'or' or not v or st.facts.d.get(k) is None:
                continue
            live = [x for x in k[1] if self.decide(st, x) is not False]
            if not live:
                return None
            if len(live) == 1:
                d = dict(st.facts.d)
                del d[k]
                st = self.assume(st.set(facts=Facts(d)), live[0], True)
                if st is None:
                    return None
        return st

    def assume_lin(self, st, atom, val):
        _, vec, op, c = atom
        key = ('lin', vec)
        lo, ls, hi, hs, ex = st.facts.d.get(key) or (None, False, None, False, frozenset())
        integer = all(_is_int(t) for t, _ in vec)

        def up(c, strict):
            nonlocal hi, hs
            if integer and strict and isinstance(c, int):
                c, strict = c - 1, False
            if hi is None or c < hi or (c == hi and strict):
                hi, hs = c, strict

        def down(c, strict):
            nonlocal lo, ls
            if integer and strict and isinstance(c, int):
                c, strict = c + 1, False
            if lo is None or c > lo or (c == lo and strict):
                lo, ls = c, strict
        if op == '==':
            if val:
                up(c, False)
                down(c, False)
            else:
                ex = ex | {c}
        elif val:
            up(c, op == '<')
        else:
            down(c, op == '<=')
        if c in ex or ex:
            if hi in ex and not hs and hi is not None:
                if integer:
                    hi = hi - 1
                else:
                    hs = True
            if lo in ex and not ls and lo is not None:
                if integer:
                    lo = lo + 1
                else:
                    ls = True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return None
        return self.propagate(st.set(facts=st.facts.with_(key, (lo, ls, hi, hs, ex))))

    # comparison -> atom
    def cmp_atom(self, st, op, a, b):
        """Returns (atom, value it must have)."""
        if op in ('is', 'is not', '==', '!='):
            pos = op in ('is', '==')
            if b == NONE or a == NONE:
                t = a if b == NONE else b
                if t == NONE:
                    return ('const', True), pos
                return ('isnone', t), pos
            if is_const(a) and not is_const(b):
                a, b = b, a
            if a[0] == 'glob' and b[0] != 'glob' and not is_const(b):
                a, b = b, a
            if is_const(a) and is_const(b):
                return ('const', a[2] == b[2]), pos
            if a == b:
                return ('const', True), pos
            if op in ('is', 'is not') and is_const(b) and b[1] != 'bool':
                return ('truth', ('cmp', 'is', a, b)), pos   # equal values needn't be the same object
            if b[0] == 'const' and b[1] == 'bool' and op in ('is', '=='):
                return ('eqc', a, b), pos
            if (is_const(b) and not is_num(b)) or (b[0] == 'glob' and self.enum_members(b)):
                return ('eqc', a, b), pos
            for x, y in ((a, b), (b, a)):
                # len(x) == 0, x == [] / {} / set()
                o = self.obj(st, y)
                if o and o[0] in ('list', 'dict', 'set') and not o[1]:
                    return ('truth', x), not pos
            if a[0] == 'tuple' and b[0] == 'tuple' and len(a[1]) == len(b[1]):
                parts = []
                for x, y in zip(a[1], b[1]):
                    at, v = self.cmp_atom(st, '==', x, y)
                    parts.append(at if v else ('not', at))
                return ('and', tuple(parts)), pos
            return self.lin_atom(a, b, '=='), pos
        if op in ('in', 'not in'):
            pos = op == 'in'
            opts = self.known_elems(st, b)
            if opts is not None:
                parts = []
                for o in opts:
                    at, v = self.cmp_atom(st, '==', a, o)
                    parts.append(at if v else ('not', at))
                return ('or', tuple(parts)), pos
            if b[0] == 'call' and b[1] == '?.keys':
                b = b[2][0][1]
            if b[0] == 'call' and b[1] == 'builtins.range' and 1 <= len(b[2]) <= 2:
                bounds = [x for _, x in b[2]]
                lo, hi = [K(0)] * (2 - len(bounds)) + bounds
                return ('and', (self.lin_atom(lo, a, '<='), self.lin_atom(a, hi, '<'))), pos
            return ('in', a, b), pos
        if op == '<':
            return self.lin_atom(a, b, '<'), True
        if op == '<=':
            return self.lin_atom(a, b, '<='), True
        if op == '>':
            return self.lin_atom(b, a, '<'), True
        if op == '>=':
            return self.lin_atom(b, a, '<='), True
        raise AnalysisError(op)

    def known_elems(self, st, t):
        if t[0] == 'tuple':
            return list(t[1])
        if t[0] == 'const' and isinstance(t[2], (tuple, frozenset, list)):
            return [K(x) for x in t[2]]
        o = self.obj(st, t)
        if o and o[0] in ('list', 'set') and all(s[0] == 'one' for s in o[1]):
            return [s[1] for s in o[1]]
        if t[0] == 'call' and t[1] in ('builtins.frozenset', 'builtins.tuple') and t[2]:
            return self.known_elems(st, t[2][0][1])
        return None

    def lin_atom(self, a, b, op):
        va, ca = linear(a)
        vb, cb = linear(b)
        v = dict(va)
        for t, c in vb.items():
            v[t] = v.get(t, 0) - c
            if v[t] == 0:
                del v[t]
        c = cb - ca   # v op c
        if not v:
            return ('const', {'<': 0 < c, '<=': 0 <= c, '==': c == 0}[op])
        items = sorted(v.items(), key=lambda kv: tid(kv[0]))
        neg = items[0][1] < 0
        scale = abs(items[0][1])
        if neg:
            items = [(t, -x) for t, x in items]
            c = -c
        if scale != 1:
            if all(x % scale == 0 for _, x in items) and c % scale == 0:
                items = [(t, x // scale) for t, x in items]
                c //= scale
        vec = tuple(items)
        # len(x) compared to 0 is x's truth
        if len(vec) == 1 and vec[0][1] == 1 and vec[0][0][0] == 'call' and vec[0][0][1] == 'builtins.len':
            x = vec[0][0][2][0][1]
            if op == '==' and c == 0:
                return ('not', ('truth', x))
            if neg:   # len >= c  or  len > c
                lower = c if op == '<=' else c + 1
                if lower == 1:
                    return ('truth', x)
            elif op != '==':
                upper = c if op == '<=' else c - 1
                if upper == 0:
                    return ('not', ('truth', x))
        if not neg or op == '==':
            return ('lin', vec, op, c)
        # -v op' -c : v >= c (op <=) -> not v < c ; v > c (op <) -> not v <= c
        return ('not', ('lin', vec, '<' if op == '<=' else '<=', c))

    def branch(self, st, atom, want=True):
        """Forks st on atom. Returns [(st, bool)] where bool is atom==want."""
        if atom[0] == 'const':
            return [(st, bool(atom[1]) == want)]
        if atom[0] == 'not':
            return self.branch(st, atom[1], not want)
        if atom[0] in ('and', 'or'):
            # sequential split keeps disjuncts precise
            stop = atom[0] == 'or'
            out = []
            live = [st]
            for a in atom[1]:
                nxt = []
                for s in live:
                    for s2, r in self.branch(s, a):
                        if r == stop:
                            out.append((s2, stop == want))
                        else:
                            nxt.append(s2)
                live = nxt
            out += [(s, (not stop) == want) for s in live]
            return out
        out = []
        for v in (True, False):
            s = self.assume(st, atom, v)
            if s is not None:
                out.append((s, v == want))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, node, st):
        """Evaluates a boolean condition. Returns [(st, bool)]."""
        if isinstance(node, ast.BoolOp):
            stop = isinstance(node.op, ast.Or)
            out, live = [], [st]
            for v in node.values:
                nxt = []
                for s in live:
                    for s2, r in self.cond(v, s):
                        if r == stop:
                            out.append((s2, stop))
                        else:
                            nxt.append(s2)
                live = nxt
            return self.merge_c(out + [(s, not stop) for s in live])
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not r) for s, r in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare):
            return self.compare(node, st)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id == 'isinstance' and len(node.args) == 2:
            out = []
            for s, t in self.ev(node.args[0], st):
                for s2, c in self.ev(node.args[1], s):
                    out += self.branch(s2, self.isinst_atom(s2, t, c))
            return out
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id == 'bool' and len(node.args) == 1:
            return self.cond(node.args[0], st)
        if isinstance(node, ast.IfExp):
            out = []
            for s, r in self.cond(node.test, st):
                out += self.cond(node.body if r else node.orelse, s)
            return out
        out = []
        for s, t in self.ev(node, st):
            out += self.truth_branch(s, t)
        return out

    def truth_branch(self, s, t):
        return self.branch(s, self.truth_atom(s, t))

    def truth_atom(self, s, t):
        if t[0] == 'cmp':
            a, v = self.cmp_atom(s, t[1], t[2], t[3])
            return a if v else ('not', a)
        if t[0] == 'not':
            return ('not', self.truth_atom(s, t[1]))
        if t[0] in ('and', 'or'):
            return (t[0], tuple(self.truth_atom(s, x) for x in t[1]))
        if t[0] == 'call' and t[1] == 'builtins.isinstance':
            return self.isinst_atom(s, t[2][0][1], t[2][1][1])
        if t[0] == 'call' and t[1] == 'builtins.len':
            return ('truth', t[2][0][1])
        if t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple', 'builtins.sorted') and t[2]:
            return ('truth', t[2][0][1])
        return ('truth', t)

    def isinst_atom(self, st, t, c):
        opts = self.known_elems(st, c)
        if opts is None:
            opts = [c]
        parts = tuple(('isinst', t, o[1] if o[0] == 'glob' else show(o)) for o in opts)
        return parts[0] if len(parts) == 1 else ('or', parts)

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
           ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
           ast.NotIn: 'not in'}

    def compare(self, node, st):
        out = []
        live = [(s, t) for s, t in self.ev(node.left, st)]
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            nxt = []
            for s, left in live:
                for s2, r in self.ev(right, s):
                    atom, want = self.cmp_atom(s2, self.OPS[type(op)], left, r)
                    for s3, b in self.branch(s2, atom, want):
                        if not b:
                            out.append((s3, False))
                        elif i == len(node.ops) - 1:
                            out.append((s3, True))
                        else:
                            nxt.append((s3, r))
            live = nxt
        return out

    def merge_c(self, outs):
        if len(outs) < 3:
            return outs
        res = []
        for b in (True, False):
            res += [(s, b) for s in self.merge([s for s, r in outs if r == b])]
        return res

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        """Joins partitions that differ only in branch facts."""
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault((id(s.trace), s.ctx, s.epoch, id(s.exc)), []).append(s)
        out = []
        for g in groups.values():
            done = []
            for s in g:
                for i, o in enumerate(done):
                    if (s.frames == o.frames and s.heap == o.heap and s.attrs == o.attrs
                            and s.globs == o.globs):
                        done[i] = o.set(facts=self.join_facts(o, s))
                        break
                else:
                    done.append(s)
            out += done
        return out

    def join_facts(self, sa, sb):
        """What holds on both sides, plus their disjunction."""
        a, b = sa.facts, sb.facts
        if a is b:
            return a
        d = {}
        onlya, onlyb = [], []
        for x, y, sy, only in ((a.d, b.d, sb, onlya), (b.d, a.d, sa, onlyb)):
            for k, v in x.items():
                if y.get(k) == v:
                    continue
                if k[0] == 'lin':
                    lo, ls, hi, hs, ex = v
                    ats = []
                    if lo is not None and lo == hi:
                        ats.append(('lin', k[1], '==', lo))
                    else:
                        if hi is not None:
                            ats.append(('lin', k[1], '<' if hs else '<=', hi))
                        if lo is not None:
                            ats.append(('not', ('lin', k[1], '<=' if ls else '<', lo)))
                        ats += [('not', ('lin', k[1], '==', p)) for p in sorted(ex)]
                    only += [a for a in ats if self.decide(sy, a) is not True]
                    continue
                if k[0] not in ('and', 'or'):
                    if self.decide(sy, k) == v:
                        d[k] = v
                        continue
                    if k[0] == 'eqc' and v and k[2][0] == 'glob':
                        for m in self.enum_members(k[2]) or ():
                            at = ('eqc', k[1], m)
                            if self.decide(sa, at) is False and self.decide(sb, at) is False:
                                d[at] = False
                only.append(k if v is True else ('not', k))
        if 0 < len(onlya) <= 5 and 0 < len(onlyb) <= 5:
            d[('or', (('and', tuple(onlya)), ('and', tuple(onlyb))))] = True
        for k, v in a.d.items():
            w = b.d.get(k)
            if w is None:
                continue
            if k[0] == 'lin':
                lo = ls = hi = hs = None
                if v[0] is not None and w[0] is not None:
                    lo, ls = min((v[0], v[1]), (w[0], w[1]))
                if v[2] is not None and w[2] is not None:
                    hi, ns = max((v[2], not v[3]), (w[2], not w[3]))
                    hs = not ns
                ex = v[4] & w[4]
                # a point excluded by one side's bounds is excluded too
                for p in (v[4] | w[4]):
                    if self.excl(v, p) and self.excl(w, p):
                        ex = ex | {p}
                for q in (v, w):
                    for p, strict in ((q[0], q[1]), (q[2], q[3])):
                        if p is not None and strict and self.excl(v, p) and self.excl(w, p):
                            ex = ex | {p}
                if lo is None and hi is None and not ex:
                    continue
                d[k] = (lo, bool(ls), hi, bool(hs), ex)
            elif v == w:
                d[k] = v
        return Facts(d)

    @staticmethod
    def excl(iv, p):
        lo, ls, hi, hs, ex = iv
        return (p in ex or (lo is not None and (p < lo or (p == lo and ls)))
                or (hi is not None and (p > hi or (p == hi and hs))))

    def merge_v(self, outs):
        """Merges [(st, term)]."""
        if len(outs) < 2:
            return outs
        by = {}
        for s, t in outs:
            by.setdefault(t, []).append(s)
        return [(s, t) for t, ss in by.items() for s in self.merge(ss)]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """Returns [(kind, st, value)]; kind is fall/return/break/continue."""
        live = [st]
        outs = []
        for s in stmts:
            nxt = []
            for cur in live:
                for o in self.exec(s, cur):
                    if o[0] == 'fall':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            live = self.merge(nxt)
            self.check(len(live))
            if not live:
                break
        return outs + [('fall', s, None) for s in live]

    def exec(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.unsupported.append(type(n).__name__)
            return [('fall', st, None)]
        return m(n, st)

    def falls(self, sts):
        return [('fall', s, None) for s in sts]

    def x_Pass(self, n, st):
        return [('fall', st, None)]

    x_Nonlocal = x_Pass

    def x_Global(self, n, st):
        return [('fall', st, None)]

    def x_Import(self, n, st):
        fr = self.cur(st)
        for a in n.names:
            if a.asname:
                st = self.bind(st, a.asname, ('glob', a.name))
            else:
                st = self.bind(st, a.name.split('.')[0], ('glob', a.name.split('.')[0]))
        return [('fall', st, None)]

    def x_ImportFrom(self, n, st):
        base = n.module or ''
        if n.level:
            parts = self.mod(st).name.split('.')[:-n.level]
            base = '.'.join(parts + ([base] if base else []))
        for a in n.names:
            st = self.bind(st, a.asname or a.name, ('glob', self.prog.canon(f'{base}.{a.name}')))
        return [('fall', st, None)]

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('fall', st, None)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom, ast.Call)):
            return self.falls(self.merge([s for s, _ in self.ev(n.value, st)]))
        return self.falls(self.merge([s for s, _ in self.ev(n.value, st)]))

    def x_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(t, v, s2)]
            out += ss
        return self.falls(self.merge(out))

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [('fall', st, None)]
        return self.falls([s2 for s, v in self.ev(n.value, st)
                           for s2 in self.assign(n.target, v, s)])

    BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
           ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
           ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}

    def x_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n)
        out = []
        for s, a in self.ev(load, st):
            for s2, b in self.ev(n.value, s):
                op = self.BIN[type(n.op)]
                o = self.obj(s2, a)
                if o and o[0] in ('list', 'set') and op in ('+', '|'):
                    s2 = self.mutate(s2, a, (o[0], o[1] + self.spread(s2, b)))
                    s2 = self.event(s2, Ev('mutate', s2, n, self.mod(s2), 'list.extend', {'self': a, 0: b}))
                    out.append(s2)
                    continue
                if o and o[0] == 'dict' and op == '|':
                    s2 = self.mutate(s2, a, ('dict', self.dict_merge(s2, o[1], b)))
                    out.append(s2)
                    continue
                if op == '+' and a[0] not in ('const', 'sum', 'obj') and a[:2] != ('call', 'copy.copy') \
                        and not (a[0] == 'item' and a[2][0] == 'slice') and self.listlike(s2, b):
                    # lists are extended in place
                    s2 = self.event(s2, Ev('mutate', s2, n, self.mod(s2), 'list.+=', {'self': a, 0: b}))
                for s3, v in self.binop(op, a, b, s2, n):
                    out += self.assign(n.target, v, s3, aug=True)
        return self.falls(out)

    def listlike(self, st, t):
        o = self.obj(st, t)
        return bool(o) and o[0] in ('list', 'gen') or t[0] == 'item' and t[2][0] == 'slice' \
            or t[0] == 'call' and t[1].endswith('.get_entries')

    def x_Delete(self, n, st):
        ss = [st]
        for t in n.targets:
            nxt = []
            for s in ss:
                if isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev_index(t.slice, s2):
                            o = self.obj(s3, b)
                            if o and o[0] == 'dict':
                                s3 = self.mutate(s3, b, ('dict', self.dict_del(o[1], k)))
                            elif o and o[0] == 'list':
                                s3 = self.mutate(s3, b, ('list', o[1] + (('unk', 'delitem', k),)))
                            nxt.append(self.event(s3, Ev('delitem', s3, t, self.mod(s3), 'del', {'self': b, 'key': k})))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        nxt.append(self.event(s2, Ev('delattr', s2, t, self.mod(s2), t.attr, {'self': b})))
                else:
                    nxt.append(s)
            ss = nxt
        return self.falls(ss)

    def x_If(self, n, st):
        outs = []
        res = self.cond(n.test, st)
        for r in (True, False):
            for s in self.merge([s for s, b in res if b == r]):
                outs += self.exec_block(n.body if r else n.orelse, s)
        return self.merge_o(outs)

    def merge_o(self, outs):
        falls = [o[1] for o in outs if o[0] == 'fall']
        rest = [o for o in outs if o[0] != 'fall']
        self.check(len(outs))
        return rest + self.falls(self.merge(falls))

    def x_Return(self, n, st):
        if n.value is None:
            return [('return', st, NONE)]
        return [('return', s, v) for s, v in self.ev(n.value, st)]

    def x_Break(self, n, st):
        return [('break', st, None)]

    def x_Continue(self, n, st):
        return [('continue', st, None)]

    def x_FunctionDef(self, n, st):
        cid = self.new_uid()
        f = Func(self.mod(st), f'{self.cur_func(st)}.<{n.name}>', n)
        self.closures[cid] = (f, self.cur(st))
        t = ('func', cid)
        decos = []
        ss = [(st, [])]
        for d in n.decorator_list:
            ss = [(s2, ds + [v]) for s, ds in ss for s2, v in self.ev(d, s)]
        return self.falls([self.bind(s, n.name, ('func', cid, tuple(ds))) for s, ds in ss])

    def x_ClassDef(self, n, st):
        return [('fall', self.bind(st, n.name, ('glob', f'{self.mod(st).name}.<local>.{n.name}')), None)]

    def x_Assert(self, n, st):
        outs = []
        for s, r in self.cond(n.test, st):
            if r:
                outs.append(s)
            else:
                self.raise_(s, Exc('builtins.AssertionError', ('exc', 'builtins.AssertionError', self.new_uid()), node=n), n, assertion=True)
        return self.falls(self.merge(outs))

    def x_Raise(self, n, st):
        if n.exc is None:
            if st.exc is not None:
                self.raise_(st, st.exc, n, reraise=True)
            else:
                self.raise_(st, Exc(None, ('exc', None, self.new_uid()), node=n), n)
            return []
        for s, v in self.ev(n.exc, st):
            if s.exc is not None and v == s.exc.term:
                self.raise_(s, s.exc, n, reraise=True)
                continue
            cls = None
            if v[0] == 'glob':
                cls = v[1]
            elif v[0] == 'call':
                cls = v[1]
            else:
                c = self.typeof(v, s)
                if c:
                    cls = c.full
            self.raise_(s, Exc(cls, v, node=n), n)
        return []

    def raise_(self, st, exc, node, assertion=False, reraise=False, implicit=False):
        ev = Ev('raise', st, node, self.mod(st), exc.cls or '?', {'exc': exc.term}, x=exc)
        self.pending[-1].append((self.event(st, ev), exc))

    def maybe_raise(self, st, ev):
        """An opaque effect inside ``try`` may raise instead of completing."""
        if self.trydepth and self.policy.implicit:
            exc = Exc(None, ('exc', None, self.new_uid()), ev=ev, node=ev.node)
            st2 = st
            e = Ev('raise', st2, ev.node, ev.mod, '?implicit', {'exc': exc.term}, x=exc)
            self.pending[-1].append((self.event(st2, e), exc))

    # -- exceptions
    def exc_is(self, cls, want):
        """Is exception class ``cls`` a subclass of ``want``? True/False/None."""
        if want in ('builtins.BaseException',):
            return True
        if cls == want:
            return True
        if cls.startswith('builtins.'):
            c = getattr(builtins, cls[9:], None)
            if want.startswith('builtins.'):
                w = getattr(builtins, want[9:], None)
                if isinstance(c, type) and isinstance(w, type):
                    return issubclass(c, w)
            return False
        k = self.prog.cls(cls)
        if k:
            rs = [self.exc_is(b, want) for b in k.bases if b]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        bases = EXT_EXC_BASES.get(cls)
        if bases:
            rs = [self.exc_is(b, want) for b in bases]
            if any(rs):
                return True
            if all(r is False for r in rs) and not want.startswith('builtins.'):
                return False
            if all(r is False for r in rs):
                return False
        if want == 'builtins.Exception':
            return True
        return None

    def handler_types(self, h, st):
        if h.type is None:
            return ['builtins.BaseException']
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in types:
            (s, v), = self.ev(t, st)[:1]
            out.append(v[1] if v[0] == 'glob' else '?')
        return out

    def x_Try(self, n, st):
        base_ctx = st.ctx
        has_fin = bool(n.finalbody)
        if has_fin:
            self.pending.append([])
        # body
        self.pending.append([])
        self.trydepth += 1
        tctx = ('try', id(n), tuple(tuple(self.handler_types(h, st)) for h in n.handlers),
                has_fin)
        self.catching.append([t for ts in tctx[2] for t in ts])
        outs = self.exec_block(n.body, st.set(ctx=st.ctx + (tctx,)))
        self.catching.pop()
        self.trydepth -= 1
        raised = self.pending.pop()
        if has_fin:
            self.trydepth += 1
        results = []
        for o in outs:
            s = o[1].set(ctx=rebase(o[1].ctx, base_ctx, o[0] == 'fall'))
            if o[0] == 'fall' and n.orelse:
                results += self.exec_block(n.orelse, s)
            else:
                results.append((o[0], s, o[2]))
        # handlers
        raised = self.merge_r(raised)
        for s, exc in raised:
            s = s.set(ctx=rebase(s.ctx, base_ctx))
            live = True
            for h in n.handlers:
                verdict = False
                types = self.handler_types(h, s)
                for t in types:
                    if t in exc.excluded:
                        continue
                    if exc.cls is None and not exc.included:
                        r = True if t == 'builtins.BaseException' else None
                    elif exc.cls is None:
                        r = True if t == 'builtins.BaseException' else (
                            True if any(self.exc_is(i, t) for i in exc.included) else None)
                    else:
                        r = self.exc_is(exc.cls, t)
                    if r is True:
                        verdict = True
                        break
                    if r is None:
                        verdict = None
                if verdict is False:
                    continue
                hs = s
                old = s.exc
                exc2 = exc if exc.cls else Exc(None, exc.term, exc.ev, exc.excluded, tuple(types), exc.node)
                hs = hs.set(exc=exc2, ctx=hs.ctx + (('handler', tuple(types)),))
                if h.name:
                    hs = self.bind(hs, h.name, exc.term)
                hs = self.event(hs, Ev('catch', hs, h, self.mod(hs), ','.join(types), {'exc': exc.term}, x=exc))
                for o in self.exec_block(h.body, hs):
                    results.append((o[0], o[1].set(exc=old, ctx=rebase(o[1].ctx, base_ctx, o[0] == 'fall')), o[2]))
                if verdict is True:
                    live = False
                    break
                exc = Exc(exc.cls, exc.term, exc.ev, exc.excluded + tuple(types), exc.included, exc.node)
            if live:
                self.pending[-1].append((s, exc))
        if has_fin:
            self.trydepth -= 1
            praised = self.merge_r(self.pending.pop())
            final = []
            for o in self.merge_any(results):
                s = o[1].set(ctx=o[1].ctx + (('finally', id(n)),))
                for f in self.exec_block(n.finalbody, s):
                    fs = f[1].set(ctx=rebase(f[1].ctx, base_ctx))
                    final.append((o[0], fs, o[2]) if f[0] == 'fall' else (f[0], fs, f[2]))
            for s, exc in praised:
                s = s.set(ctx=rebase(s.ctx, base_ctx) + (('finally', id(n)),))
                for f in self.exec_block(n.finalbody, s):
                    fs = f[1].set(ctx=rebase(f[1].ctx, base_ctx))
                    if f[0] == 'fall':
                        self.pending[-1].append((fs, exc))
                    else:
                        final.append((f[0], fs, f[2]))
            results = final
        return self.merge_o(results)

    x_TryStar = x_Try

    def merge_any(self, outs):
        return outs

    def merge_r(self, raised):
        """Joins raising partitions with identical effects."""
        if len(raised) < 2:
            return raised
        by = {}
        order = []
        for s, e in raised:
            if e.cls is None and e.ev is not None:
                order.append((s, e))
            else:
                order.append((s, e))
        return order

    def x_With(self, n, st):
        return self.with_items(n, list(n.items), st)

    x_AsyncWith = x_With

    def with_items(self, n, items, st):
        if not items:
            return self.exec_block(n.body, st)
        item = items[0]
        outs = []
        for s, v in self.ev(item.context_expr, st):
            base = s.ctx
            # contextlib.suppress(...)
            if v[0] == 'call' and v[1] == 'contextlib.suppress':
                types = [a[1][1] for a in v[2] if a[1][0] == 'glob']
                self.pending.append([])
                self.trydepth += 1
                self.catching.append(types)
                res = self.with_items(n, items[1:], s)
                self.catching.pop()
                self.trydepth -= 1
                for rs, exc in self.pending.pop():
                    match = [exc.cls is not None and self.exc_is(exc.cls, t) for t in types]
                    if exc.cls is None or any(match):
                        res.append(('fall', rs.set(ctx=base), None))
                    if not any(m is True for m in match):
                        self.pending[-1].append((rs, exc))
                outs += res
                continue
            s2 = s.set(epoch=s.epoch + 1)
            s2 = self.event(s2, Ev('enter', s2, n, self.mod(s2), 'with', {'ctx': v}))
            s2 = s2.set(ctx=s2.ctx + (('with', v),))
            if item.optional_vars is not None:
                bound = self.with_value(s2, v)
                ss = self.assign(item.optional_vars, bound, s2)
            else:
                ss = [s2]
            self.pending.append([])
            res = []
            for s3 in ss:
                res += self.with_items(n, items[1:], s3)
            raised = self.pending.pop()

            def leave(x):
                x = x.set(ctx=base, epoch=x.epoch + 1)
                return self.event(x, Ev('exit', x, n, self.mod(x), 'with', {'ctx': v}))
            # one exit event per distinct trace, so that joins still work
            memo = {}
            for k, x, val in res:
                key = id(x.trace)
                y = leave(x)
                if key in memo:
                    y = y.set(trace=memo[key])
                else:
                    memo[key] = y.trace
                outs.append((k, y, val))
            for x, exc in raised:
                self.pending[-1].append((leave(x), exc))
        return self.merge_o(outs)

    def with_value(self, st, v):
        c = self.typeof(v, st)
        if c:
            m = self.prog.find_method(c, '__enter__')
            if m:
                return v
        return ('entered', v)

    # -- loops
    def x_For(self, n, st):
        outs = []
        for s, it in self.ev(n.iter, st):
            outs += self.loop(n, s, it)
        return self.merge_o(outs)

    def x_While(self, n, st):
        return self.merge_o(self.loop(n, st, None))

    def unroll(self, st, it):
        """Literal sequences are unrolled."""
        if it[0] == 'tuple':
            return list(it[1])
        o = self.obj(st, it)
        if o and o[0] == 'gen' and o[1] and all(x[0] == 'one' for x in o[1]):
            return [x[1] for x in o[1]]
        return None

    def loop(self, n, st, it):
        if it is not None:
            lits = self.unroll(st, it)
            if lits is not None and len(lits) <= 8:
                return self.unrolled(n, st, lits)
        lid = self.new_uid()
        sentinel = it is not None and it[0] == 'call' and it[1] == 'builtins.iter' and len(it[2]) == 2
        fused = self.fusable(st, it) if it is not None and not sentinel else None
        info = Loop(lid, n, self.mod(st), it if fused is None else fused[2])
        info.kind = 'while' if it is None else 'for'
        info.before = st
        skipped = []
        self.loops[lid] = info
        changed = {}
        rebuilt = set()     # collections that lose what they had before the loop
        for attempt in range(6):
            head = self.havoc(st, changed, lid, rebuilt)
            mark = Ev('loopiter', head, n, self.mod(head), x=info)
            h2 = head.set(trace=(mark, head.trace), ctx=head.ctx + (('loop', lid),))
            marker = h2.trace
            self.pending.append([])
            exits = []      # normal exhaustion
            if it is None:
                starts = []
                for s, r in self.cond(n.test, h2):
                    (starts if r else exits).append(s)
                starts = self.merge(starts)
            elif sentinel:
                starts = []
                for s, v in self.call(h2, it[2][0][1], [], [], n):
                    a, w = self.cmp_atom(s, '==', v, it[2][1][1])
                    for s2, r in self.branch(s, a, w):
                        if r:
                            exits.append(s2)
                        else:
                            starts += self.assign(n.target, v, s2)
            elif fused is not None:
                starts, skipped = self.bind_fused(n.target, fused, h2, lid)
            else:
                starts = self.bind_iter(n.target, it, h2, lid)
            info.head_facts = h2.facts
            res = []
            for s in starts:
                res += self.exec_block(n.body, s)
            res += self.falls(skipped)
            raised = self.pending.pop()
            backs = [o[1] for o in res if o[0] in ('fall', 'continue')]
            new = self.diff(head, backs, changed)
            lost = {k[1] for k in (*changed, *new) if k[0] == 'heap' and k[1] in st.heap and self.loses(st.heap[k[1]], backs, k[1])}
            if not new and lost <= rebuilt:
                break
            changed.update(new)
            rebuilt |= lost
        else:
            raise AnalysisError(f'loop at {n.lineno} did not stabilise')
        for k in changed:
            info.changed[k] = (self.get_loc(st, k), [self.get_loc(b, k) for b in backs])
        for o in res:
            if o[0] in ('fall', 'continue'):
                info.bodies.append(Body(o[1].events(marker), o[1].facts, 'back', o[1]))
        for o in res:
            if o[0] in ('break', 'return'):
                info.bodies.append(Body(o[1].events(marker), o[1].facts, o[0], o[1]))
        for s, e in raised:
            info.bodies.append(Body(s.events(marker), s.facts, 'raise', s))
            self.pending[-1].append((s, e))
        outs = []
        ctx = st.ctx
        # after exhaustion
        ev = Ev('loop', head, n, self.mod(st), x=info)
        after = []
        if it is None or sentinel:
            for s in exits:
                # events of evaluating the condition one last time
                extra = s.events(marker)
                s2 = s.set(trace=(ev, st.trace), ctx=ctx)
                for e in extra:
                    s2 = self.event(s2, e)
                after.append(self.loop_content(s2, st, head, backs, info, rebuilt))
        else:
            after.append(self.loop_content(head.set(trace=(ev, st.trace), ctx=ctx), st, head, backs, info, rebuilt))
        after = [self.loop_vars(s, head, backs, info) for s in after]
        for s in self.merge(after):
            if n.orelse:
                outs += self.exec_block(n.orelse, s)
            else:
                outs.append(('fall', s, None))
        for o in res:
            if o[0] == 'break':
                outs.append(('fall', o[1].set(ctx=ctx), None))
            elif o[0] == 'return':
                outs.append(('return', o[1].set(ctx=ctx), o[2]))
        return outs

    def unrolled(self, n, st, lits):
        live, outs = [st], []
        broke = []
        for lit in lits:
            nxt = []
            for s in live:
                for s2 in self.assign(n.target, lit, s):
                    for o in self.exec_block(n.body, s2):
                        if o[0] in ('fall', 'continue'):
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            broke.append(o[1])
                        else:
                            outs.append(o)
            live = self.merge(nxt)
        for s in live:
            outs += self.exec_block(n.orelse, s) if n.orelse else [('fall', s, None)]
        return outs + self.falls(broke)

    def loop_content(self, after, st, head, backs, info, rebuilt=()):
        """What loops append to lists and dicts becomes a ('loop', ...) segment."""
        heap = dict(after.heap)
        for k in info.changed:
            if k[0] != 'heap' or k[1] not in st.heap:
                continue
            o0 = st.heap[k[1]]
            if k[1] in rebuilt:
                heap[k[1]] = (o0[0], (('unk', info.lid),)) + tuple(o0[2:])
                continue
            alts = []
            ok = True
            for b in backs:
                ob = b.heap.get(k[1])
                pre = o0[1] + (('prior', info.lid),)
                if ob and ob[0] == o0[0] and ob[1][:len(pre)] == pre:
                    delta, segs = self.fact_delta(info, b.facts), ob[1][len(pre):]
                    alts.append(self.export(heap, head, b, (delta, segs)))
                else:
                    ok = False
            seg = ('loop', info.lid, info.iter or NONE, tuple(dict.fromkeys(alts))) if ok else ('unk', info.lid)
            heap[k[1]] = (o0[0], o0[1] + (seg,)) + tuple(o0[2:])
        return after.set(heap=heap)

    def export(self, heap, head, b, t):
        """Brings what an iteration created, and a collection keeps, into the heap after its loop."""
        new = {}

        def walk(t):
            if not isinstance(t, tuple) or not t or t[0] == 'const':
                return
            if t[0] == 'obj' and isinstance(t[1], int):
                o = b.heap.get(t[1])
                if t[1] not in head.heap and t[1] not in new and o is not None and o[0] != 'inst':
                    new[t[1]] = t[1]
                    walk(o[1:])
                return
            for x in t:
                walk(x)

        def ren(t):
            if not isinstance(t, tuple) or not t or t[0] == 'const':
                return t
            if t[0] == 'obj' and isinstance(t[1], int):
                return ('obj', new.get(t[1], t[1]))
            return tuple(ren(x) for x in t)
        walk(t)
        if not new:
            return t
        if any(i in heap and heap[i] != b.heap[i] for i in new):
            for i in new:
                new[i] = self.new_uid()
            t = ren(t)
        for i, j in new.items():
            o = b.heap[i]
            heap[j] = o if i == j else (o[0],) + tuple(ren(x) for x in o[1:])
        return t

    def loop_vars(self, after, head, backs, info):
        """Variables that only the loop's body binds have their last value afterwards."""
        frames = dict(after.frames)
        for fid, fr in head.frames.items():
            if not isinstance(fr, dict) or not backs:
                continue
            names = [n for n in (backs[0].frames.get(fid) or {}) if n not in fr]
            for name in names:
                vals = [(b.frames.get(fid) or {}).get(name) for b in backs]
                last = ('lv', info.lid, name)
                it = info.iter
                if (it is not None and it[0] == 'call' and it[1] == 'builtins.range'
                        and all(v == ('elemof', it, info.lid) for v in vals)):
                    args = [v for _, v in it[2]]
                    if len(args) <= 2:
                        last = mk_bin('-', args[-1], K(1))
                else:
                    info.changed.setdefault(('var', fid, name), (None, vals))
                frames[fid] = {**frames[fid], name: last}
        return after.set(frames=frames)

    def fact_delta(self, info, facts):
        return tuple((k, v) for k, v in facts.d.items()
                     if info.head_facts.d.get(k) != v)

    def loses(self, o0, backs, i):
        """Does an iteration remove something that the collection had before?"""
        if o0[0] not in ('list', 'dict', 'set', 'gen'):
            return False
        return any(b.heap.get(i) is None or b.heap[i][1][:len(o0[1])] != o0[1] for b in backs)

    def havoc(self, st, changed, lid, rebuilt=()):
        if not changed:
            return st
        st = st.copy()
        frames = dict(st.frames)
        heap, attrs, globs = dict(st.heap), dict(st.attrs), dict(st.globs)
        facts = dict(st.facts.d)
        for k in changed:
            if k[0] == 'var':
                fr = dict(frames[k[1]])
                if k[2] in fr:
                    c = self.typeof(fr[k[2]], st)
                    if c:
                        self.lvtypes[lid, k[2]] = c
                fr[k[2]] = ('lv', lid, k[2])
                frames[k[1]] = fr
            elif k[0] == 'attr':
                attrs[k[1]] = ('lv', lid, k[1][1], k[1][0])
            elif k[0] == 'glob':
                globs[k[1]] = (('lv', lid, k[1]), st.epoch)
            elif k[0] == 'heap' and k[1] in heap:
                o = heap[k[1]]
                if o[0] in ('list', 'dict', 'set', 'gen'):
                    heap[k[1]] = (o[0], (() if k[1] in rebuilt else o[1]) + (('prior', lid),)) + tuple(o[2:])
                t = ('obj', k[1])
                facts = {f: v for f, v in facts.items() if not _mentions(f, t)}
        st.frames, st.heap, st.attrs, st.globs = frames, heap, attrs, globs
        st.facts = Facts(facts)
        return st

    def get_loc(self, st, k):
        if k[0] == 'var':
            return st.frames.get(k[1], {}).get(k[2])
        if k[0] == 'attr':
            return st.attrs.get(k[1])
        if k[0] == 'glob':
            v = st.globs.get(k[1])
            return v[0] if v else None
        return None

    def diff(self, head, backs, changed):
        new = {}
        for b in backs:
            for fid, fr in head.frames.items():
                fb = b.frames.get(fid)
                if fb is fr or fb is None:
                    continue
                for name in set(fr) | set(fb):
                    k = ('var', fid, name)
                    if name in fr and fr.get(name) != fb.get(name) and k not in changed:
                        new[k] = True
            for a, v in b.attrs.items():
                if head.attrs.get(a) != v and ('attr', a) not in changed:
                    if a[0][0] == 'obj' and a[0][1] not in head.heap:
                        continue
                    new[('attr', a)] = True
            for g, v in b.globs.items():
                if head.globs.get(g, (None,))[0] != v[0] and ('glob', g) not in changed:
                    new[('glob', g)] = True
            for i, o in head.heap.items():
                if b.heap.get(i) is not o and b.heap.get(i) != o and ('heap', i) not in changed:
                    new[('heap', i)] = True
        return new

    def bind_iter(self, target, it, st, lid):
        """Binds the loop target to an arbitrary element of it."""
        el = self.elem(st, it, lid)
        for s in self.foralls(st, it, lid):
            return self.assign(target, el, s)
        return []

    def search(self, n, st):
        """next() of a comprehension, as the loop that it is."""
        g = n.args[0]
        body = [ast.copy_location(ast.Return(value=g.elt), n)]
        for gen in reversed(g.generators):
            for c in reversed(gen.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
            body = [ast.copy_location(ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[]), n)]
        out = []
        for s, default in (self.ev(n.args[1], st) if len(n.args) > 1 else [(st, None)]):
            outer = self.cur(s)
            fid = self.new_frame(outer, self.mod(s), self.cur_func(s))
            for o in self.exec_block(body, s.set(frames={**s.frames, fid: {}, 'cur': fid})):
                s2 = o[1].set(frames={**o[1].frames, 'cur': outer})
                if o[0] == 'return':
                    out.append((s2, o[2]))
                elif default is not None:
                    out.append((s2, default))
                else:
                    self.raise_(s2, Exc('builtins.StopIteration', ('exc', 'builtins.StopIteration', self.new_uid()), node=n), n)
        return out

    def first(self, st, args, n):
        """next() of a new comprehension: one of its elements, or else the default."""
        seg = self.fusable(st, args[0]) if self.obj(st, args[0]) else None
        if seg is None or self.obj(st, args[0])[0] != 'gen' or len(args) > 2:
            return None
        lid = self.new_uid()
        lp = self.loops[seg[1]]
        info = self.loops[lid] = Loop(lid, n, self.mod(st), seg[2])
        info.head_facts = st.facts
        target = ast.copy_location(ast.Name(id='<next>', ctx=ast.Store()), n)
        out = []
        starts, _ = self.bind_fused(target, seg, st, lid)
        for s in starts:
            fr = dict(s.frames[s.frames['cur']])
            v = fr.pop('<next>')
            if any(x[0] == 'obj' or x[0] == 'lv' and x[1] == seg[1] for x in subterms(v)):
                return None
            s = s.set(frames={**s.frames, s.frames['cur']: fr})
            if s is not None:
                out.append((s, v))
        ev = Ev('call', st, n, self.mod(st), 'builtins.next', dict(_pack(args, [])), res=NONE)
        out = [(self.event(s, Ev('call', s, n, self.mod(st), 'builtins.next', dict(_pack(args, [])), res=v)), v) for s, v in out]
        if len(args) > 1:
            out.append((self.event(st, ev), args[1]))
        else:
            self.raise_(st, Exc('builtins.StopIteration', ('exc', 'builtins.StopIteration', self.new_uid()), node=n), n)
        return out

    def foralls(self, st, it, lid):
        """What earlier loops over the same collection, and tests of comprehensions over it, established for each element."""
        base = self.source(st, it)
        known = []
        for k, v in st.facts.d.items():
            if k[0] != 'truth' or v not in (True, False):
                continue
            t, anyall = k[1], None
            if t[0] == 'call' and t[1] in ('builtins.any', 'builtins.all') and t[2]:
                anyall, t = t[1], t[2][0][1]
                if (anyall == 'builtins.any') == v:
                    continue
            elif v:
                continue
            o = self.obj(st, t)
            if not (o and o[0] in ('list', 'set', 'gen', 'dict') and len(o[1]) == 1 and o[1][0][0] == 'loop'):
                continue
            if anyall is None and o[0] == 'gen':
                continue
            seg = o[1][0]
            if self.source(st, seg[2]) != base:
                continue
            for facts, segs in seg[3]:
                if not segs:
                    continue
                atoms = [self.as_atom(a, w) for a, w in facts]
                if anyall:
                    if len(segs) != 1 or segs[0][0] != 'one':
                        continue
                    x = self.truth_atom(st, segs[0][1])
                    atoms.append(x if anyall == 'builtins.any' else ('not', x))
                known.append((seg[1], ('or', tuple(('not', a) for a in atoms if a is not None))
                              if None not in atoms else None))
        for e in st.events():
            if e.kind == 'loop' and e.x.iter is not None and e.x.kind == 'for' and e.x.bodies and e.x.lid != lid \
                    and self.source(st, e.x.iter) == base:
                alts = []
                for b in e.x.bodies:
                    if b.exit == 'back':
                        atoms = [self.as_atom(a, w) for a, w in self.fact_delta(e.x, b.facts)]
                        atoms = [a for a in atoms if a is not None and not _mentions_lv(a, e.x.lid) and _mentions_el(a, e.x.lid)]
                        alts.append(('and', tuple(atoms)) if len(atoms) != 1 else atoms[0])
                if alts and all(a[0] != 'and' or a[1] for a in alts):
                    known.append((e.x.lid, alts[0] if len(alts) == 1 else ('or', tuple(alts))))
        if not known:
            return [st]
        attrs, objs = set(), set()
        for e in flat_events(st.events()):
            if e.kind == 'setattr':
                attrs.add(e.fn)
            elif e.kind in ('setitem', 'mutate', 'delitem') and e.a.get('self') is not None:
                objs.add(e.a['self'])
        for old, atom in known:
            if atom is None or _mentions_lv(atom, old) or any(
                    x[0] == 'attr' and x[2] in attrs or x[0] in ('item', 'get') and x[1] in objs for x in subterms(atom) if x):
                continue
            s = self.assume_any(st, _relid(atom, old, lid))
            if s is None:
                return []
            st = s
        return [st]

    def assume_any(self, st, atom):
        """assume(), for nested atoms."""
        if atom[0] == 'or':
            live = [a for a in atom[1] if self.decide(st, a) is not False]
            if any(self.decide(st, a) is True for a in live):
                return st
            if not live:
                return None
            if len(live) == 1:
                return self.assume(st, live[0], True)
            if len(live) > 6:
                return st
            return st.set(facts=st.facts.with_(('or', tuple(live)), True))
        return self.assume(st, atom, True)

    def source(self, st, it):
        """What an iterable's elements come from."""
        while True:
            n = self.strip_iter(st, it)
            if n[0] == 'call' and n[1] == 'builtins.enumerate' and n[2]:
                n = n[2][0][1]
            if n == it:
                return n
            it = n

    def as_atom(self, k, v):
        """A stored fact as an atom that holds, or None if it's an interval."""
        if k[0] == 'lin' or v not in (True, False):
            return None
        return k if v else ('not', k)

    def elem(self, st, it, lid):
        it = self.strip_iter(st, it)
        if it[0] == 'call':
            fn, args = it[1], [v for k, v in it[2]]
            if fn == 'builtins.enumerate' and args:
                return ('tuple', (('idx', lid), self.elem(st, args[0], lid)))
            if fn == 'builtins.zip':
                # elements only correspond if the iterables are in the same order
                order = self.order(st, args[0]) if args else ()
                return ('tuple', tuple(self.elem(st, a, lid) if self.order(st, a) == order else ('elemof', a, lid)
                                       for a in args))
            if fn == 'builtins.range':
                return ('elemof', it, lid)
            if fn == '?.items' and args:
                return ('tuple', (('keyof', args[0], lid), ('valof', args[0], lid)))
            if fn == '?.values' and args:
                return ('valof', args[0], lid)
            if fn == '?.keys' and args:
                return ('keyof', args[0], lid)
        o = self.obj(st, it)
        if o and o[0] == 'dict':
            return ('keyof', it, lid)
        if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'loop':
            # an element of a comprehension: one alternative means we know its shape
            alts = o[1][0][3]
            if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'one':
                return _relid(alts[0][1][0][1], o[1][0][1], lid)
        if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'one':
            return o[1][0][1]
        if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'spread':
            return self.elem(st, o[1][0][1], lid)
        return ('elemof', it, lid)

    def order(self, st, it):
        """What changes the order of an iterable's elements from that of what elem() sees them as elements of."""
        out = ()
        while True:
            if it[0] == 'call' and it[2] and it[1] in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'copy.copy'):
                it = it[2][0][1]
                continue
            if it[0] == 'call' and it[2] and it[1] in ('builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset'):
                out += ((it[1],) + it[2][1:],)
                it = it[2][0][1]
                continue
            o = self.obj(st, it)
            if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'spread':
                it = o[1][0][1]
                continue
            if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'loop' and len(o[1][0][3]) == 1:
                it = o[1][0][2]
                continue
            return out

    def strip_iter(self, st, it):
        while True:
            if it[0] == 'call' and it[1] in ('builtins.list', 'builtins.tuple', 'builtins.iter',
                                             'copy.copy', 'builtins.sorted', 'builtins.reversed',
                                             'builtins.set', 'builtins.frozenset') and it[2] \
                    and not (it[1] == 'builtins.iter' and len(it[2]) > 1):
                it = it[2][0][1]
                continue
            o = self.obj(st, it)
            if o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'spread':
                it = o[1][0][1]
                continue
            return it

    def x_Match(self, n, st):
        outs = []
        for s, subj in self.ev(n.subject, st):
            live = [s]
            for case in n.cases:
                nxt = []
                for s2 in live:
                    for s3, r in self.match_pat(case.pattern, subj, s2):
                        if not r:
                            nxt.append(s3)
                            continue
                        if case.guard is not None:
                            for s4, g in self.cond(case.guard, s3):
                                if g:
                                    outs += self.exec_block(case.body, s4)
                                else:
                                    nxt.append(s4)
                        else:
                            outs += self.exec_block(case.body, s3)
                live = self.merge(nxt)
            outs += self.falls(live)
        return self.merge_o(outs)

    def match_pat(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, v in self.ev(p.value, st):
                a, w = self.cmp_atom(s, '==', subj, v)
                out += self.branch(s, a, w)
            return out
        if isinstance(p, ast.MatchSingleton):
            a, w = self.cmp_atom(st, 'is', subj, K(p.value))
            return self.branch(st, a, w)
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.match_pat(p.pattern, subj, st)
            return [(self.bind(s, p.name, subj) if r and p.name else s, r) for s, r in res]
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s2, r in self.match_pat(q, subj, s):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(p, ast.MatchClass):
            (s, c), = self.ev(p.cls, st)[:1]
            fields = list(zip(p.kwd_attrs, p.kwd_patterns))
            if p.patterns:
                cl = self.prog.lookup(c[1]) if c[0] == 'glob' else None
                if not isinstance(cl, Class) or not cl.fields or len(p.patterns) > len(cl.fields):
                    return [(st, True), (st, False)]
                fields += list(zip(cl.fields, p.patterns))
            return self.match_parts(self.branch(s, self.isinst_atom(s, subj, c)),
                                    [(lambda s, a=a: self.attr(s, subj, a, p), q) for a, q in fields])
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            items = [(lambda s, i=i: [(s, self.index(s, subj, K(i)))], q) for i, q in enumerate(p.patterns)]
            if subj[0] == 'tuple':
                if len(subj[1]) != len(items):
                    return [(st, False)]
                return self.match_parts([(st, True)], items)
            a, w = self.cmp_atom(st, '==', ('call', 'builtins.len', ((0, subj),), None), K(len(items)))
            # something that isn't a sequence doesn't match either
            return self.match_parts(self.branch(st, a, w), items) + [(st, False)]
        return [(st, True), (st, False)]

    def match_parts(self, starts, parts):
        live, out = [s for s, r in starts if r], [(s, False) for s, r in starts if not r]
        for read, q in parts:
            nxt = []
            for s in live:
                for s2, v in read(s):
                    for s3, r in self.match_pat(q, v, s2):
                        (nxt.append(s3) if r else out.append((s3, False)))
            live = nxt
        return [(s, True) for s in live] + out

    # ------------------------------------------------------------ variables
    def cur(self, st):
        return st.frames['cur']

    def mod(self, st):
        return self.frame_mod[st.frames['cur']]

    def cur_func(self, st):
        return self.frame_func[st.frames['cur']]

    def bind(self, st, name, v, fid=None):
        fid = fid or st.frames['cur']
        if fid == st.frames['cur']:
            if name in self.frame_globals.get(fid, ()):
                return self.set_global(st, f'{self.frame_mod[fid].name}.{name}', v)
            if name in self.frame_nonlocals.get(fid, ()):
                p = self.frame_parent.get(fid)
                while p is not None:
                    if name in st.frames[p]:
                        return self.bind_in(st, p, name, v)
                    p = self.frame_parent.get(p)
        return self.bind_in(st, fid, name, v)

    def bind_in(self, st, fid, name, v):
        fr = dict(st.frames[fid])
        fr[name] = v
        frames = dict(st.frames)
        frames[fid] = fr
        return st.set(frames=frames)

    def set_global(self, st, dotted, v, node=None):
        globs = dict(st.globs)
        globs[dotted] = (v, st.epoch)
        st = st.set(globs=globs)
        return self.event(st, Ev('setglob', st, node or ast.Pass(), self.mod(st), dotted, {'value': v}))

    def name(self, st, name):
        fid = st.frames['cur']
        if name not in self.frame_globals.get(fid, ()):
            f = fid
            while f is not None:
                if name in st.frames[f]:
                    return st.frames[f][name]
                f = self.frame_parent.get(f)
        m = self.frame_mod[fid]
        return self.module_name(st, m, name)

    def module_name(self, st, m, name):
        if name in m.funcs or name in m.classes:
            return ('glob', f'{m.name}.{name}')
        if name in m.assigns or name in m.volatile:
            return self.read_global(st, m, name)
        if name in m.imports:
            return self.resolve_glob(st, m.imports[name])
        if hasattr(builtins, name):
            return ('glob', f'builtins.{name}')
        return ('glob', f'{m.name}.{name}')

    def resolve_glob(self, st, dotted):
        dotted = self.prog.canon(dotted)
        modname, _, name = dotted.rpartition('.')
        m = self.prog.modules.get(modname)
        if m is not None and (name in m.assigns or name in m.volatile) and name not in m.funcs \
                and name not in m.classes:
            return self.read_global(st, m, name)
        return ('glob', dotted)

    def read_global(self, st, m, name):
        dotted = f'{m.name}.{name}'
        if name in m.volatile:
            v = st.globs.get(dotted)
            if v is not None and v[1] == st.epoch:
                return v[0]
            return ('gv', dotted, st.epoch)
        if len(m.assigns.get(name, ())) == 1 and name not in m.classes:
            c = self.prog.const_of(m, m.assigns[name][0])
            if c is not ... and isinstance(c, (str, int, float, bool, bytes)) or c is None and not (
                    f'{m.name}.{name}' in GLOB_TYPES):
                return K(c)
            if isinstance(c, tuple):
                return ('tuple', tuple(K(x) for x in c))
            c2 = self.alias_of(m, m.assigns[name][0])
            if c2:
                return c2
        return ('glob', dotted)

    def alias_of(self, m, node):
        """NAME = other.NAME; frozenset(('a', 'b')) and sums of constants."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                node.func.id in ('frozenset', 'set', 'tuple') and len(node.args) == 1:
            c = self.prog.const_of(m, node.args[0])
            if isinstance(c, (tuple, list, set)) and all(isinstance(x, (str, int)) for x in c):
                return ('call', 'builtins.frozenset', ((0, ('tuple', tuple(K(x) for x in sorted(c)))),), None)
        if isinstance(node, ast.JoinedStr):
            parts = []
            for v in node.values:
                c = v.value if isinstance(v, ast.Constant) else self.prog.const_of(m, v.value)
                if c is ... or not isinstance(c, (str, int)):
                    return None
                parts.append(str(c))
            return K(''.join(parts))
        return None

    def assign(self, target, v, st, aug=False):
        """Returns [st]."""
        if isinstance(target, ast.Name):
            return [self.bind(st, target.id, v)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st)
        if isinstance(target, (ast.Tuple, ast.List)):
            o = self.obj(st, v)
            if o and o[0] in ('gen', 'list') and all(x[0] == 'one' for x in o[1]):
                v = ('tuple', tuple(x[1] for x in o[1]))
            ss = [st]
            n = len(target.elts)
            star = next((i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)), None)
            for i, t in enumerate(target.elts):
                if star is not None and i == star:
                    e = ('item', v, ('slice', K(i), NONE if i == n - 1 else K(i - n + 1), NONE))
                elif star is not None and i > star:
                    e = self.index(st, v, K(i - n))
                else:
                    e = self.index(st, v, K(i))
                ss = [s2 for s in ss for s2 in self.assign(t, e, s)]
            return ss
        if isinstance(target, ast.Attribute):
            return [self.store_attr(s, b, target.attr, v, target) for s, b in self.ev(target.value, st)]
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st):
                for s2, k in self.ev_index(target.slice, s):
                    o = self.obj(s2, b)
                    if o and o[0] == 'dict':
                        s2 = self.mutate(s2, b, ('dict', self.dict_set(o[1], k, v)))
                    elif o and o[0] == 'list':
                        s2 = self.mutate(s2, b, ('list', o[1] + (('unk', 'setitem', k, v),)))
                    s2 = self.event(s2, Ev('setitem', s2, target, self.mod(s2), 'setitem',
                                           {'self': b, 'key': k, 'value': v}))
                    out.append(s2)
            return out
        raise AnalysisError(f'assignment target {type(target)}')

    def store_attr(self, st, base, attr, v, node):
        if base[0] == 'glob' and base[1] in self.prog.modules:
            return self.set_global(st, f'{base[1]}.{attr}', v, node)
        attrs = dict(st.attrs)
        attrs[(base, attr)] = v
        st = st.set(attrs=attrs)
        return self.event(st, Ev('setattr', st, node, self.mod(st), attr, {'self': base, 'value': v}))

    # ------------------------------------------------------------ dicts
    def dict_set(self, entries, k, v):
        if is_const(k) or k[0] == 'glob':
            if not any(e[0] in ('loop', 'prior', 'unk') for e in entries):
                for i, e in enumerate(entries):
                    if e[0] == 'kv' and e[1] == k and not any(
                            x[0] != 'kv' or not is_const(x[1]) for x in entries[i + 1:]):
                        return entries[:i] + (('kv', k, v),) + entries[i + 1:]
        return entries + (('kv', k, v),)

    def dict_del(self, entries, k):
        if all(e[0] == 'kv' and is_const(e[1]) for e in entries) and is_const(k):
            return tuple(e for e in entries if e[1] != k)
        return entries + (('del', k),)

    def dict_lookup(self, entries, k):
        """Returns term, None (definitely absent) or ... (unknown)."""
        for e in reversed(entries):
            if e[0] == 'kv':
                if e[1] == k:
                    return e[2]
                if is_const(e[1]) and is_const(k):
                    continue
                return ...
            if e[0] == 'del':
                if e[1] == k:
                    return None
                if is_const(e[1]) and is_const(k):
                    continue
                return ...
            return ...
        return None

    def dict_base(self, entries, k):
        """The mapping that k would come from, if nothing after it may have it, or None."""
        if not entries or entries[0][0] != 'spread' or self.dict_lookup(entries[1:], k) is not None or any(
                e[0] == 'del' and e[1] == k for e in entries[1:]):
            return None
        return entries[0][1]

    def dict_merge(self, st, entries, b):
        o = self.obj(st, b)
        if o and o[0] == 'dict':
            for e in o[1]:
                if e[0] == 'kv':
                    entries = self.dict_set(entries, e[1], e[2])
                else:
                    entries = entries + (e,)
            return entries
        return entries + (('spread', b),)

    def spread(self, st, t):
        """List segments for ``*t`` / ``extend(t)``."""
        o = self.obj(st, t)
        if o and o[0] in ('list', 'set', 'gen'):
            return o[1]
        if t[0] == 'tuple':
            return tuple(('one', x) for x in t[1])
        if t[0] == 'call' and t[1] in ('builtins.list', 'builtins.iter', 'copy.copy', 'builtins.tuple') and t[2]:
            return self.spread(st, t[2][0][1])
        return (('spread', t),)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unsupported.append(type(n).__name__)
            return [(st, ('fresh', self.new_uid(), type(n).__name__))]
        return m(n, st)

    def ev_all(self, nodes, st):
        """Evaluates nodes left to right. Returns [(st, [terms])]."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, ts in res:
                if isinstance(n, ast.Starred):
                    nxt += [(s2, ts + [('star', t)]) for s2, t in self.ev(n.value, s)]
                else:
                    nxt += [(s2, ts + [t]) for s2, t in self.ev(n, s)]
            res = nxt
            self.check(len(res))
        return res

    def e_Constant(self, n, st):
        return [(st, K(n.value))]

    def e_Name(self, n, st):
        return [(st, self.name(st, n.id))]

    def e_NamedExpr(self, n, st):
        return [(s2, v) for s, v in self.ev(n.value, st) for s2 in self.assign(n.target, v, s)]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_JoinedStr(self, n, st):
        self.nofork += 1
        try:
            res = [(st, [])]
            for v in n.values:
                nxt = []
                for s, parts in res:
                    if isinstance(v, ast.Constant):
                        nxt.append((s, parts + [K(v.value)]))
                    else:
                        for s2, t in self.ev(v.value, s):
                            if v.format_spec is not None or v.conversion in (114, 97):
                                spec = ast.dump(v.format_spec) if v.format_spec else str(v.conversion)
                                t = ('fspec', t, spec)
                            nxt.append((s2, parts + [t]))
                res = nxt
        finally:
            self.nofork -= 1
        return [(s, mk_fmt(p)) for s, p in res]

    def e_Tuple(self, n, st):
        out = []
        for s, ts in self.ev_all(n.elts, st):
            if any(t[0] == 'star' for t in ts):
                segs = ()
                for t in ts:
                    segs += self.spread(s, t[1]) if t[0] == 'star' else (('one', t),)
                if all(x[0] == 'one' for x in segs):
                    out.append((s, ('tuple', tuple(x[1] for x in segs))))
                else:
                    out.append(self.alloc(s, ('list', segs)))
            else:
                out.append((s, ('tuple', tuple(ts))))
        return out

    def e_List(self, n, st, kind='list'):
        out = []
        for s, ts in self.ev_all(n.elts, st):
            segs = ()
            for t in ts:
                segs += self.spread(s, t[1]) if t[0] == 'star' else (('one', t),)
            out.append(self.alloc(s, (kind, segs)))
        return out

    def e_Set(self, n, st):
        return self.e_List(n, st, 'set')

    def e_Dict(self, n, st):
        res = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ent in res:
                if k is None:
                    for s2, t in self.ev(v, s):
                        nxt.append((s2, self.dict_merge(s2, ent, t)))
                else:
                    for s2, kt in self.ev(k, s):
                        for s3, vt in self.ev(v, s2):
                            nxt.append((s3, self.dict_set(ent, kt, vt)))
            res = nxt
        return [self.alloc(s, ('dict', ent)) for s, ent in res]

    def e_BinOp(self, n, st):
        op = self.BIN[type(n.op)]
        out = []
        for s, a in self.ev(n.left, st):
            for s2, b in self.ev(n.right, s):
                out += self.binop(op, a, b, s2, n)
        return out

    def binop(self, op, a, b, st, n):
        oa, ob = self.obj(st, a), self.obj(st, b)
        if op == '+':
            la = oa and oa[0] == 'list'
            lb = ob and ob[0] == 'list'
            if la or lb:
                return [self.alloc(st, ('list', self.spread(st, a) + self.spread(st, b)))]
        if op == '|' and ((oa and oa[0] in ('dict', 'set')) or (ob and ob[0] in ('dict', 'set'))):
            kind = (oa or ob)[0]
            if kind == 'dict':
                return [self.alloc(st, ('dict', self.dict_merge(st, self.dict_merge(st, (), a), b)))]
            return [self.alloc(st, ('set', self.spread(st, a) + self.spread(st, b)))]
        if op == '%' and a[0] == 'const' and a[1] == 'str':
            pieces = a[2].split('%s')
            args = list(b[1]) if b[0] == 'tuple' else [b]
            if len(pieces) == len(args) + 1 and '%' not in ''.join(pieces):
                parts = []
                for i, p in enumerate(pieces):
                    parts.append(K(p))
                    if i < len(args):
                        parts.append(args[i])
                return [(st, mk_fmt(parts))]
        return [(st, mk_bin(op, a, b))]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            if self.nofork:
                return [(s, ('not', t)) for s, t in self.ev(n.operand, st)]
            return [(s, K(not r)) for s, r in self.cond(n.operand, st)]
        out = []
        for s, t in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                out.append((s, mk_bin('-', K(0), t)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, t))
            else:
                out.append((s, ('bin', '~', t, NONE)))
        return out

    def e_BoolOp(self, n, st):
        if self.nofork:
            return [(s, ('and' if isinstance(n.op, ast.And) else 'or', tuple(ts)))
                    for s, ts in self.ev_all(n.values, st)]
        stop = isinstance(n.op, ast.Or)
        out, live = [], [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in live:
                for s2, t in self.ev(v, s):
                    if last:
                        out.append((s2, t))
                        continue
                    for s3, r in self.truth_branch(s2, t):
                        if r == stop:
                            out.append((s3, t))
                        else:
                            nxt.append(s3)
            live = nxt
        return self.merge_v(out)

    def e_Compare(self, n, st):
        if self.nofork:
            out = []
            for s, ts in self.ev_all([n.left] + n.comparators, st):
                cs = tuple(('cmp', self.OPS[type(op)], ts[i], ts[i + 1]) for i, op in enumerate(n.ops))
                out.append((s, cs[0] if len(cs) == 1 else ('and', cs)))
            return out
        if len(n.ops) == 1 and self.is_model_prop(n.left, st):
            # a datastore filter, eg AtpBlock.seq >= 3
            return [(s, ('filter', self.OPS[type(n.ops[0])], ts[0], ts[1]))
                    for s, ts in self.ev_all([n.left, n.comparators[0]], st)]
        flip = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in flip and self.is_model_prop(n.comparators[0], st):
            # the same, eg 3 <= AtpBlock.seq
            return [(s, ('filter', self.OPS[flip[type(n.ops[0])]], ts[1], ts[0]))
                    for s, ts in self.ev_all([n.left, n.comparators[0]], st)]
        return [(s, K(r)) for s, r in self.compare(n, st)]

    def is_model_prop(self, n, st):
        if not isinstance(n, ast.Attribute):
            return False
        d = self.mod(st)._dotted(n.value)
        c = self.prog.cls(self.prog.canon(d)) if d else None
        return bool(c and any((b or '').endswith('ndb.Model') for k in self.prog.mro(c) for b in k.bases))

    def e_IfExp(self, n, st):
        if self.nofork:
            return [(s, ('ife',) + tuple(ts)) for s, ts in self.ev_all([n.test, n.body, n.orelse], st)]
        out = []
        res = self.cond(n.test, st)
        for r in (True, False):
            for s in self.merge([s for s, b in res if b == r]):
                out += self.ev(n.body if r else n.orelse, s)
        return self.merge_v(out)

    def e_Lambda(self, n, st):
        cid = self.new_uid()
        fd = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n.body)],
                             decorator_list=[], returns=None)
        ast.copy_location(fd, n)
        f = Func(self.mod(st), f'{self.cur_func(st)}.<lambda>', fd)
        self.closures[cid] = (f, self.cur(st))
        return [(st, ('func', cid, ()))]

    def e_Attribute(self, n, st):
        out = []
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and not v.args:
            # a bound method of the superclass, to be called later
            cls, selft = self.frame_cls(st), self.name(st, 'self')
            own = self.typeof(selft, st) or cls
            m = self.prog.find_method(own, n.attr, after=cls) if own and cls else None
            if m is not None:
                return [(st, ('super', m.full, selft))]
        for s, b in self.ev(n.value, st):
            out += self.attr(s, b, n.attr, n)
        return out

    def attr(self, st, b, attr, n):
        """Returns [(st, term)]."""
        if b[0] == 'glob':
            full = f'{b[1]}.{attr}'
            if b[1] in self.prog.modules:
                m = self.prog.modules[b[1]]
                if full in self.prog.modules:
                    return [(st, ('glob', full))]
                if attr in m.funcs or attr in m.classes:
                    return [(st, ('glob', full))]
                if attr in m.assigns or attr in m.volatile:
                    return [(st, self.read_global(st, m, attr))]
                if attr in m.imports:
                    return [(st, self.resolve_glob(st, m.imports[attr]))]
                g = st.globs.get(full)
                if g:
                    return [(st, g[0])]
                return [(st, ('glob', full))]
            top = self.prog.lookup(b[1])
            if isinstance(top, Class):
                ca = self.prog.find_class_attr(top, attr)
                if ca and not self.prog.find_method(top, attr) and not self.enum_members(('glob', full)):
                    v = self.prog.const_of(top.mod, ca[1])
                    if isinstance(v, (str, int, float, bool)):
                        return [(st, K(v))]
                return [(st, ('glob', full))]
            if b[1].split('.')[0] != 'arroba':
                return [(st, ('glob', full))]
            # attribute of a module variable
            return [(st, self.read_attr(st, b, attr))]
        if b[0] == 'nt':
            for f, v in b[2]:
                if f == attr:
                    return [(st, v)]
        c = self.typeof(b, st)
        if c and (b, attr) not in st.attrs:
            p = self.prog.find_method(c, attr)
            if p and any(isinstance(d, ast.Name) and d.id in ('property', 'cached_property') or
                         isinstance(d, ast.Attribute) and d.attr == 'cached_property'
                         for d in p.node.decorator_list):
                if p.qual in self.policy.inline_props and p.full not in self.callstack:
                    return self.inline(p, {'self': b}, st, n)
                known = KNOWN_PROPS.get(attr)
                if known is None:
                    # a property that a refactoring added
                    if p.full not in self.callstack:
                        return self.inline(p, {'self': b}, st, n)
        v = self.read_attr(st, b, attr)
        if attr in ('content', 'text') and v == ('attr', b, attr) and b[0] == 'call' and dict(b[2]).get('stream') == TRUE \
                and not any(e.kind == 'read' and e.res == v for e in st.events()):
            # the body of a streamed response is only downloaded now
            ev = Ev('read', st, n, self.mod(st), attr, {'self': b}, v)
            self.maybe_raise(st, ev)
            st = self.event(st, ev)
        return [(st, v)]

    def read_attr(self, st, b, attr):
        v = st.attrs.get((b, attr))
        if v is not None:
            return v
        o = self.obj(st, b)
        if o and o[0] == 'inst':
            c = self.prog.cls(o[1])
            ca = c and self.prog.find_class_attr(c, attr)
            if ca:
                v = self.prog.const_of(ca[0].mod, ca[1])
                if v is not ... and (v is None or isinstance(v, (str, int, bool, float))):
                    return K(v)
        return ('attr', b, attr)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            parts = []
            res = [(st, [])]
            for p in (n.lower, n.upper, n.step):
                nxt = []
                for s, ts in res:
                    if p is None:
                        nxt.append((s, ts + [NONE]))
                    else:
                        nxt += [(s2, ts + [t]) for s2, t in self.ev(p, s)]
                res = nxt
            return [(s, ('slice',) + tuple(ts)) for s, ts in res]
        return self.ev(n, st)

    def e_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            for s2, k in self.ev_index(n.slice, s):
                v = self.index(s2, b, k)
                s2 = self.lookup(s2, b, k, v, n)
                if s2 is not None:
                    out.append((s2, v))
        return out

    def lookup(self, st, b, k, v, n):
        """A subscription whose KeyError or IndexError is expected may fail."""
        if v[0] != 'item' or k[0] == 'slice':
            return st
        named = {t for ts in self.catching for t in ts}
        keyed = named & {'builtins.KeyError', 'builtins.LookupError'}
        if not keyed and 'builtins.IndexError' not in named:
            return st
        if not keyed or isinstance(cval(k), int):
            self.raise_(st, Exc('builtins.IndexError', ('exc', 'builtins.IndexError', self.new_uid()), node=n), n)
            return st
        atom = ('in', k, b)
        for s in [self.assume(st, atom, False)]:
            if s is not None:
                self.raise_(s, Exc('builtins.KeyError', ('exc', 'builtins.KeyError', self.new_uid()), node=n), n)
        return self.assume(st, atom, True)

    def index(self, st, b, k):
        i = cval(k)
        if isinstance(i, int) and not isinstance(i, bool):
            if b[0] == 'tuple' and -len(b[1]) <= i < len(b[1]):
                return b[1][i]
            if b[0] == 'nt' and -len(b[2]) <= i < len(b[2]):
                return b[2][i][1]
            if b[0] == 'const' and isinstance(b[2], (str, tuple)) and -len(b[2]) <= i < len(b[2]):
                return K(b[2][i])
            o = self.obj(st, b)
            if o and o[0] == 'list' and o[1]:
                if i >= 0 and all(x[0] == 'one' for x in o[1][:i + 1]) and i < len(o[1]):
                    return o[1][i][1]
                if i < 0 and all(x[0] == 'one' for x in o[1][i:]) and -i <= len(o[1]):
                    return o[1][i][1]
        o = self.obj(st, b)
        if o and o[0] == 'dict':
            v = self.dict_lookup(o[1], k)
            if v is not None and v is not ...:
                return v
            if v is ... and self.dict_base(o[1], k):
                return ('item', self.dict_base(o[1], k), k)
        if b[0] == 'tuple' and k[0] == 'slice':
            lo, hi, step = (cval(x) for x in k[1:])
            if ... not in (lo, hi, step):
                return ('tuple', b[1][lo:hi:step])
        return ('item', b, k)

    # -- comprehensions are loops that append
    def fusable(self, st, it):
        """The one ('loop', ...) segment of a comprehension that is iterated over, if each iteration makes at most one element."""
        o = self.obj(st, it)
        if not (o and o[0] in ('list', 'gen') and len(o[1]) == 1 and o[1][0][0] == 'loop'):
            return None
        seg = o[1][0]
        lp = self.loops.get(seg[1])
        if (lp is None or any(k[0] != 'heap' and v[0] is not None for k, v in lp.changed.items()) or seg[2] == NONE or lp.kind != 'for'
                or any(b.exit in ('break', 'return') for b in lp.bodies)
                or any(len(segs) > 1 or any(g[0] != 'one' for g in segs) for _, segs in seg[3])):
            return None
        return seg

    def bind_fused(self, target, seg, st, lid):
        """Iterates over a comprehension's source instead, with its conditions."""
        starts, skipped = [], []
        sts = self.foralls(st, seg[2], lid)
        if not sts:
            return [], []
        for facts, segs in seg[3]:
            s = sts[0]
            for k, v in facts:
                k2 = _relid(k, seg[1], lid)
                if k2 == k:
                    continue
                if k[0] == 'lin':
                    t = mk_sum(_vec(k2[1]), 0)
                    lo, ls, hi, hs, ex = v
                    for op, x in ([('>' if ls else '>=', lo)] if lo is not None else []) + \
                            ([('<' if hs else '<=', hi)] if hi is not None else []) + [('!=', x) for x in ex]:
                        a, w = self.cmp_atom(s, op, t, K(x))
                        s = self.assume(s, a, w) if s is not None else None
                elif v in (True, False):
                    s = self.assume(s, k2, v)
                if s is None:
                    break
            if s is None:
                continue
            if segs:
                starts += self.assign(target, _relid(segs[0][1], seg[1], lid), s)
            else:
                skipped.append(s)
        return starts, skipped

    def comp(self, n, st, kind, elt):
        st, res = self.alloc(st, (kind, ()))
        gens = n.generators
        f = Func(self.mod(st), self.cur_func(st), n)
        fid = self.new_frame(self.cur(st), self.mod(st), self.cur_func(st))
        outer = self.cur(st)
        st = st.set(frames={**st.frames, fid: {}, 'cur': fid})
        body = elt(res)

        def build(i):
            if i == len(gens):
                return [body]
            g = gens[i]
            inner = build(i + 1)
            for c in reversed(g.ifs):
                inner = [ast.copy_location(ast.If(test=c, body=inner, orelse=[]), n)]
            return [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=inner, orelse=[]), n)]
        out = []
        for o in self.exec_block(build(0), st):
            s = o[1]
            out.append((s.set(frames={**s.frames, 'cur': outer}), res))
        return self.merge_v(out)

    def e_ListComp(self, n, st, kind='list'):
        return self.comp(n, st, kind, lambda r: _CompAppend(r, n.elt, n))

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st, 'gen')

    def e_SetComp(self, n, st):
        return self.e_ListComp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict', lambda r: _CompSet(r, n.key, n.value, n))

    def x__CompAppend(self, n, st):
        out = []
        for s, v in self.ev(n.elt, st):
            o = self.obj(s, n.res)
            out.append(self.mutate(s, n.res, (o[0], o[1] + (('one', v),))))
        return self.falls(out)

    def x__CompSet(self, n, st):
        out = []
        for s, k in self.ev(n.key, st):
            for s2, v in self.ev(n.value, s):
                o = self.obj(s2, n.res)
                out.append(self.mutate(s2, n.res, ('dict', self.dict_set(o[1], k, v))))
        return self.falls(out)

    # -- generators
    def e_Yield(self, n, st):
        out = []
        for s, v in (self.ev(n.value, st) if n.value else [(st, NONE)]):
            ev = Ev('yield', s, n, self.mod(s), 'yield', {'value': v})
            self.maybe_raise(s, ev)
            s = self.event(s.set(epoch=s.epoch + 1), ev)
            out.append((s, ('sent', self.new_uid())))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        # yield from helper(...) where helper is one of ours: inline its body
        for s, v in self.ev_call(n.value, st, yieldfrom=True) if isinstance(n.value, ast.Call) \
                else self.ev(n.value, st):
            if v[0] == 'inlined':
                out.append((s, v[1]))
                continue
            if v[0] == 'obj' or (v[0] == 'call' and v[1] == 'builtins.iter'):
                # each element in turn
                fid = self.new_frame(self.cur(s), self.mod(s), self.cur_func(s))
                outer = self.cur(s)
                s = s.set(frames={**s.frames, fid: {}, 'cur': fid})
                loc = lambda x: ast.copy_location(x, n)
                f = loc(ast.For(target=loc(ast.Name('_each', ast.Store())), iter=n.value, body=[
                    loc(ast.Expr(loc(ast.Yield(loc(ast.Name('_each', ast.Load()))))))], orelse=[]))
                for o in self.loop(f, s, v):
                    out.append((o[1].set(frames={**o[1].frames, 'cur': outer}), NONE))
                continue
            ev = Ev('yieldfrom', s, n, self.mod(s), 'yieldfrom', {'value': v})
            self.maybe_raise(s, ev)
            out.append((self.event(s.set(epoch=s.epoch + 1), ev), NONE))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        return self.ev_call(n, st)

    def ev_call(self, n, st, yieldfrom=False):
        self.calls_seen += 1
        f = n.func
        out = []
        if isinstance(f, ast.Name) and f.id == 'dict' and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(n.args[0].elt, ast.Tuple) \
                and len(n.args[0].elt.elts) == 2 and not any(isinstance(x, ast.Starred) for x in n.args[0].elt.elts) \
                and all(t == ('glob', 'builtins.dict') for _, t in self.ev(f, st)):
            # the same as a comprehension
            g = n.args[0]
            k, v = g.elt.elts
            return self.comp(g, st, 'dict', lambda r: _CompSet(r, k, v, n))
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            callees = [(st, ('super', f.attr))]
        elif isinstance(f, ast.Attribute):
            callees = []
            for s, b in self.ev(f.value, st):
                if b[0] == 'glob' or (b[0] == 'gv'):
                    if b[0] == 'glob' and (b[1] in self.prog.modules
                                           or isinstance(self.prog.lookup(b[1]), Class)
                                           or b[1].split('.')[0] not in ('arroba', 'app', 'scripts')):
                        for s2, t in self.attr(s, b, f.attr, f):
                            callees.append((s2, t))
                        continue
                if f.attr in ('append', 'extend', 'insert') and isinstance(f.value, ast.Name) \
                        and (b[0] == 'item' and b[2][0] == 'slice' or b[:2] == ('call', 'copy.copy')) \
                        and f.value.id in s.frames[s.frames['cur']]:
                    # a slice is a new list, so changes to it are only its own
                    s, b = self.alloc(s, ('list', (('spread', b),)))
                    s = self.bind(s, f.value.id, b)
                callees.append((s, ('bound', b, f.attr)))
        else:
            callees = self.ev(f, st)
        for s, callee in callees:
            if self.is_log(callee) and not self.policy.log:
                # arguments only matter to rules about logging
                out.append((s, NONE))
                continue
            logging = self.is_log(callee)
            if callee == ('glob', 'builtins.next') and len(n.args) in (1, 2) and not n.keywords \
                    and isinstance(n.args[0], ast.GeneratorExp) and not self.nofork:
                out += self.search(n, s)
                continue
            if logging:
                self.nofork += 1
            try:
                argres = self.ev_args(n, s)
            finally:
                if logging:
                    self.nofork -= 1
            for s2, args, kw in argres:
                out += self.call(s2, callee, args, kw, n, yieldfrom)
        return self.merge_v(out)

    def is_log(self, callee):
        if callee[0] == 'bound' and callee[2] in LOG_METHODS:
            b = callee[1]
            return (b[0] in ('glob', 'gv') and b[1].split('.')[-1] in ('logger', 'logging', 'log')) or (
                b[0] == 'call' and b[1] == 'logging.getLogger') or (
                b[0] == 'attr' and b[2] == 'logger')
        if callee[0] == 'glob':
            parts = callee[1].split('.')
            return parts[-1] in LOG_METHODS and len(parts) > 1 and parts[-2] in ('logger', 'logging')
        return False

    def ev_args(self, n, st):
        res = []
        for s, args in self.ev_all(n.args, st):
            cur = [(s, args, [])]
            for kwd in n.keywords:
                nxt = []
                for s2, a, kws in cur:
                    for s3, v in self.ev(kwd.value, s2):
                        nxt.append((s3, a, kws + [(kwd.arg, v)]))
                cur = nxt
            res += cur
        # expand known stars
        out = []
        for s, a, kws in res:
            a2 = []
            for t in a:
                if t[0] == 'star':
                    el = self.known_elems(s, t[1])
                    if el is not None:
                        a2 += el
                        continue
                a2.append(t)
            k2 = []
            for name, v in kws:
                if name is None:
                    o = self.obj(s, v)
                    if o and o[0] == 'dict' and all(e[0] == 'kv' and cval(e[1]) is not ... for e in o[1]):
                        k2 += [(cval(e[1]), e[2]) for e in o[1]]
                        continue
                    if o and o[0] == 'dict' and o[1] and all(e[0] in ('kv', 'spread') for e in o[1]):
                        for e in o[1]:
                            if e[0] == 'spread':
                                k2.append((None, e[1]))
                            elif isinstance(cval(e[1]), str):
                                k2.append((cval(e[1]), e[2]))
                        continue
                k2.append((name, v))
            out.append((s, a2, k2))
        return out

    def call(self, st, callee, args, kw, n, yieldfrom=False):
        """Dispatches a call. Returns [(st, term)]."""
        k = callee[0]
        if k == 'super' and len(callee) == 3:
            m = self.prog.lookup(callee[1])
            return self.call_func(st, m, [callee[2]] + args, kw, n, yieldfrom)
        if k == 'super':
            cls = self.frame_cls(st)
            selft = self.name(st, 'self')
            own = self.typeof(selft, st) or cls
            m = self.prog.find_method(own, callee[1], after=cls) if own and cls else None
            if m is None:
                return self.opaque(st, f'super.{callee[1]}', args, kw, n, recv=selft)
            return self.call_func(st, m, [selft] + args, kw, n, yieldfrom)
        if k == 'func':
            f, fid = self.closures[callee[1]]
            decos = tuple(('deco', d) for d in (callee[2] if len(callee) > 2 else ()))
            return self.call_func(st, f, args, kw, n, yieldfrom, parent=fid, extra_ctx=decos, closure=True)
        if k == 'glob':
            return self.call_glob(st, callee[1], args, kw, n, yieldfrom)
        if k == 'bound':
            return self.call_method(st, callee[1], callee[2], args, kw, n, yieldfrom)
        if k == 'call' and callee[1] == 'functools.partial':
            pre = [v for kk, v in callee[2] if isinstance(kk, int)]
            prek = [(kk, v) for kk, v in callee[2] if isinstance(kk, str)]
            return self.call(st, pre[0], pre[1:] + args, prek + kw, n, yieldfrom)
        if k == 'attr':
            return self.call_method(st, callee[1], callee[2], args, kw, n, yieldfrom)
        if k == 'call' and not args and kw == []:
            pass
        return self.opaque(st, '()', args, kw, n, recv=callee)

    def frame_cls(self, st):
        fid = self.cur(st)
        while fid is not None:
            f = self.frame_func_obj.get(fid)
            if f is not None and f.cls is not None:
                return f.cls
            fid = self.frame_parent.get(fid)
        return None

    def call_glob(self, st, name, args, kw, n, yieldfrom):
        name = self.prog.canon(name)
        target = self.prog.lookup(name)
        if isinstance(target, Func):
            if target.cls is not None:
                decos = {getattr(d, 'id', None) for d in target.node.decorator_list}
                cn = name.rsplit('.', 1)[0]
                if 'classmethod' in decos:
                    args = [('glob', cn)] + args
                # plain methods called through the class get self explicitly
            return self.call_func(st, target, args, kw, n, yieldfrom)
        if isinstance(target, Class):
            return self.construct(st, target, args, kw, n)
        if name == 'copy.copy' and len(args) == 1:
            o = self.obj(st, args[0])
            if o and o[0] in ('list', 'dict', 'set'):
                return [self.alloc(st, o)]
        if name in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
            return [(st, ('call', name, ((0, args[0]),), None))]
        if name == 'builtins.dict':
            ent = ()
            for a in args:
                ent = self.dict_merge(st, ent, a[1] if a[0] == 'star' else a)
            for kk, v in kw:
                ent = self.dict_set(ent, K(kk), v) if kk else self.dict_merge(st, ent, v)
            return [self.alloc(st, ('dict', ent))]
        if name in ('builtins.list', 'builtins.set'):
            segs = self.spread(st, args[0]) if args else ()
            return [self.alloc(st, (name[9:], segs))]
        if name == 'builtins.tuple' and len(args) == 1:
            el = self.known_elems(st, args[0])
            if el is not None:
                return [(st, ('tuple', tuple(el)))]
        if name == 'builtins.str' and len(args) == 1:
            return [(st, mk_fmt([args[0]]))]
        if name == 'builtins.len' and len(args) == 1:
            el = self.known_elems(st, args[0])
            if el is not None:
                return [(st, K(len(el)))]
            if args[0][0] == 'const':
                try:
                    return [(st, K(len(args[0][2])))]
                except TypeError:
                    pass
        if name == 'builtins.getattr' and len(args) >= 2 and isinstance(cval(args[1]), str):
            return self.attr(st, args[0], cval(args[1]), n)
        if name == 'builtins.setattr' and len(args) == 3 and isinstance(cval(args[1]), str):
            return [(self.store_attr(st, args[0], cval(args[1]), args[2], n), NONE)]
        if name == 'builtins.isinstance' and len(args) == 2 and not self.nofork:
            return [(s, K(r)) for s, r in self.branch(st, self.isinst_atom(st, args[0], args[1]))]
        if name == 'builtins.bool' and len(args) == 1 and not self.nofork:
            return [(s, K(r)) for s, r in self.truth_branch(st, args[0])]
        if name == 'builtins.next' and args:
            return self.first(st, args, n) or self.opaque(st, name, args, kw, n)
        if name in ('builtins.min', 'builtins.max') and len(args) > 1 and not kw:
            args = sorted(args, key=tid)
        if name in PURE_GLOBS and name not in self.policy.opaque or self.is_exc_class(name):
            return [(st, ('call', name, _pack(args, kw), None))]
        return self.opaque(st, name, args, kw, n, pure=name in self.policy.pure)

    def is_exc_class(self, name):
        if name in EXT_EXC_BASES:
            return True
        if name.startswith('builtins.'):
            c = getattr(builtins, name[9:], None)
            return isinstance(c, type) and issubclass(c, BaseException)
        c = self.prog.cls(name)
        return bool(c) and any(self.is_exc_class(b) for b in c.bases if b and b != name)

    def construct(self, st, c, args, kw, n):
        if self.is_exc_class(c.full):
            return [(st, ('call', c.full, _pack(args, kw), None))]
        if c.fields is not None:
            vals = dict(zip(c.fields, args))
            for kk, v in kw:
                if kk is None:
                    for f in c.fields:
                        if f not in vals:
                            vals[f] = ('item', v, K(f))
                else:
                    vals[kk] = v
            if any(a[0] == 'star' for a in args):
                return self.opaque(st, c.full, args, kw, n)
            for f in c.fields:
                if f not in vals and f in c.defaults:
                    vals[f] = self.default(c.mod, c.defaults[f])
                vals.setdefault(f, ('missing', f))
            return [(st, ('nt', c.full, tuple((f, vals[f]) for f in c.fields)))]
        init = self.prog.find_method(c, '__init__')
        bases = [b for k in self.prog.mro(c) for b in k.bases if b]
        if c.full in self.policy.opaque:
            if init:
                bound = self.bind_args(st, init, [('new', c.full)] + args, kw)
                bound.pop('self', None)
                return self.opaque(st, c.full, [], list(bound.items()), n)
            return self.opaque(st, c.full, args, kw, n)
        if init is None:
            ext = [b for b in bases if not self.prog.cls(b) and b != 'builtins.object']
            if ext:
                # eg ndb models: constructor keyword arguments
                return self.opaque(st, c.full, args, kw, n)
            return [self.alloc(st, ('inst', c.full))]
        st, t = self.alloc(st, ('inst', c.full))
        ev = Ev('new', st, n, self.mod(st), c.full, dict(_pack(args, kw)), res=t)
        st = self.event(st, ev)
        return [(s, t) for s, _ in self.call_func(st, init, [t] + args, kw, n, force=True)]

    def default(self, mod, node):
        v = self.prog.const_of(mod, node)
        if v is not ... and (v is None or isinstance(v, (str, int, float, bool, bytes))):
            return K(v)
        if isinstance(v, tuple):
            return ('tuple', tuple(K(x) for x in v))
        if isinstance(node, (ast.Attribute, ast.Name)):
            d = mod._dotted(node)
            if d:
                return ('glob', self.prog.canon(d))
        if isinstance(node, ast.Call):
            d = mod._dotted(node.func)
            return ('call', d or '?', tuple(
                [(i, self.default(mod, a)) for i, a in enumerate(node.args)] +
                [(k.arg, self.default(mod, k.value)) for k in node.keywords]), None)
        return ('default', ast.dump(node))

    def bind_args(self, st, func, args, kw):
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        rest = []
        stars = None
        for i, v in enumerate(args):
            if v[0] == 'star':
                stars = v[1]
                for j, p in enumerate(params[i:]):
                    env[p] = ('item', v[1], K(j))
                break
            if i < len(params):
                env[params[i]] = v
            else:
                rest.append(v)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = ()
        spreads = []
        for name, v in kw:
            if name is None:
                spreads.append(v)
            elif name in params or name in kwonly:
                env[name] = v
            else:
                extra += (('kv', K(name), v),)
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p not in env:
                di = i - (len(params) - nd)
                dflt = self.default(func.mod, a.defaults[di]) if di >= 0 else None
                if spreads:
                    env[p] = ('kwget', spreads[0], K(p), dflt or ('missing', p))
                else:
                    env[p] = dflt or ('missing', p)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in env:
                dflt = self.default(func.mod, d) if d is not None else ('missing', p)
                env[p] = ('kwget', spreads[0], K(p), dflt) if spreads else dflt
        if a.vararg:
            if stars is not None:
                env[a.vararg.arg] = stars if not rest else ('tuple', tuple(rest) + (('star', stars),))
            else:
                env[a.vararg.arg] = ('tuple', tuple(rest))
        if a.kwarg:
            env['**' + a.kwarg.arg] = (extra, tuple(spreads))
        elif extra:
            for e in extra:
                env.setdefault('?' + str(e[1][2]), e[2])
        return env

    def call_func(self, st, f, args, kw, n, yieldfrom=False, parent=None, extra_ctx=(),
                  closure=False, force=False):
        """Calls one of the repository's functions."""
        opaque = (f.full in self.policy.opaque or f.qual in self.policy.opaque
                  or f.node.name in self.policy.opaque)
        depth = len(self.callstack)
        recursive = f.full in self.callstack or (id(f.node) in self.stack_nodes())
        abstract = _is_abstract(f.node)
        gen = f.is_gen and not yieldfrom and not (f.full in self.policy.inline_gens)
        if not force and (opaque or abstract or gen):
            return self.opaque_func(st, f, args, kw, n)
        if recursive or depth >= self.policy.depth + (2 if closure else 0):
            return self.opaque_func(st, f, args, kw, n)
        env = self.bind_args(st, f, args, kw)
        for key in [k for k in env if k.startswith('**')]:
            ent, spreads = env.pop(key)
            for s in spreads:
                ent = ent + (('spread', s),)
            st, t = self.alloc(st, ('dict', ent))
            env[key[2:]] = t
        for key in [k for k in env if k.startswith('?')]:
            env.pop(key)
        res = self.inline(f, env, st, n, parent, extra_ctx)
        if yieldfrom:
            return [(s, ('inlined', v)) for s, v in res]
        return res

    def stack_nodes(self):
        return self._stack_nodes

    _stack_nodes = ()

    def inline(self, f, env, st, n, parent=None, extra_ctx=()):
        outs = self.exec_func(f, env, st, n, self.mod(st), parent=parent, extra_ctx=extra_ctx)
        return self.merge_v([(s, v) for k, s, v in outs])

    def exec_func(self, f, env, st, n, callmod, entry=False, parent=None, extra_ctx=()):
        self.funcs_seen.add(f.full)
        fid = self.new_frame(parent, f.mod, f.full)
        self.frame_func_obj[fid] = f
        g, nl = set(), set()
        for x in _walk_own(f.node):
            if isinstance(x, ast.Global):
                g.update(x.names)
            elif isinstance(x, ast.Nonlocal):
                nl.update(x.names)
        self.frame_globals[fid] = g
        self.frame_nonlocals[fid] = nl
        outer = st.frames.get('cur')
        ctx0 = st.ctx
        exc0 = st.exc
        st = st.set(frames={**st.frames, fid: env, 'cur': fid},
                    ctx=st.ctx + (('fn', f.full),) + extra_ctx)
        # decorators run around the body
        decos = ()
        for d in ([] if extra_ctx else f.node.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                continue
            sv = st.set(frames={**st.frames, 'cur': self.module_frame(st, f.mod)})
            sv.frames[sv.frames['cur']] = {}
            self.nofork += 1
            try:
                (s2, v), = self.ev(d, sv)[:1]
            finally:
                self.nofork -= 1
            decos += (('deco', v),)
        st = st.set(ctx=st.ctx + decos)
        self.callstack.append(f.full)
        saved = self._stack_nodes
        self._stack_nodes = saved + (id(f.node),)
        self.pending.append([])
        try:
            outs = self.exec_block(f.node.body, st)
        finally:
            self.callstack.pop()
            self._stack_nodes = saved
        raised = self.pending.pop()

        def leave(s):
            fr = {k: v for k, v in s.frames.items()}
            fr['cur'] = outer
            if not self.frame_captured(fid):
                fr.pop(fid, None)
            return s.set(frames=fr, ctx=ctx0, exc=exc0)
        res = []
        for k, s, v in outs:
            if k == 'fall':
                res.append(('return', leave(s) if not entry else s, NONE))
            elif k == 'return':
                res.append(('return', leave(s) if not entry else s, v))
        for s, e in raised:
            self.pending[-1].append((leave(s) if not entry else s, e))
        return res

    def module_frame(self, st, mod):
        key = f'mod:{mod.name}'
        self.frame_mod[key] = mod
        self.frame_parent[key] = None
        self.frame_func[key] = f'{mod.name}.<module>'
        return key

    def frame_captured(self, fid):
        return any(p == fid for f, p in self.closures.values())

    def new_frame(self, parent, mod, func):
        self.fid += 1
        fid = f'f{self.fid}'
        self.frame_parent[fid] = parent
        self.frame_mod[fid] = mod
        self.frame_func[fid] = func
        return fid

    def opaque_func(self, st, f, args, kw, n):
        env = self.bind_args(st, f, args, kw)
        flat = []
        for k, v in env.items():
            if k.startswith('**'):
                ent, spreads = v
                for e in ent:
                    flat.append((cval(e[1]), e[2]))
                for s in spreads:
                    flat.append(('**', s))
            else:
                flat.append((k.lstrip('?'), v))
        pure = f.full in self.policy.pure or f.qual in self.policy.pure
        return self.opaque(st, f.full, [], flat, n, pure=pure)

    def opaque(self, st, fn, args, kw, n, recv=None, pure=False):
        """A single effect."""
        packed = _pack(args, kw)
        if recv is not None:
            packed = (('self', recv),) + packed
        res = ('call', fn, packed, None if pure else self.new_uid())
        ev = Ev('call', st, n, self.mod(st), fn, dict(packed), res=res)
        me = dict(packed).get('self')
        if me is not None and not pure:
            # a method of a datastore entity that we don't look into may change what it holds
            cn = fn.rsplit('.', 1)
            if cn[0] == '?' or any(b.endswith('ndb.Model') for c_ in [self.prog.cls(cn[0])] if c_ for k in self.prog.mro(c_) for b in k.bases):
                new = self.prog.entity_writes(cn[-1])
                if new:
                    attrs = dict(st.attrs)
                    for a in sorted(new):
                        attrs[(me, a)] = ('attr', res, a)
                    st = st.set(attrs=attrs)
            elif len(cn) == 2 and cn[0] != '?' and cn[0] not in CACHING:
                # a method that we don't look into may change what we know its object's attributes to be
                new = {a for x, a in st.attrs if x == me} & set(self.prog.method_writes(cn[0], cn[1]))
                if new:
                    attrs = dict(st.attrs)
                    for a in sorted(new):
                        attrs[(me, a)] = ('attr', res, a)
                    st = st.set(attrs=attrs)
        self.maybe_raise(st, ev)
        # lock.acquire() / lock.release() as a context
        if recv is not None and fn.endswith('.acquire') and not args:
            st = self.event(st, ev)
            st = st.set(ctx=st.ctx + (('with', recv),), epoch=st.epoch + 1)
            return [(st, res)]
        if recv is not None and fn.endswith('.release'):
            ctx = list(st.ctx)
            for i in range(len(ctx) - 1, -1, -1):
                if ctx[i] == ('with', recv):
                    del ctx[i]
                    break
            st = self.event(st, ev)
            return [(st.set(ctx=tuple(ctx), epoch=st.epoch + 1), res)]
        st = self.event(st, ev)
        # library code that runs a callback passed to it, eg ndb.transaction(fn)
        if fn in CALLBACK_RUNNERS:
            for a in list(args) + [v for _, v in kw]:
                if a[0] == 'func':
                    extra = tuple(('deco', res) for _ in (0,))
                    f, fid = self.closures[a[1]]
                    out = []
                    s0 = st.set(ctx=st.ctx + extra)
                    for s, v in self.call_func(s0, f, [], [], n, parent=fid, extra_ctx=(('deco', res),), closure=True):
                        out.append((s.set(ctx=st.ctx), v))
                    return out
        return [(st, res)]

    def call_method(self, st, b, meth, args, kw, n, yieldfrom):
        o = self.obj(st, b)
        if o and o[0] in ('list', 'set', 'gen'):
            r = self.list_method(st, b, o, meth, args, kw, n)
            if r is not None:
                return r
        if o and o[0] == 'dict':
            r = self.dict_method(st, b, o, meth, args, kw, n)
            if r is not None:
                return r
        if meth == '_replace' and b[0] != 'nt' and not args and all(k for k, _ in kw):
            for m in self.prog.modules.values():
                for cl in m.classes.values():
                    if cl.fields and self.decide(st, ('isinst', b, cl.full)) is True:
                        b = ('nt', cl.full, tuple((f, self.read_attr(st, b, f)) for f in cl.fields))
        if b[0] == 'nt':
            if meth == '_replace':
                d = dict(b[2])
                d.update({k: v for k, v in kw if k})
                return [(st, ('nt', b[1], tuple(d.items())))]
            if meth == '_asdict':
                return [self.alloc(st, ('dict', tuple(('kv', K(f), v) for f, v in b[2])))]
        c = self.typeof(b, st)
        if c is None and b[0] == 'param' and b[1] == 'cls':
            c = self.self_cls
        if c:
            m = self.prog.find_method(c, meth)
            if m:
                decos = {getattr(d, 'id', None) for d in m.node.decorator_list}
                if 'staticmethod' in decos:
                    return self.call_func(st, m, args, kw, n, yieldfrom)
                if 'classmethod' in decos:
                    return self.call_func(st, m, [('glob', c.full)] + args, kw, n, yieldfrom)
                # a base class method overridden in subclasses is one abstract effect
                exact = b == ('param', 'self') or b[0] == 'obj'
                if not exact and any(meth in k.methods for k in self.prog.subclasses(c)):
                    return self.opaque_func(st, m, [b] + args, kw, n)
                return self.call_func(st, m, [b] + args, kw, n, yieldfrom)
            if (b, meth) in st.attrs:
                return self.call(st, st.attrs[(b, meth)], args, kw, n)
            if b[0] in ('obj', 'param') and self.prog.find_class_attr(c, meth):
                return self.opaque(st, '()', args, kw, n, recv=self.read_attr(st, b, meth))
        elif (b, meth) in st.attrs:
            return self.call(st, st.attrs[(b, meth)], args, kw, n)
        # strings
        cb = cval(b)
        if isinstance(cb, str):
            if meth == 'join' and len(args) == 1:
                el = self.known_elems(st, args[0])
                if el is not None:
                    parts = []
                    for i, e in enumerate(el):
                        if i:
                            parts.append(b)
                        parts.append(e)
                    return [(st, mk_fmt(parts))]
            if meth == 'format' and not kw:
                pieces = cb.split('{}')
                if len(pieces) == len(args) + 1 and '{' not in ''.join(pieces):
                    parts = []
                    for i, p in enumerate(pieces):
                        parts.append(K(p))
                        if i < len(args):
                            parts.append(args[i])
                    return [(st, mk_fmt(parts))]
            if all(is_const(a) for a in args) and not kw and meth in (
                    'lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'removeprefix',
                    'removesuffix', 'replace', 'lstrip', 'rstrip'):
                try:
                    v = getattr(cb, meth)(*[a[2] for a in args])
                    if isinstance(v, (str, bool)):
                        return [(st, K(v))]
                    if isinstance(v, list):
                        return [self.alloc(st, ('list', tuple(('one', K(x)) for x in v)))]
                except Exception:
                    pass
        if meth == 'encode' and not args and b[0] == 'const' and b[1] == 'str':
            return [(st, K(b[2].encode()))]
        # memo: dict-like .get is pure on plain values
        if meth == 'get' and 1 <= len(args) <= 2 and not kw and self.plain(b):
            d = args[1] if len(args) > 1 else NONE
            return [(st, ('get', b, args[0], d))]
        if meth == 'copy' and not args and not kw:
            ev_st = self.event(st, Ev('call', st, n, self.mod(st), '?.copy', {'self': b}))
            t = ('call', 'copy.copy', ((0, b),), None)
            return [(ev_st, t)]
        if meth in PURE_METHODS:
            t = ('call', f'?.{meth}', (('self', b),) + _pack(args, kw), None)
            if meth in ('keys', 'values', 'items') or True:
                return [(st, t)]
        # name methods on untyped library objects by their own name
        name = f'{c.full}.{meth}' if c else f'?.{meth}'
        return self.opaque(st, name, args, kw, n, recv=b)

    def plain(self, b):
        """Is b a plain value, as opposed to a client whose get() does I/O?"""
        if b[0] in ('glob', 'gv'):
            return b[1] in ('os.environ',)
        if b[0] == 'attr' and b[2] in ('memcache', 'client', 'session', 'mst'):
            return False
        if b[0] == 'call' and ('query' in b[1] or b[1].startswith('?.filter') or b[1].startswith('?.order')):
            return False
        return True

    def list_method(self, st, b, o, meth, args, kw, n):
        kind, segs = o[0], o[1]
        ev = lambda s: self.event(s, Ev('mutate', s, n, self.mod(s), f'{kind}.{meth}',
                                        {'self': b, **dict(_pack(args, kw))}))
        if meth in ('append', 'add') and len(args) == 1:
            return [(ev(self.mutate(st, b, (kind, segs + (('one', args[0]),)))), NONE)]
        if meth in ('extend',) or (meth == 'update' and kind == 'set'):
            return [(ev(self.mutate(st, b, (kind, segs + self.spread(st, args[0])))), NONE)]
        if meth == 'insert' and len(args) == 2 and args[0] == K(0):
            return [(ev(self.mutate(st, b, (kind, (('one', args[1]),) + segs))), NONE)]
        if meth == 'insert' and len(args) == 2:
            return [(ev(self.mutate(st, b, (kind, segs + (('unk', 'insert') + tuple(args),)))), NONE)]
        if meth == 'clear':
            return [(ev(self.mutate(st, b, (kind, ()))), NONE)]
        if meth in ('pop', 'remove', 'discard', 'sort', 'reverse', 'popleft', 'appendleft', 'extendleft'):
            res = ('popped', self.new_uid(), b)
            new = segs + (('unk', meth) + tuple(args),)
            if meth == 'pop' and not args and segs and segs[-1][0] == 'one':
                res, new = segs[-1][1], segs[:-1]
            elif meth == 'pop' and args == [K(0)] and segs and segs[0][0] == 'one':
                res, new = segs[0][1], segs[1:]
            elif meth in ('sort', 'reverse'):
                new = (('sorted' if meth == 'sort' else 'reversed', segs, _pack(args, kw)),)
            return [(ev(self.mutate(st, b, (kind, new))), res)]
        if meth == 'copy':
            return [self.alloc(st, o)]
        return None

    def dict_method(self, st, b, o, meth, args, kw, n):
        ent = o[1]
        ev = lambda s: self.event(s, Ev('mutate', s, n, self.mod(s), f'dict.{meth}',
                                        {'self': b, **dict(_pack(args, kw))}))
        if meth == 'get' and args:
            v = self.dict_lookup(ent, args[0])
            d = args[1] if len(args) > 1 else NONE
            if v is None:
                return [(st, d)]
            if v is not ...:
                return [(st, v)]
            return [(st, ('get', self.dict_base(ent, args[0]) or b, args[0], d))]
        if meth == 'update':
            for a in args:
                ent = self.dict_merge(st, ent, a)
            for k, v in kw:
                ent = self.dict_set(ent, K(k), v) if k else self.dict_merge(st, ent, v)
            return [(ev(self.mutate(st, b, ('dict', ent))), NONE)]
        if meth == 'pop' and args:
            v = self.dict_lookup(ent, args[0])
            d = args[1] if len(args) > 1 else ('missing', 'key')
            if v is None:
                return [(ev(st), d)]
            s = ev(self.mutate(st, b, ('dict', self.dict_del(ent, args[0]))))
            if v is ...:
                base = self.dict_base(ent, args[0])
                v = ('get', base or b, args[0], d) if len(args) > 1 or base is None else ('item', base, args[0])
            return [(s, v)]
        if meth == 'setdefault' and args:
            v = self.dict_lookup(ent, args[0])
            d = args[1] if len(args) > 1 else NONE
            if v is None:
                return [(ev(self.mutate(st, b, ('dict', self.dict_set(ent, args[0], d)))), d)]
            if v is not ...:
                return [(st, v)]
            t = ('setdefault', b, args[0], d)
            return [(ev(self.mutate(st, b, ('dict', ent + (('default', args[0], d),)))), t)]
        if meth == 'clear':
            return [(ev(self.mutate(st, b, ('dict', ()))), NONE)]
        if meth == 'copy':
            return [self.alloc(st, o)]
        if meth in ('items', 'values', 'keys'):
            return [(st, ('call', f'?.{meth}', (('self', b),), None))]
        return None


KNOWN_PROPS = {'did': 1, 'version': 1, 'cid': 1, 'encoded': 1, 'decoded': 1,
               'signing_key': 1, 'rotation_key': 1}
# classes whose objects' methods only change values that are derived from their other attributes (see M01.stores)
CACHING = ('arroba.mst.MST',)
CALLBACK_RUNNERS = frozenset(['google.cloud.ndb.transaction', 'google.cloud.ndb.non_transactional'])


class _CompAppend(ast.stmt):
    def __init__(self, res, elt, n):
        self.res, self.elt = res, elt
        self.lineno = n.lineno
        self._fields = ()


class _CompSet(ast.stmt):
    def __init__(self, res, key, value, n):
        self.res, self.key, self.value = res, key, value
        self.lineno = n.lineno
        self._fields = ()


def _walk_own(fn):
    """Walks a function's own statements, not nested functions'."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=0)
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=0)
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=0)


def _is_abstract(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
        return False
    e = body[0].exc
    if isinstance(e, ast.Call):
        e = e.func
    return isinstance(e, ast.Name) and e.id == 'NotImplementedError'


def _pack(args, kw):
    return tuple((i, v) for i, v in enumerate(args)) + tuple(
        sorted(((k if k is not None else '**', v) for k, v in kw), key=lambda x: x[0]))


def flat_events(events):
    for e in events:
        yield e
        if e.kind in ('loop', 'loopiter') and e.x is not None:
            for b in e.x.bodies:
                yield from flat_events(b.events)


def _mentions_lv(t, lid):
    return isinstance(t, tuple) and any(x and x[0] == 'lv' and x[1] == lid for x in subterms(t))


def _mentions_el(t, lid):
    return isinstance(t, tuple) and any(x and x[0] in ('elemof', 'keyof', 'valof') and x[2] == lid for x in subterms(t))


def _mentions(k, t):
    stack = [k]
    while stack:
        x = stack.pop()
        if x == t:
            return True
        if isinstance(x, tuple) and (not x or x[0] != 'const'):
            if len(x) == 4 and x[0] == 'call' and x[3] is not None and x is not k:
                continue    # this call's own result, whatever becomes of its arguments
            stack.extend(y for y in x if isinstance(y, tuple))
    return False


def fmt_may_be(t, s):
    """Could a formatted string be this one? Its constant parts have to be in it, in order."""
    i = 0
    for n, p in enumerate(t[1]):
        if p[0] == 'const' and isinstance(p[2], str):
            j = s.find(p[2], i)
            if j < 0 or n == 0 and j:
                return False
            i = j + len(p[2])
    return True


def _relid(t, old, new):
    if isinstance(t, tuple):
        if t and t[0] in ('elemof', 'keyof', 'valof') and t[2] == old:
            return (t[0], _relid(t[1], old, new), new)
        if t and t[0] == 'idx' and t[1] == old:
            return ('idx', new)
        if t and t[0] == 'const':
            return t
        return tuple(_relid(x, old, new) for x in t)
    return t


def _vec(pairs):
    out = {}
    for t, c in pairs:
        out[t] = out.get(t, 0) + c
    return out


def _is_len(t):
    return t[0] == 'call' and t[1] == 'builtins.len'


def _is_int(t):
    return _is_len(t) or t[0] == 'idx' or (t[0] == 'attr' and t[2] in ('seq', 'last_seq', 'status_code')) \
        or (t[0] == 'item' and t[2] == K('seq')) or (t[0] == 'param' and t[1] in ('cursor', 'start', 'seq', 'limit'))
