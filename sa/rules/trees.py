"""Merkle search trees: operations as edits of a node's entries."""
from .common import *
from ..interp import flat_events

MST = 'arroba.mst.MST'
LEAF = 'arroba.mst.Leaf'
KEY, VALUE = param('key'), param('value')
INL = tuple('MST.' + x for x in '''update_entry remove_entry append prepend slice splice_in
    replace_with_split at_index create_child create_parent new_tree create load __init__'''.split())
PURE = tuple(f'{MST}.{x}' for x in '''get_entries find_gt_or_equal_leaf_index get_layer
    attempt_get_layer split_around get_pointer'''.split()) + (
    'arroba.mst.leading_zeros_on_hash',)


class Unk(Exception):
    """A construct that the algebra doesn't understand."""


def last(fn):
    return fn.rsplit('.', 1)[-1]


def mcall(t, name):
    """A method's call as {parameter or position: argument}, or None."""
    if t[0] == 'call' and last(t[1]) == name and (t[1].startswith('?.') or t[1].startswith(MST)):
        return dict(t[2])
    return None


def marg(d, name, pos):
    """An argument of a call that may be of an untyped receiver."""
    return d.get(name, d.get(pos))


def entries_of(x):
    return ('call', f'{MST}.get_entries', (('self', x),), None)


def length_of(x):
    return ('call', 'builtins.len', ((0, entries_of(x)),), None)


class View:
    """One disjunct of a partition, read as lists of entries."""
    def __init__(self, r, p, st=None, cls=MST):
        self.r, self.p, self.st = r, p, st or r._st(p)
        self.attrs, self.heap = self.st.attrs, self.st.heap
        self.memo = {}

    # -- sequences: ('sl', X, lo, hi) or ('el', term)
    def seq(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = out = self._seq(t)
        return out

    def _seq(self, t):
        if t == NONE:
            raise Unk('None isn\'t a list')
        if t[0] != 'obj' and any((e.kind in ('setitem', 'delitem', 'mutate') or e.kind == 'call' and e.fn in (
                '?.append', '?.extend', '?.insert', '?.pop', '?.remove', '?.clear', '?.sort', '?.reverse')) and e.a.get('self') == t
                                 for e in flat_events(self.p.events)):
            raise Unk(f'{show(t)[:80]} is changed in place')
        d = mcall(t, 'get_entries')
        if d is not None:
            x = d['self']
            if (x, 'entries') in self.attrs and self.attrs[(x, 'entries')] != NONE:
                return self.seq(self.attrs[(x, 'entries')])
            return (('sl', x, K(0), length_of(x)),)
        if t[0] == 'attr' and t[2] == 'entries':
            return (('sl', t[1], K(0), length_of(t[1])),)
        if t[0] == 'obj':
            o = self.heap.get(t[1])
            if o is None or o[0] not in ('list', 'gen'):
                raise Unk(f'{show(t)} isn\'t a list')
            return self.segs(o[1])
        if t[0] in ('list', 'gen'):
            return self.segs(t[1])
        if t[0] == 'tuple':
            return tuple(('el', x) for x in t[1])
        if t[0] == 'item' and t[2][0] == 'slice':
            if t[2][3] not in (NONE, K(1)):
                raise Unk('a step')
            return self.cut(self.seq(t[1]), t[2][1], t[2][2])
        if t[0] == 'bin' and t[1] == '+':
            return self.join(self.seq(t[2]) + self.seq(t[3]))
        if t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple', 'copy.copy') and t[2]:
            return self.seq(t[2][0][1])
        if t[0] == 'call' and t[1] == '?.copy':
            return self.seq(dict(t[2])['self'])
        raise Unk(f'{show(t)[:80]} isn\'t understood as a list of entries')

    def segs(self, segs):
        out = ()
        for s in segs:
            if s[0] == 'one':
                out += (('el', s[1]),)
            elif s[0] == 'spread':
                out += self.seq(s[1])
            elif s[0] == 'loop' and len(s[3]) == 1 and s[3][0][1] == (('one', ('elemof', s[2], s[1])),) and not s[3][0][0]:
                out += self.seq(s[2])
            elif s[:2] in (('unk', 'setitem'), ('unk', 'insert'), ('unk', 'pop'), ('unk', 'delitem')):
                n = self.length(out)
                if s[1] == 'pop' and len(s) == 2:
                    s += (minus1(n),)
                if s[2][0] == 'slice':
                    if s[2][3] not in (NONE, K(1)):
                        raise Unk('a step')
                    lo, hi = s[2][1:3]
                    new = self.seq(s[3]) if s[1] == 'setitem' else ()
                else:
                    lo = self.lin(s[2])
                    if is_const(lo) and lo[2] < 0:
                        lo = mk_bin('+', n, lo)
                    hi = lo if s[1] == 'insert' else mk_bin('+', lo, K(1))
                    new = (('el', s[3]),) if s[1] in ('setitem', 'insert') else ()
                out = self.cut(out, K(0), lo) + new + self.cut(out, hi, NONE)
            else:
                raise Unk(f'a list segment {s[0]}')
        return self.join(out)

    def join(self, atoms):
        """Joins adjacent slices."""
        out = []
        for a in atoms:
            if out and a[0] == out[-1][0] == 'sl' and a[1] == out[-1][1] and diff_is(a[2], out[-1][3], 0):
                out[-1] = ('sl', a[1], out[-1][2], a[3])
            elif a[0] == 'sl' and diff_is(a[2], a[3], 0):
                pass
            else:
                out.append(a)
        return tuple(out)

    def length(self, atoms):
        n = K(0)
        for a in atoms:
            n = mk_bin('+', n, K(1) if a[0] == 'el' else mk_bin('-', a[3], a[2]))
        return n

    def lin(self, t):
        """Resolves the lengths of lists in a number."""
        def f(x):
            if x[0] == 'call' and x[1] == 'builtins.len' and len(x[2]) == 1:
                try:
                    a = self.seq(x[2][0][1])
                except Unk:
                    return x
                return self.length(a)
            return None
        v, k = linear(t)
        out = K(k)
        for x, co in v.items():
            out = mk_bin('+', out, mk_bin('*', f(x) or x, K(co)))
        return out

    def le(self, a, b):
        """a <= b, if it's certain."""
        d = mk_bin('-', b, a)
        if is_const(d):
            return d[2] >= 0
        v, k = linear(d)
        if k >= 0 and all(co > 0 and (_nonneg(x)) for x, co in v.items()):
            return True
        # positions that find_gt_or_equal_leaf_index returns are within the node
        if len(v) == 2 and k >= 0:
            (x, cx), (y, cy) = v.items()
            if cx < 0:
                x, cx, y, cy = y, cy, x, cx
            d = mcall(y, 'find_gt_or_equal_leaf_index')
            if cx == 1 and cy == -1 and d and x == length_of(d['self']):
                return True
        if self.r.cmp(self.st, '<=', a, b) or self.r.cmp(self.st, '<', minus1(a), b):
            return True
        # lists that aren't empty
        for x in self.sizes():
            y = mk_bin('-', d, x)
            if is_const(y) and y[2] >= -1:
                return True
        return None

    def sizes(self):
        """Lengths that are at least 1."""
        if 'sizes' not in self.memo:
            self.memo['sizes'] = ()
            out = []
            for k, v in self.st.facts.d.items():
                if k[0] == 'truth' and v is True:
                    try:
                        out.append(self.length(self.seq(k[1])))
                    except (Unk, TypeError):
                        pass
            self.memo = {'sizes': tuple(x for x in out if not is_const(x))}
        return self.memo['sizes']

    def cut(self, atoms, lo, hi):
        n = self.length(atoms)
        lo = K(0) if lo == NONE else self.lin(lo)
        hi = n if hi == NONE else self.lin(hi)
        for x in (lo, hi):
            if not is_const(x) and x != n and not self.le(K(0), x):
                raise Unk(f'slicing at {show(x)}, which may be negative')
        lo, hi = [mk_bin('+', n, x) if is_const(x) and x[2] < 0 else x for x in (lo, hi)]
        return self.join(self.drop(self.take(atoms, hi), lo))

    def take(self, atoms, n):
        if len(atoms) == 1 and atoms[0][0] == 'sl':
            a = atoms[0]
            return (('sl', a[1], a[2], mk_bin('+', a[2], n)),)
        out, pos = [], K(0)
        for a in atoms:
            end = mk_bin('+', pos, self.length((a,)))
            if self.le(end, n):
                out.append(a)
            elif self.le(n, pos):
                break
            elif a[0] == 'sl' and self.le(pos, n):
                out.append(('sl', a[1], a[2], mk_bin('+', a[2], mk_bin('-', n, pos))))
                break
            else:
                raise Unk(f'cutting a list at {show(n)}')
            pos = end
        return tuple(out)

    def drop(self, atoms, n):
        if len(atoms) == 1 and atoms[0][0] == 'sl':
            a = atoms[0]
            return (('sl', a[1], mk_bin('+', a[2], n), a[3]),)
        out, pos = [], K(0)
        for a in atoms:
            end = mk_bin('+', pos, self.length((a,)))
            if self.le(n, pos):
                out.append(a)
            elif self.le(end, n):
                pass
            elif a[0] == 'sl' and self.le(n, end):
                out.append(('sl', a[1], mk_bin('+', a[2], mk_bin('-', n, pos)), a[3]))
            else:
                raise Unk(f'cutting a list at {show(n)}')
            pos = end
        return tuple(out)

    # -- elements
    def elem(self, t):
        """(X, i) if t is the entry i of node X, else None."""
        if t[0] != 'item' or t[2][0] == 'slice':
            return None
        try:
            atoms = self.seq(t[1])
        except Unk:
            return None
        k = self.lin(t[2])
        if is_const(k) and not isinstance(k[2], int):
            return None
        if len(atoms) == 1 and atoms[0][0] == 'sl':
            a = atoms[0]
            base = a[3] if is_const(k) and k[2] < 0 else a[2]
            return a[1], mk_bin('+', base, k)
        if is_const(k) and atoms:
            a = atoms[-1] if k[2] < 0 else atoms[0]
            if a[0] == 'sl' and k[2] in (0, -1):
                return a[1], mk_bin('+', a[3] if k[2] < 0 else a[2], k)
        return None

    def canon(self, t):
        e = self.elem(t) if t[0] == 'item' else None
        return ('E',) + e if e else t

    def spelled(self, x, i):
        if ('sp', x, i) not in self.memo:
            out = set()
            for k in self.st.facts.d:
                for t in subterms(k):
                    if t[0] == 'item' and self.elem(t) == (x, i):
                        out.add(t)
            self.memo[('sp', x, i)] = out
        return self.memo[('sp', x, i)]

    def kind(self, x, i):
        """What entry i of node x is: leaf, tree, absent, or None if it's not known."""
        if self.r.cmp(self.st, '<', i, K(0)) or self.r.cmp(self.st, '>=', i, length_of(x)):
            return 'absent'
        for k, v in self.st.facts.d.items():
            if k[0] == 'truth' and v is False:
                try:
                    a = self.seq(k[1])
                except (Unk, TypeError):
                    continue
                # an empty slice from the start: its end is the start
                if len(a) == 1 and a[0][0] == 'sl' and a[0][1] == x and a[0][2] == K(0):
                    d = mk_bin('-', i, a[0][3])
                    if is_const(d) and d[2] < 0 or a[0][3] == length_of(x):
                        return 'absent'
        out = None
        for t in self.spelled(x, i):
            leaf = self.r.decide(self.st, ('isinst', t, LEAF))
            tree = self.r.decide(self.st, ('isinst', t, MST))
            if self.r.truth(self.st, t) is False or self.r.isnone(self.st, t):
                return 'absent'
            if not is_const(t[2]) and not self.le(K(0), i):
                continue   # may be an entry from the end
            if leaf or tree is False:
                out = 'leaf'
            elif tree or leaf is False:
                out = 'tree'
        return out

    def keq(self, x, i, key=KEY):
        """Is entry i's key this one?"""
        for t in self.spelled(x, i):
            for a in (('attr', t, 'key'), ('item', t, K(0))):
                r = self.r.cmp(self.st, '==', a, key)
                if r is not None:
                    return r
        return None

    def feasible(self):
        """False if this says that something isn't there which is."""
        for k, v in self.st.facts.d.items():
            if k[0] == 'truth' and v is False:
                t = k[1]
                try:
                    atoms = self.seq(t)
                except (Unk, TypeError):
                    continue
                if any(a[0] == 'el' for a in atoms):
                    return False
                if atoms and all(a[0] == 'sl' and diff_is(a[3], a[2], 0) is False and self.r.cmp(
                        self.st, '<', a[2], a[3]) for a in atoms):
                    return False
            if k[0] == 'truth' and v is True:
                try:
                    atoms = self.seq(k[1])
                except (Unk, TypeError):
                    continue
                if not atoms:
                    return False
        return True

    # -- edits
    def edits(self, atoms, x):
        """What a list of entries changes in node x: [(position, how many removed, [inserted])]."""
        pos, out, ins = K(0), [], []
        n = length_of(x)

        def close(upto):
            nonlocal ins
            k = mk_bin('-', upto, pos)
            if not is_const(k):
                raise Unk(f'replaces {show(k)} entries')
            at, k, new = pos, k[2], list(ins)
            if k < 0:
                out.append((at, k, new))
                ins = []
                return
            while new and k and self.elem(new[0]) == (x, at):
                new, at, k = new[1:], mk_bin('+', at, K(1)), k - 1
            while new and k and self.elem(new[-1]) == (x, mk_bin('+', at, K(k - 1))):
                new, k = new[:-1], k - 1
            if k or new:
                out.append((at, k, new))
            ins = []
        for a in atoms:
            if a[0] == 'el':
                ins.append(a[1])
            else:
                if a[1] != x:
                    raise Unk(f'entries of {show(a[1])[:60]}')
                close(a[2])
                pos = a[3]
        close(n)
        return out

    def tree(self, t):
        """The entries of a tree, as a sequence."""
        if t == SELF:
            return (('sl', SELF, K(0), length_of(SELF)),)
        if t[0] == 'obj' and (t, 'entries') in self.attrs:
            e = self.attrs[(t, 'entries')]
            return () if e == NONE else self.seq(e)
        raise Unk(f'{show(t)[:80]} isn\'t understood as a tree')


def _nonneg(x):
    return x[0] == 'call' and (x[1] == 'builtins.len' or last(x[1]) in (
        'find_gt_or_equal_leaf_index', 'get_layer', 'leading_zeros_on_hash'))


def views(r, paths):
    for p in paths:
        for st in r.cases(p):
            v = View(r, p, st)
            if v.feasible():
                yield p, v


def position(c, r, key=KEY, x=SELF):
    """The call that finds this key's position in this node."""
    for o in r.occs(lambda e: e.kind == 'call' and last(e.fn) == 'find_gt_or_equal_leaf_index'):
        d = o.ev.a
        if d.get('self') == x and marg(d, 'key', 0) == key:
            return o.ev.res
    c.unsure(f'{r.func.full} doesn\'t look up its position with find_gt_or_equal_leaf_index')
    return None


def minus1(t):
    return mk_bin('-', t, K(1))


def mrun(c, name, inline=(), opaque=(), **kw):
    return c.run(f'{MST}.{name}', MST, inline=INL + tuple(inline), pure=PURE, opaque=opaque, **kw)


def is_new_leaf(t, v=None, key=KEY, value=VALUE):
    if t[0] == 'nt' and fn_is(t[1], 'mst.Leaf'):
        d = dict(t[2])
        same = d.get('key') == key or v is not None and 'key' in d and v.r.cmp(v.st, '==', d['key'], key)
        return bool(same) and d.get('value') == value
    return False


def recursion(v, t, name, x, i, *args):
    """Is t the same operation on entry i of x?"""
    d = mcall(t, name)
    if d is None or v.elem(d['self']) != (x, i):
        return False
    return all(marg(d, n, k) == a for k, (n, a) in enumerate(args))


def half(v, t, x, i, n, key=KEY):
    """Is t half n of entry i of x, split around the key?"""
    if t[0] == 'item' and t[2] in (K(n), K(n - 2)):
        d = mcall(t[1], 'split_around')
        return bool(d) and v.elem(d['self']) == (x, i) and marg(d, 'key', 0) == key
    return False


def shown(edits):
    return '; '.join(f'at {show(a)} removes {k} and inserts [{", ".join(show(x) for x in ins)}]'
                     for a, k, ins in edits)[:300] or 'changes nothing'


def one_edit(ed, at, removed):
    """The inserted entries if there's exactly one edit, of this place; else None."""
    if len(ed) == 1 and diff_is(ed[0][0], at, 0) and ed[0][1] == removed:
        return ed[0][2]
    return None


def each(c, r, paths, inst, decide, msg):
    """Checks every disjunct of these partitions. decide returns True, False, None (unknown) or (False, message)."""
    n = 0
    for p, v in views(r, paths):
        n += 1
        try:
            ok = decide(p, v)
        except Unk as e:
            c.unsure(f'{inst}: {e}')
            continue
        m = msg
        if isinstance(ok, tuple):
            ok, m = ok[0], f'{msg}: {ok[1]}'
        if ok is None:
            c.unsure(f'{inst}: can\'t tell whether {msg}')
            continue
        c.ob(inst, ok, p.value_ev if hasattr(p, 'value_ev') else r, m, p)
    return n


@rules('M02', explanation=(
    'Abstract interpretation of every tree operation. Lists of entries are abstracted to concatenations of slices '
    'of a node\'s entries and single entries, with symbolic positions, so that each partition of an operation is an '
    'edit: the entries that it removes and inserts, and where. Each edit is compared with the one that the '
    'partition\'s conditions (what the entries at and before the key\'s position are) call for. Nothing is executed.'),
    assumptions=('a node\'s entries are leaves and trees, in key order, as N01 says',))
def m02_update(c):
    c.rule('M02.update', 'update replaces the leaf of its key, or updates the subtree before its position, and otherwise fails')
    r = mrun(c, 'update')
    g = position(c, r)
    if g is None:
        return
    prev = minus1(g)

    def ret(p, v):
        ed = v.edits(v.tree(p.value), SELF)
        at, pk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.keq(SELF, g)
        found = at == 'leaf' and eq
        if not ed and found and any(v.r.cmp(v.st, '==', a, VALUE) is True
                                    for t in v.spelled(SELF, g) for a in (('attr', t, 'value'), ('item', t, K(1)))):
            return True, ''
        if (ins := one_edit(ed, g, 1)) is not None:
            if len(ins) != 1 or not is_new_leaf(ins[0], v):
                return False, shown(ed)
            return bool(found), f'{shown(ed)}, without knowing that it\'s this key\'s leaf'
        if (ins := one_edit(ed, prev, 1)) is not None:
            if len(ins) != 1 or not recursion(v, ins[0], 'update', SELF, prev, ('key', KEY), ('value', VALUE)):
                return False, shown(ed)
            return pk == 'tree' and not found and (at in ('tree', 'absent') or eq is False), \
                f'{shown(ed)}, when entries at its position and before it are {at} and {pk}'
        return False, shown(ed)

    def fail(p, v):
        at, pk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.keq(SELF, g)
        if not r.exc_is(p, 'KeyError'):
            return True
        return pk in ('leaf', 'absent') and (at in ('tree', 'absent') or at == 'leaf' and eq is False), \
            f'the entries at its position and before it are {at} and {pk}'
    c.some('update.returns', r.returns, 'update never returns')
    each(c, r, r.returns, 'MST.update', ret, 'update doesn\'t change exactly its key\'s value')
    each(c, r, r.raises, 'MST.update raises', fail, 'update fails although the key may be there')
    valid_first(c, r, 'MST.update')


def valid_first(c, r, inst):
    """Every partition checks the key's syntax before anything that it returns."""
    bad = [p for p in r.returns
           if not any(e.kind == 'call' and fn_is(e.fn, 'ensure_valid_key') and marg(e.a, 'key', 0) == KEY
                      for e in p.events)]
    c.ob(f'{inst} checks key', not bad, r, 'accepts a key without checking its syntax', bad[0] if bad else None)


# ---------------------------------------------------------------- add
@rules('M02')
def m02_add(c):
    c.rule('M02.add', 'add inserts exactly one leaf, at its position on its layer, splitting or descending into the subtree there, '
                      'or growing the tree, and fails only for an existing key')
    r = mrun(c, 'add')
    valid_first(c, r, 'MST.add')
    g = position(c, r)
    if g is None:
        return
    prev = minus1(g)
    layer = ('call', f'{MST}.get_layer', (('self', SELF),), None)

    def zeros(v):
        """The key's layer, on this partition."""
        z = ('call', 'arroba.mst.leading_zeros_on_hash', (('key', KEY),), None)
        kz = param('known_zeros')
        known = v.r.truth(v.st, kz)
        if known is None:
            known = v.r.isnone(v.st, kz) is False or None
        return [kz] if known else [z, kz] if known is None else [z]

    def rel(v):
        for z in zeros(v):
            for op in ('==', '<', '>'):
                if v.r.cmp(v.st, op, z, layer):
                    return op, z
        return None, None

    def added(v, t, x, z):
        """Is t x.add(key, value, its layer)?"""
        d = mcall(t, 'add')
        return bool(d) and marg(d, 'key', 0) == KEY and marg(d, 'value', 1) == VALUE \
            and marg(d, 'known_zeros', 2) in (None, NONE, z) and x(d['self'])

    def child(v, t):
        """Is t a new, empty tree on the layer below this one?"""
        try:
            return not v.tree(t) and v.attrs.get((t, 'layer')) == minus1(layer)
        except Unk:
            return False

    def sides(v, ins, n, at):
        """Does ins have the halves of entry n around the new leaf?"""
        mid = [i for i, t in enumerate(ins) if is_new_leaf(t, v)]
        if len(mid) != 1:
            return False, 'it has no leaf for its key'
        for k, part in enumerate((ins[:mid[0]], ins[mid[0] + 1:])):
            if len(part) > 1 or part and not half(v, part[0], SELF, n, k):
                return False, f'the {("left", "right")[k]} side has {", ".join(show(t) for t in part)}'
            if not part:
                # then that half has to be empty
                hs = [t for f in v.st.facts.d for t in subterms(f) if half(v, t, SELF, n, k)]
                if not any(v.r.truth(v.st, t) is False or v.r.isnone(v.st, t) for t in hs):
                    return False, f'the {("left", "right")[k]} half of the split subtree is dropped'
            elif v.r.truth(v.st, part[0]) is not True and v.r.isnone(v.st, part[0]) is not False:
                return False, f'the {("left", "right")[k]} half may be None'
        return True

    def same(p, v):
        at, pk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.keq(SELF, g)
        ed = v.edits(v.tree(p.value), SELF)
        if not (at in ('tree', 'absent') or at == 'leaf' and eq is False):
            return False, 'the key may already be there'
        if (ins := one_edit(ed, g, 0)) is not None:
            if len(ins) != 1 or not is_new_leaf(ins[0], v):
                return False, shown(ed)
            return pk in ('leaf', 'absent'), f'the entry before its position is {pk}, not split'
        if (ins := one_edit(ed, prev, 1)) is not None:
            ok = sides(v, ins, prev, g)
            if ok is not True:
                return ok
            return pk == 'tree', f'splits an entry that is {pk}'
        return False, shown(ed)

    def lower(p, v, z):
        pk = v.kind(SELF, prev)
        ed = v.edits(v.tree(p.value), SELF)
        if (ins := one_edit(ed, prev, 1)) is not None:
            return len(ins) == 1 and pk == 'tree' and added(v, ins[0], lambda x: v.elem(x) == (SELF, prev), z), shown(ed)
        if (ins := one_edit(ed, g, 0)) is not None:
            if len(ins) != 1 or not added(v, ins[0], lambda x: child(v, x), z):
                return False, shown(ed)
            return pk in ('leaf', 'absent'), f'adds a subtree next to one: the entry before its position is {pk}'
        return False, shown(ed)

    def grown(v, t, n, z):
        """Is t half n of this tree, with a parent for each layer up to just below z?"""
        if t[0] != 'lv':
            return False
        lp = v.r.it.loops.get(t[1])
        key = next((k for k in lp.changed if k[0] == 'var' and k[2] == t[2]), None) if lp else None
        if key is None:
            return False
        init, vals = lp.changed[key]
        d = mcall(init[1], 'split_around') if init[0] == 'item' and init[2] in (K(n), K(n - 2)) else None
        if not d or d['self'] != SELF or marg(d, 'key', 0) != KEY:
            return False
        for b, val in zip(back_bodies(lp), vals):
            up = mcall(val, 'create_parent')
            if up:
                if up['self'] != t:
                    return False
            elif val != t or v.r.truth(b, t) is not False and v.r.isnone(b, t) is not True:
                return False
        it = lp.iter
        if it is None or it[0] != 'call' or it[1] != 'builtins.range':
            raise Unk('how parents are added')
        a = [x for _, x in it[2]]
        lo, hi = (K(0), a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2 and a[2] != K(1):
            raise Unk('how parents are added')
        return diff_is(mk_bin('-', hi, lo), mk_bin('-', z, layer), -1)

    def higher(p, v, z):
        t = p.value
        atoms = v.tree(t)
        if any(a[0] != 'el' for a in atoms):
            return False, 'the new root has entries of this tree'
        if not diff_is(v.attrs.get((t, 'layer'), NONE), z, 0):
            return False, f'the new root is on layer {show(v.attrs.get((t, "layer"), NONE))}'
        els = [a[1] for a in atoms]
        mid = [i for i, x in enumerate(els) if is_new_leaf(x, v)]
        if len(mid) != 1:
            return False, 'the new root has no leaf for its key'
        for k, part in enumerate((els[:mid[0]], els[mid[0] + 1:])):
            side = ('left', 'right')[k]
            if len(part) > 1 or part and not grown(v, part[0], k, z):
                return False, f'the {side} side of the new root isn\'t the {side} half of this tree, on the layer below it'
            if part:
                if v.r.truth(v.st, part[0]) is not True and v.r.isnone(v.st, part[0]) is not False:
                    return False, f'the {side} half may be None'
            else:
                gone = [x for f in v.st.facts.d for x in subterms(f) if x[0] == 'lv' and grown(v, x, k, z)]
                if not any(v.r.truth(v.st, x) is False or v.r.isnone(v.st, x) for x in gone):
                    return False, f'the {side} half is dropped'
        return True

    def ret(p, v):
        op, z = rel(v)
        if op is None:
            return None
        return {'==': lambda: same(p, v), '<': lambda: lower(p, v, z), '>': lambda: higher(p, v, z)}[op]()

    def fail(p, v):
        if not r.exc_is(p, 'ValueError'):
            return True
        op, z = rel(v)
        return op == '==' and v.kind(SELF, g) == 'leaf' and v.keq(SELF, g) is True
    c.some('add.returns', r.returns, 'add never returns')
    each(c, r, r.returns, 'MST.add', ret, 'add doesn\'t insert exactly its key\'s leaf where it belongs')
    each(c, r, r.raises, 'MST.add raises', fail, 'add fails although the key isn\'t there')


# ---------------------------------------------------------------- delete
@rules('M02')
def m02_delete(c):
    c.rule('M02.delete', 'delete removes exactly its key\'s leaf, merging the subtrees on either side, or deletes from the subtree before '
                         'its position, and otherwise fails')
    r = mrun(c, 'delete_recurse')
    g = position(c, r)
    if g is None:
        return
    prev, nxt = minus1(g), mk_bin('+', g, K(1))

    def ret(p, v):
        ed = v.edits(v.tree(p.value), SELF)
        at, pk, nk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.kind(SELF, nxt), v.keq(SELF, g)
        found = at == 'leaf' and bool(eq)
        lost = at in ('tree', 'absent') or at == 'leaf' and eq is False
        if (ins := one_edit(ed, g, 1)) is not None:
            if ins:
                return False, shown(ed)
            if not found:
                return False, 'removes an entry without knowing that it\'s this key\'s leaf'
            return pk in ('leaf', 'absent') or nk in ('leaf', 'absent'), 'leaves two subtrees next to each other'
        if (ins := one_edit(ed, prev, 3)) is not None:
            d = mcall(ins[0], 'append_merge') if len(ins) == 1 else None
            if not d or v.elem(d['self']) != (SELF, prev) or v.elem(marg(d, 'to_merge', 0)) != (SELF, nxt):
                return False, shown(ed)
            return found and pk == nk == 'tree', shown(ed)
        if (ins := one_edit(ed, prev, 1)) is not None:
            if pk != 'tree' or not lost:
                return False, f'{shown(ed)}, when entries at its position and before it are {at} and {pk}'
            subs = [e.res for e in p.events if e.kind == 'call' and recursion(v, e.res, 'delete_recurse', SELF, prev, ('key', KEY))]
            if len(subs) != 1:
                return False, 'doesn\'t delete from the subtree'
            empty = [v.r.truth(v.st, t) for f in v.st.facts.d for t in subterms(f)
                     if (d := mcall(t, 'get_entries')) and d['self'] == subs[0]]
            empty = [x for x in empty if x is not None] + [
                not x for x in [v.r.cmp(v.st, '==', length_of(subs[0]), K(0))] if x is not None]
            if ins:
                if ins != [subs[0]]:
                    return False, shown(ed)
                return True in empty, 'keeps a subtree that may be empty'
            return False in empty, 'removes a subtree that may not be empty'
        return False, shown(ed)

    def fail(p, v):
        if not r.exc_is(p, 'KeyError'):
            return True
        at, pk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.keq(SELF, g)
        return pk in ('leaf', 'absent') and (at in ('tree', 'absent') or at == 'leaf' and eq is False)
    c.some('delete.returns', r.returns, 'delete never returns')
    each(c, r, r.returns, 'MST.delete_recurse', ret, 'delete doesn\'t remove exactly its key\'s leaf')
    each(c, r, r.raises, 'MST.delete_recurse raises', fail, 'delete fails although the key may be there')

    r = mrun(c, 'delete')
    for p in r.returns:
        d = mcall(p.value, 'trim_top')
        inner_ = mcall(d['self'], 'delete_recurse') if d else None
        c.ob('MST.delete', bool(inner_) and inner_['self'] == SELF and marg(inner_, 'key', 0) == KEY, r,
             'delete doesn\'t return the tree without its key, trimmed', p)

    c.rule('M02.trim', 'trimming only skips roots whose only entry is a subtree')
    r = mrun(c, 'trim_top')

    def trim(p, v):
        one = v.r.cmp(v.st, '==', length_of(SELF), K(1))
        k = v.kind(SELF, K(0))
        if p.value == SELF:
            return one is False or k in ('leaf', 'absent'), 'keeps a root that only has a subtree'
        d = mcall(p.value, 'trim_top')
        if not d or v.elem(d['self']) != (SELF, K(0)):
            raise Unk('what it returns')
        return one is True and k == 'tree', 'drops entries'
    each(c, r, r.returns, 'MST.trim_top', trim, 'trimming changes the tree\'s leaves')


# ---------------------------------------------------------------- split and merge
@rules('M02')
def m02_split(c):
    c.rule('M02.split', 'splitting a tree around a key puts each entry on its side, in order, and drops nothing')
    r = mrun(c, 'split_around')
    g = position(c, r)
    if g is None:
        return
    prev = minus1(g)

    def ret(p, v):
        t = v.r.shape(v.st, p.value)
        if t[0] == 'list' and len(t[1]) == 2 and all(s[0] == 'one' for s in t[1]):
            parts = [s[1] for s in t[1]]
        elif t[0] == 'tuple' and len(t[1]) == 2:
            parts = list(t[1])
        else:
            raise Unk('what it returns')
        pk = v.kind(SELF, prev)
        if pk is None:
            return None
        n = length_of(SELF)
        want = [[('sl', K(0), prev if pk == 'tree' else g)], [('sl', g, n)]]
        for k in (0, 1):
            hs = [t for f in v.st.facts.d for t in subterms(f) if half(v, t, SELF, prev, k)]
            there = True if any(v.r.truth(v.st, t) or v.r.isnone(v.st, t) is False for t in hs) else \
                False if any(v.r.truth(v.st, t) is False or v.r.isnone(v.st, t) for t in hs) else None
            if pk == 'tree':
                if there is None:
                    return False, f'the last subtree\'s {("left", "right")[k]} half isn\'t used'
                if there:
                    want[k].insert(1 - k, ('half', k))
        for k, t in enumerate(parts):
            side = ('left', 'right')[k]
            if t == NONE:
                # it has to be empty
                if any(w[0] == 'half' for w in want[k]):
                    return False, f'the {side} half drops a subtree'
                w = want[k][0]
                empty = v.r.cmp(v.st, '>=', w[1], w[2])
                for f, val in v.st.facts.d.items():
                    if f[0] == 'truth' and val is False:
                        try:
                            a = v.seq(f[1])
                        except (Unk, TypeError):
                            continue
                        if not a or len(a) == 1 and a[0][0] == 'sl' and a[0][1] == SELF \
                                and diff_is(a[0][2], w[1], 0) and diff_is(a[0][3], w[2], 0):
                            empty = True
                if not (empty or diff_is(w[1], w[2], 0) or pk == 'absent' and k == 0):
                    return False, f'the {side} half drops entries'
                continue
            atoms = v.tree(t)
            got = [('half', 0 if half(v, a[1], SELF, prev, 0) else 1 if half(v, a[1], SELF, prev, 1) else a[1])
                   if a[0] == 'el' else a for a in atoms]
            if any(a[0] == 'sl' and a[1] != SELF for a in got):
                raise Unk('entries of another tree')
            w = list(want[k])
            ok = len(got) <= len(w)
            for a in list(got):
                if not w:
                    ok = False
                    break
                b = w.pop(0)
                if a[0] == 'sl' and b[0] == 'half' or a[0] == 'half' and b[0] == 'sl' and w:
                    # an empty slice was left out
                    if a[0] == 'half' and diff_is(b[1], b[2], 0):
                        b = w.pop(0)
                if a[0] == 'sl':
                    ok = ok and b[0] == 'sl' and diff_is(a[2], b[1], 0) and diff_is(a[3], b[2], 0)
                else:
                    ok = ok and a == b
            ok = ok and not w
            if not ok:
                return False, f'the {side} half has ' + ', '.join(
                    f'[{show(a[2])}:{show(a[3])}]' if a[0] == 'sl' else show(a[1]) if isinstance(a[1], tuple)
                    else f'the subtree\'s {("left", "right")[a[1]]} half' for a in got)
            if not any(a[0] == 'half' for a in got):
                known = [val for f, val in v.st.facts.d.items() if f[0] == 'truth' and same_seq(v, f[1], atoms)]
                if True not in known and not (k == 0 and v.kind(SELF, prev) == 'leaf'):
                    return False, f'the {side} half may be an empty tree'
        return True
    c.some('split.returns', r.returns, 'split_around never returns')
    each(c, r, r.returns, 'MST.split_around', ret, 'splitting doesn\'t keep every entry on its side')

    c.rule('M02.merge', 'merging two trees keeps all entries of both, in order, merging the subtrees that meet')
    r = mrun(c, 'append_merge')
    other = param(next((a.arg for a in r.func.node.args.args[1:2]), 'to_merge'))

    def merge(p, v):
        atoms = v.tree(p.value)
        n, m = length_of(SELF), length_of(other)
        lk, rk = v.kind(SELF, minus1(n)), v.kind(other, K(0))
        both = [('sl', SELF, K(0), n), ('sl', other, K(0), m)]
        if same_atoms(atoms, both):
            return lk in ('leaf', 'absent') or rk in ('leaf', 'absent'), 'leaves two subtrees next to each other'
        if len(atoms) == 3 and atoms[1][0] == 'el' and same_atoms(
                (atoms[0], atoms[2]), [('sl', SELF, K(0), minus1(n)), ('sl', other, K(1), m)]):
            d = mcall(atoms[1][1], 'append_merge')
            return bool(d) and v.elem(d['self']) == (SELF, minus1(n)) and v.elem(marg(d, 'to_merge', 0)) == (other, K(0)) \
                and lk == rk == 'tree', 'merges something else than the subtrees that meet'
        return False, 'entries are lost or out of order'
    c.some('merge.returns', r.returns, 'append_merge never returns')
    each(c, r, r.returns, 'MST.append_merge', merge, 'merging doesn\'t keep every entry')


def same_atoms(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] == 'sl' and x[1] == y[1] and diff_is(x[2], y[2], 0) and diff_is(x[3], y[3], 0)
        for x, y in zip(a, b))


def same_seq(v, t, atoms):
    try:
        return same_atoms(v.seq(t), atoms)
    except (Unk, TypeError):
        return False


# ---------------------------------------------------------------- reads
def iter_of(t):
    """What a loop goes over, in order, and whether it's enumerated."""
    t = inner(t)
    if t[0] == 'call' and t[1] == 'builtins.enumerate' and len(t[2]) == 1:
        return inner(t[2][0][1]), True
    if t[0] == 'call' and t[1] in ('builtins.reversed', 'builtins.sorted'):
        return None, False
    return t, False


@rules('M02')
def m02_position(c):
    c.rule('M02.position', 'a key\'s position in a node is that of its first leaf whose key is at least it, or else the node\'s end')
    r = mrun(c, 'find_gt_or_equal_leaf_index')
    name = 'MST.find_gt_or_equal_leaf_index'

    def elem_ge(at, lid, it):
        """Whether this iteration's entry is a leaf with a key that's at least the key."""
        e = ('elemof', it, lid)
        leaf = r.decide(at, ('isinst', e, LEAF))
        if leaf is None:
            tree = r.decide(at, ('isinst', e, MST))
            leaf = None if tree is None else not tree
        if leaf is False:
            return False
        ge = r.cmp(at, '>=', ('attr', e, 'key'), KEY)
        return ge if leaf else None if ge is not False else False

    def whole(it):
        v = View(r, r.paths[0])
        return v.join(v.seq(it)) == (('sl', SELF, K(0), length_of(SELF)),)

    def ret(p, v):
        t = p.value
        if t[0] == 'idx':
            lp = r.it.loops[t[1]]
            it, enum = iter_of(lp.iter)
            if it is None:
                return False, 'goes over the entries in another order'
            if not whole(it):
                return False, 'doesn\'t go over all of the node\'s entries'
            for st in [v.st]:
                if elem_ge(st, t[1], it) is not True:
                    return False, 'stops at an entry that may not be a leaf, or may be before the key'
            return all(ge_past(b, t[1], it) is False for b in back_bodies(lp)), 'passes over a leaf that may be at the key or after it'
        if diff_is(t, length_of(SELF), 0):
            for lp in all_loops(p):
                it, _ = iter_of(lp.iter) if lp.iter else (None, False)
                if it is None or not whole(it):
                    raise Unk('what it goes over')
                return all(ge_past(b, lp.lid, it) is False for b in back_bodies(lp)), 'passes over a leaf that may be at the key or after it'
            raise Unk('how it finds the end')
        x, k = lin1(t)
        if x and k and (x == length_of(SELF) or x[0] == 'idx'):
            return False, f'returns {show(t)}'
        if t[0] in ('lv', 'call', 'sum'):
            raise Unk('how it finds the position')
        return False, f'returns {show(t)}'

    def ge_past(b, lid, it):
        rs = {elem_ge(x, lid, it) for x in r.cases(b)}
        return False if rs == {False} else True
    c.some('position.returns', r.returns, 'never returns')
    each(c, r, r.returns, name, ret, 'a key\'s position isn\'t that of its first leaf at or after it')

    c.rule('M02.index', 'the entry at an index is that entry, if it\'s within the node, and otherwise none')
    r2 = mrun(c, 'at_index')
    ix = param('index')

    def at(p, v):
        inside = (v.r.cmp(v.st, '>=', ix, K(0)), v.r.cmp(v.st, '<', ix, length_of(SELF)))
        if p.value == NONE:
            return False in inside, 'returns nothing for an index that may be within the node'
        if v.elem(p.value) != (SELF, ix):
            return False, f'returns {show(p.value)}'
        return inside == (True, True), 'returns an entry for an index that may be outside the node'
    each(c, r2, r2.returns, 'MST.at_index', at, 'at_index is wrong')


@rules('M02')
def m02_get(c):
    c.rule('M02.get', 'a lookup returns its own key\'s value, from this node or the subtree before its position, or nothing')
    for name in ('get', 'cids_for_path'):
        r = mrun(c, name)
        g = position(c, r)
        if g is None:
            continue
        prev = minus1(g)

        def value(v, t):
            """What's returned: 'leaf', 'tree', 'none' or None."""
            if name == 'get':
                if t == NONE:
                    return 'none'
                if t[0] in ('attr', 'item') and v.elem(t[1]) == (SELF, g) and t[2] in ('value', K(1)):
                    return 'leaf'
                return 'tree' if recursion(v, t, 'get', SELF, prev, ('key', KEY)) else None
            parts = parts_of(r, v, t)
            if parts is None:
                return None
            if not parts or mcall(parts[0], 'get_pointer') is None or mcall(parts[0], 'get_pointer')['self'] != SELF:
                return 'bad'
            if len(parts) == 1:
                return 'none'
            x = parts[1]
            if len(parts) == 2 and x[0] in ('attr', 'item') and v.elem(x[1]) == (SELF, g) and x[2] in ('value', K(1)):
                return 'leaf'
            if len(parts) == 2 and x[0] == 'all' and recursion(v, x[1], 'cids_for_path', SELF, prev, ('key', KEY)):
                return 'tree'
            return 'bad'

        def ret(p, v):
            at, pk, eq = v.kind(SELF, g), v.kind(SELF, prev), v.keq(SELF, g)
            found = at == 'leaf' and bool(eq)
            lost = at in ('tree', 'absent') or at == 'leaf' and eq is False
            what = value(v, p.value)
            if what is None:
                raise Unk(f'{show(p.value)[:80]}')
            if what == 'leaf':
                return found, 'returns a value without knowing that it\'s this key\'s'
            if what == 'tree':
                return lost and pk == 'tree', 'descends past the key'
            if what == 'none':
                return lost and pk in ('leaf', 'absent'), f'finds nothing when the entry before its position is {pk}'
            return False, f'returns {show(p.value)[:120]}'
        c.some(f'{name}.returns', r.returns, 'never returns')
        each(c, r, r.returns, f'MST.{name}', ret, f'{name} isn\'t its own key\'s')


def parts_of(r, v, t):
    """A list's parts: single terms and ('all', list)."""
    t = v.r.shape(v.st, t)
    if t[0] in ('list', 'gen'):
        out = []
        for s in t[1]:
            if s[0] == 'one':
                out.append(s[1])
            elif s[0] == 'spread':
                sub = parts_of(r, v, s[1])
                out += sub if sub is not None else [('all', s[1])]
            else:
                return None
        return out
    if t[0] == 'bin' and t[1] == '+':
        a, b = parts_of(r, v, t[2]), parts_of(r, v, t[3])
        if a is None or b is None:
            return None
        return a + b
    if t[0] == 'call':
        return [('all', t)]
    return None


def stream(r, events):
    """What a generator yields, in order: ('one', term), ('all', iterable), ('each', loop)."""
    out = []
    for e in events:
        if e.kind == 'yield':
            out.append(('one', e.a['value'], e))
        elif e.kind == 'yieldfrom':
            out.append(('all', inner(e.a['value']), e))
        elif e.kind == 'loop':
            lp = e.x
            ys = [stream(r, b.events) for b in lp.bodies]
            if lp.iter is not None and len(lp.bodies) == 1 and lp.bodies[0].exit == 'back' and len(ys[0]) == 1 \
                    and ys[0][0][0] == 'one' and ys[0][0][1] == ('elemof', inner(lp.iter), lp.lid):
                out.append(('all', inner(lp.iter), e))
            elif any(ys):
                out.append(('each', lp, e))
    return out


@rules('M02')
def m02_walk(c):
    c.rule('M02.walk', 'reading leaves from a key yields those of the subtree before its position, then each entry from there, in order, with subtrees expanded')
    r = mrun(c, 'walk_leaves_from')
    g = position(c, r)
    if g is None:
        return
    prev = minus1(g)

    def ret(p, v):
        pk = v.kind(SELF, prev)
        if pk is None and v.r.cmp(v.st, '<=', g, K(0)):
            pk = 'absent'
        items = stream(r, p.events)
        first = False
        for n, (what, t, e) in enumerate(items):
            if what == 'all' and recursion(v, t, 'walk_leaves_from', SELF, prev, ('key', KEY)):
                if n:
                    return False, 'reads the subtree before its position late'
                first = True
                continue
            if what == 'each' and n == len(items) - 1:
                it, enum = iter_of(t.iter)
                if it is None:
                    return False, 'goes over the entries in another order'
                if v.seq(it) != (('sl', SELF, g, length_of(SELF)),):
                    return False, 'doesn\'t go over the entries from its position: ' + show(it)[:120]
                el = ('elemof', it, t.lid)
                for b in t.bodies:
                    if b.exit != 'back':
                        return False, 'stops early'
                    for st in r.cases(b):
                        leaf = r.decide(st, ('isinst', el, LEAF))
                        tree = r.decide(st, ('isinst', el, MST))
                        leaf = leaf if leaf is not None else None if tree is None else not tree
                        ys = stream(r, b.events)
                        if leaf is None:
                            raise Unk('which entries it expands')
                        if leaf and [y[:2] for y in ys] != [('one', el)]:
                            return False, 'doesn\'t yield each leaf once'
                        if not leaf:
                            d = mcall(ys[0][1], 'walk_leaves_from') if len(ys) == 1 and ys[0][0] == 'all' else None
                            if not d or d['self'] != el or marg(d, 'key', 0) not in (KEY, K('')):
                                d2 = mcall(ys[0][1], 'leaves') if len(ys) == 1 and ys[0][0] == 'all' else None
                                if not d2 or d2['self'] != el:
                                    return False, 'doesn\'t yield each subtree\'s leaves'
                continue
            return False, f'yields {show(t) if isinstance(t, tuple) else "something else"}'[:160]
        if first:
            return (pk == 'tree', 'reads an entry that may not be a subtree') if pk != 'tree' else True
        return pk in ('leaf', 'absent'), 'skips the subtree before its position'
    c.some('walk.returns', r.returns, 'never returns')
    n = each(c, r, r.returns, 'MST.walk_leaves_from', ret, 'reading from a key skips, repeats or reorders leaves')
    c.some('walk.cases', [1] * bool(n), 'no feasible path')


def listed(c, inst, name, params, keep, stop):
    """A list of a prefix of the leaves from a key: keep and stop decide each iteration."""
    r = mrun(c, name, opaque=(f'{MST}.walk_leaves_from',))
    loops = []
    for p in r.returns:
        for lp in all_loops(p):
            if lp not in loops and lp.iter is not None and mcall(inner(lp.iter), 'walk_leaves_from'):
                loops.append(lp)
    if not loops:
        c.unsure(f'{name} doesn\'t loop over walk_leaves_from')
        return
    for lp in loops:
        d = mcall(inner(lp.iter), 'walk_leaves_from')
        el = ('elemof', inner(lp.iter), lp.lid)
        start = marg(d, 'key', 0)
        c.ob(f'{inst} from', start in params, r, f'starts reading at {show(start)}')
        for b in lp.bodies:
            adds = [e for e in b.events if e.kind == 'mutate' and e.fn == 'list.append'] + [
                e for e in b.events if e.kind == 'yield']
            for st in r.cases(b):
                key = ('attr', el, 'key')
                if b.exit == 'back':
                    if adds:
                        c.ob(f'{inst} end', stop(r, st, key) is False, r, 'returns a leaf that may be past the end')
                        c.ob(f'{inst} leaves', len(adds) == 1 and el in (adds[0].a.get(0), adds[0].a.get('value')), r,
                             'doesn\'t return each leaf')
                        c.ob(f'{inst} adds', keep(r, st, key) is True, r, 'returns a leaf that may be out of range')
                    else:
                        c.ob(f'{inst} skips', keep(r, st, key) is False or stop(r, st, key) is True, r, 'skips a leaf that may be in range')
                elif b.exit in ('break', 'return'):
                    c.ob(f'{inst} stops', stop(r, st, key) is True and not adds, r, 'stops before the end of the range')
    for p in r.returns:
        lps = [lp for lp in all_loops(p) if lp in loops]
        s = r.S(p, p.value)
        ok = s[0] in ('list', 'gen') and all(
            g[0] == 'prior' or g[0] == 'loop' and any(g[1] == lp.lid for lp in loops) for g in s[1])
        if not ok and (s[0] in ('list',) and not s[1] or not s[0] in ('list',)):
            c.unsure(f'{name}: what it returns')
        else:
            c.ob(f'{inst} returned', ok, r, 'doesn\'t return the leaves in the order they were read')


@rules('M02')
def m02_lists(c):
    c.rule('M02.list', 'a range has every leaf after one key and before the other, and no others, in order')
    after, before = param('after'), param('before')

    def keep(r, st, key):
        a = r.cmp(st, '==', key, after)
        return None if a is None and r.truth(st, after) is not False else not a

    def stop(r, st, key):
        t = r.truth(st, before)
        if t is False or r.isnone(st, before):
            return False
        ge = r.cmp(st, '>=', key, before)
        return ge if t else None if ge is not False else False
    listed(c, 'MST.list', 'list', (after, K('')), keep, stop)

    c.rule('M02.prefix', 'a prefix read has every leaf whose key starts with it, and no others, in order')
    prefix = param('prefix')

    def keep2(r, st, key):
        return r.truth(st, ('call', '?.startswith', (('self', key), (0, prefix)), None))

    def stop2(r, st, key):
        k = keep2(r, st, key)
        return None if k is None else not k
    listed(c, 'MST.list_with_prefix', 'list_with_prefix', (prefix,), keep2, stop2)


# ---------------------------------------------------------------- key syntax
KEY_CHARS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:.~')


def regex_chars(pattern):
    """The characters that a repeated class matches, and how many at least; or None."""
    import re._parser as sre
    try:
        t = sre.parse(pattern)
    except Exception:
        return None
    if len(t) != 1 or str(t[0][0]) != 'MAX_REPEAT':
        return None
    lo, hi, sub = t[0][1]
    if len(sub) != 1 or str(sub[0][0]) != 'IN':
        return None
    out = set()
    for op, arg in sub[0][1]:
        if str(op) == 'LITERAL':
            out.add(chr(arg))
        elif str(op) == 'RANGE':
            out |= {chr(x) for x in range(arg[0], min(arg[1], 0x3000) + 1)}
        else:
            return set('\0'), lo    # negated, or a category such as \w, which matches more than ASCII
    return out, lo


@rules('M02')
def m02_keys(c):
    import ast
    c.rule('M02.key', 'a valid key is two non-empty parts of the allowed characters, with a slash between them, of at most 256 characters')
    r = c.run('arroba.mst.ensure_valid_key')
    split = ('call', '?.split', (('self', KEY), (0, K('/'))), None)
    n = 0
    for p in r.returns:
        for st in r.cases(p):
            n += 1
            parts = [t for k in st.facts.d for t in subterms(k) if t[0] == 'call' and fn_is(t[1], '?.split', '?.partition', '?.rsplit')]
            known = set(parts) <= {split}
            if not known:
                c.unsure('how ensure_valid_key splits a key')
                return
            if not r.cmp(st, '<=', ('call', 'builtins.len', ((0, KEY),), None), K(256)):
                c.ob('ensure_valid_key length', False, r, 'accepts a key that may be longer than 256 characters', p)
            two = r.cmp(st, '==', ('call', 'builtins.len', ((0, split),), None), K(2))
            c.ob('ensure_valid_key parts', two is True, r, 'accepts a key that may not have exactly two parts', p)
            for i in (0, 1):
                part = ('item', split, K(i))
                ms = [t for k in st.facts.d for t in subterms(k)
                      if t[0] == 'call' and last(t[1]) in ('fullmatch', 'match', 'search') and part in dict(t[2]).values()]
                ok = [t for t in ms if last(t[1]) == 'fullmatch' and (
                    r.truth(st, t) or r.isnone(st, t) is False)]
                for k, val in st.facts.d.items():
                    # all() of both
                    if k[0] == 'truth' and val is True and k[1][0] == 'call' and k[1][1] == 'builtins.all' and k[1][2]:
                        s = r.shape(st, k[1][2][0][1])
                        g = s[1][0] if s[0] in ('gen', 'list') and len(s[1]) == 1 else ('',)
                        if g[0] == 'loop' and inner(g[2]) == split and len(g[3]) == 1 and not g[3][0][0] \
                                and len(g[3][0][1]) == 1 and g[3][0][1][0][0] == 'one':
                            t = g[3][0][1][0][1]
                            if t[0] == 'call' and last(t[1]) == 'fullmatch' and ('elemof', split, g[1]) in dict(t[2]).values():
                                ok.append(t)
                c.ob(f'ensure_valid_key part {i}', bool(ok), r, 'accepts a part without matching all of it', p)
                for t in ok:
                    d = dict(t[2])
                    pat = pattern_of(c, d['self']) if 'self' in d else d.get(0)
                    pat = cval(pat) if isinstance(pat, tuple) else pat
                    chars = regex_chars(pat) if isinstance(pat, str) else None
                    if chars is None:
                        c.unsure('which characters a key may have')
                        continue
                    c.ob('ensure_valid_key characters', chars[0] <= KEY_CHARS, r,
                         f'accepts {sorted(chars[0] - KEY_CHARS)[:5]} in keys')
                    full = chars[1] >= 1 or r.truth(st, part)
                    c.ob(f'ensure_valid_key part {i} empty', bool(full), r, 'accepts an empty part', p)
    c.some('ensure_valid_key.returns', r.returns, 'rejects every key')
    for p in r.raises:
        c.ob('ensure_valid_key raises', r.exc_is(p, 'ValueError'), r, 'raises something else than ValueError', p)


def pattern_of(c, t):
    """The constant pattern of a compiled regular expression that a module defines."""
    import ast
    if t[0] == 'call' and t[1] == 're.compile':
        return cval(dict(t[2]).get(0))
    n = gname(t)
    if not n:
        return None
    mod, _, name = n.rpartition('.')
    m = c.prog.modules.get(mod)
    for node in (m.tree.body if m else ()):
        if isinstance(node, ast.Assign) and any(getattr(x, 'id', None) == name for x in node.targets) \
                and isinstance(node.value, ast.Call) and node.value.args and isinstance(node.value.args[0], ast.Constant) \
                and not node.value.args[1:] and not node.value.keywords:
            return node.value.args[0].value
    return None
