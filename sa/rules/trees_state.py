"""Merkle search trees: persistence, cached pointers and layers."""
import ast

from .trees import *
from .trees import _nonneg
from ..known import KNOWN as KNOWN_FUNCS

FIELDS = ('entries', 'pointer', 'layer', 'outdated_pointer')
INPLACE = tuple('?.' + x for x in 'append extend insert pop remove clear sort reverse __setitem__'.split())
TREE_MODS = ('arroba.mst', 'arroba.diff')


def own(attr, x=SELF):
    return ('attr', x, attr)


def own_entries(t, x=SELF):
    """Is t node x's own list of entries, or a copy?"""
    while t[0] == 'call' and t[1] in ('copy.copy', 'builtins.list', 'builtins.tuple') and t[2]:
        t = t[2][0][1]
    return t in (entries_of(x), own('entries', x))


def handles(f):
    return f.mod.name in TREE_MODS or any(isinstance(x, ast.Attribute) and x.attr in ('get_entries', 'outdated_pointer')
                                          for x in ast.walk(f.node))


def part_of(prog, f, depth=0):
    """Is this a helper that's only ever called by functions that handle nodes? It's analysed in each of them."""
    if f.full in KNOWN_FUNCS or depth > 4:
        return False
    name = f.node.name
    called = []
    for m in prog.modules.values():
        refs = sum(isinstance(x, (ast.Name, ast.Attribute)) and name in (getattr(x, 'id', None), getattr(x, 'attr', None))
                   for x in ast.walk(m.tree))
        for g in prog.all_funcs():
            if g.mod is m:
                got = sum(isinstance(x, ast.Call) and name in (getattr(x.func, 'id', None), getattr(x.func, 'attr', None))
                          for x in ast.walk(g.node))
                refs -= got
                if got:
                    called.append(g)
        if refs > 0:
            return False
    return bool(called) and all(g is not f and (handles(g) and g.full in KNOWN_FUNCS or part_of(prog, g, depth + 1)) for g in called)


def tree_runs(c):
    """Every function that handles trees' nodes."""
    for f in ast_funcs(c):
        if handles(f) and not part_of(c.prog, f):
            cls = f.cls.full if f.cls else None
            yield f, lambda f=f, cls=cls: c.run(f.full, cls, inline=INL + ('MST.slice',), pure=PURE)


def fresh(t):
    return t[0] == 'obj'


@rules('M01', explanation=(
    'Abstract interpretation of every function that handles tree nodes: each assignment to a node\'s entries, pointer, layer or '
    'outdated flag, and each in-place change of a list, is followed to the object that it changes. Only nodes that the function '
    'itself created may change, besides a node\'s own cached values, which must be derived from its own entries. Nothing is executed.'),
    assumptions=('entries are only reached through get_entries, slice, at_index and the entries attribute',))
def m01_stores(c):
    c.rule('M01.stores', 'no function changes an existing node, except for filling in its own cached values')
    copies = always_copies(c)
    n = 0
    for f, run in tree_runs(c):
        r = run()
        for p in r.paths:
            lists = {}      # lists that are now some tree's entries
            for e in flat_events(p.events):
                if e.kind == 'setattr' and e.fn in FIELDS:
                    x, v = e.a['self'], e.a['value']
                    if f.cls and f.cls.full != MST and x == SELF:
                        continue
                    n += 1
                    inst = f'{f.full}: {e.fn}'
                    if fresh(x) or last(f.full) == '__init__' and x == SELF:
                        c.ob(inst, True, e)
                        continue
                    ok = cached(r, p, e, x, v)
                    if ok is None:
                        c.unsure(f'{inst} of {show(x)[:60]} is set to {show(v)[:80]}')
                    else:
                        c.ob(inst, ok, e, f'changes {e.fn} of a node that it didn\'t create: {show(x)[:60]}', p)
                elif e.kind in ('mutate', 'setitem', 'delitem') or e.kind == 'call' and e.fn in INPLACE:
                    x = e.a.get('self')
                    if x is None:
                        continue
                    shared = x == param('entries') or x[0] == 'attr' and x[2] == 'entries' or (
                        x[0] == 'call' and last(x[1]) == 'get_entries' and not copies)
                    if shared:
                        c.ob(f'{f.full}: lists', False, e, f'changes a node\'s entries in place: {show(x)[:80]}', p)
        c.ob(f'{f.full}: lists', True, r)
    c.some('M01.stores found', [1] * bool(n), 'no assignments to nodes were found')


def always_copies(c):
    r = c.run(f'{MST}.get_entries', MST)
    return all(p.value[0] == 'call' and p.value[1] in ('copy.copy', 'builtins.list', 'copy.deepcopy')
               or p.value[0] == 'item' and p.value[2][0] == 'slice'
               or p.value[0] == 'obj' and p.value not in p.st.attrs.values() for p in r.returns)


def cached(r, p, e, x, v):
    """Whether an assignment to an existing node only fills in what it stands for."""
    if e.fn == 'outdated_pointer':
        if v == TRUE:
            return True
        if v != FALSE:
            return None
        # the pointer has to be current already
        got = e.attrs.get((x, 'pointer'))
        return got is not None and is_pointer_of(got, x)
    if x != SELF:
        return False
    if e.fn == 'pointer':
        return is_pointer_of(v, x)
    if e.fn == 'entries':
        if r.isnone(e, own('entries', x)) is not True:
            return False
        return is_loaded(v, x)
    if e.fn == 'layer':
        # M02 checks what it's set to
        return last(r.func.full) in ('get_layer', 'attempt_get_layer') or None
    return None


def is_pointer_of(t, x):
    return t[0] == 'call' and fn_is(t[1], 'mst.cid_for_entries') and own_entries(marg(dict(t[2]), 'entries', 0), x)


def is_loaded(t, x):
    """Are these entries read from the node's pointer? None if it's unclear."""
    while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple', 'copy.copy') and t[2]:
        t = t[2][0][1]
    if t[0] != 'call' or not fn_is(t[1], 'mst.deserialize_node_data'):
        return None
    data = dict(t[2]).get('data')
    if data is None:
        return False
    reads = [y for y in subterms(data) if y[0] == 'call' and last(y[1]) == 'read']
    if not reads:
        return None
    if any(marg(dict(y[2]), 'cid', 0) != own('pointer', x) for y in reads):
        return False
    if data[0] == 'nt':
        d = dict(data[2])
        for k, v in d.items():
            src = ('item', ('attr', reads[0], 'decoded'), K(k))
            if v != src:
                return False if v[0] == 'item' and v[1] == ('attr', reads[0], 'decoded') else None
    return True


@rules('M01')
def m01_new(c):
    c.rule('M01.new', 'a new node\'s pointer is unset and outdated, or is computed from its entries, or is what its entries are loaded from')
    n = 0
    for f, run in tree_runs(c):
        if last(f.full) == '__init__':
            continue
        r = run()
        for p in r.returns:
            for (x, a) in list(p.st.attrs):
                if a != 'entries' or x[0] != 'obj':
                    continue
                n += 1
                at = lambda k: p.st.attrs.get((x, k), NONE)
                ents, ptr, old = at('entries'), at('pointer'), p.st.attrs.get((x, 'outdated_pointer'), FALSE)
                inst = f'{f.full}: new node'
                if old == TRUE:
                    c.ob(inst, True, r)
                elif old != FALSE:
                    c.unsure(f'{inst}: whether it\'s outdated')
                elif ents == NONE:
                    c.ob(inst, ptr != NONE, r, 'a new node has neither entries nor a pointer', p)
                elif r.isnone(p, ents) and ptr != NONE:
                    c.ob(inst, True, r)
                else:
                    ok = ptr[0] == 'call' and fn_is(ptr[1], 'mst.cid_for_entries') and (
                        marg(dict(ptr[2]), 'entries', 0) == ents)
                    if ok and ents[0] == 'obj':
                        # and the list hasn't changed since
                        evs = list(flat_events(p.events))
                        at_ = max((i for i, e in enumerate(evs) if e.kind == 'call' and e.res == ptr), default=-1)
                        ok = not any(e.kind in ('mutate', 'setitem', 'delitem') and e.a.get('self') == ents for e in evs[at_ + 1:])
                    c.ob(inst, ok, r, f'a new node\'s pointer isn\'t its entries\' CID, and it isn\'t outdated: {show(ptr)[:100]}', p)
    c.some('M01.new found', [1] * bool(n), 'no new nodes were found')

    c.rule('M01.pointer', 'a node\'s pointer is only returned if it\'s current, and otherwise computed from its entries')
    r = c.run(f'{MST}.get_pointer', MST, pure=PURE)
    c.some('get_pointer returns', r.returns, 'never returns')
    for p in r.returns:
        for st in r.cases(p):
            old = r.truth(st, own('outdated_pointer'))
            if p.value == own('pointer'):
                c.ob('get_pointer: cached', old is False, r, 'returns a pointer that may be outdated', p)
            elif is_pointer_of(p.value, SELF):
                c.ob('get_pointer: computed', True, r)
                c.ob('get_pointer: kept', p.st.attrs.get((SELF, 'outdated_pointer')) != FALSE or
                     p.st.attrs.get((SELF, 'pointer')) == p.value, r, 'marks a pointer as current without storing it', p)
            elif p.value[0] in ('call', 'lv'):
                c.unsure(f'get_pointer returns {show(p.value)[:80]}')
            else:
                c.ob('get_pointer: computed', False, r, f'returns {show(p.value)[:80]}', p)

    c.rule('M01.cid', 'a node\'s CID is that of its serialized entries')
    r = c.run('arroba.mst.cid_for_entries')
    for p in r.returns:
        v = p.value
        ok = v[0] == 'call' and fn_is(v[1], 'util.dag_cbor_cid')
        sers = [t for t in subterms(v) if t[0] == 'call' and fn_is(t[1], 'mst.serialize_node_data')]
        if not ok or not sers:
            c.unsure(f'cid_for_entries returns {show(v)[:80]}')
            continue
        c.ob('cid_for_entries', all(marg(dict(t[2]), 'entries', 0) == param('entries') for t in sers), r, 'isn\'t of its entries', p)

    c.rule('M01.load', 'a node\'s entries are its own, or loaded from its pointer')
    r = c.run(f'{MST}.get_entries', MST)
    c.some('get_entries returns', r.returns, 'never returns')
    for p in r.returns:
        for st in r.cases(p):
            none = r.isnone(st, own('entries'))
            if none is None and r.truth(st, own('entries')):
                none = False
            v = p.value
            while v[0] == 'call' and v[1] in ('copy.copy', 'builtins.list', 'builtins.tuple') and v[2] and v != entries_of(SELF):
                v = v[2][0][1]
            if v[0] == 'item' and v[2] == ('slice', NONE, NONE, NONE):
                v = v[1]
            if v == own('entries'):
                c.ob('get_entries: own', none is False, r, 'may return None', p)
                continue
            ok = is_loaded(v, SELF)
            if ok is None:
                s = r.shape(st, v)
                segs = s[1] if s[0] == 'list' else ()
                if len(segs) == 1 and segs[0][0] == 'spread' and own_entries(segs[0][1]):
                    c.ob('get_entries: own', none is False, r, 'may return None', p)
                    continue
                c.unsure(f'get_entries returns {show(v)[:80]}')
                continue
            c.ob('get_entries: loaded', ok and none is True, r,
                 'entries that are loaded aren\'t the node\'s, or replace those that it has', p)
    for p in r.raises:
        e = p.exc.ev if hasattr(p, 'exc') and p.exc is not None else None
        if e is not None and e.kind == 'raise':
            c.ob('get_entries: raises', r.isnone(p, own('entries')) is True and
                 (r.truth(p, own('pointer')) is False or r.isnone(p, own('pointer')) is True), r,
                 'fails although the node has entries or a pointer', p)


@rules('M02')
def m02_loaded(c):
    loaded_children(c, 'M02.load')


@rules('M03')
def m03_loaded(c):
    loaded_children(c, 'M03.load')


def loaded_children(c, rule):
    c.rule(rule, "a loaded node's subtrees are in its own storage, and one layer below its first key's")
    r = c.run(f'{MST}.get_entries', MST)
    calls = dict.fromkeys(t for p in r.returns for v in [p.value, p.st.attrs.get((SELF, 'entries'), NONE)]
                          for t in subterms(v) if t[0] == 'call' and fn_is(t[1], 'mst.deserialize_node_data'))
    if not calls:
        c.unsure('how get_entries decodes the stored node')
    for t in calls:
        d = dict(t[2])
        if not all(isinstance(k, str) for k in d):
            c.unsure('how get_entries decodes the stored node')
            continue
        c.ob('get_entries: storage', d.get('storage', NONE) == ('attr', SELF, 'storage'), r,
             f"subtrees are read from {show(d.get('storage', NONE))[:60]}")
        la, data = d.get('layer', NONE), d.get('data', NONE)
        for x in (la[1:] if la[0] == 'ite' else (la,)):
            if x in (NONE, own('layer'), ('lv', None, 'layer')) or mcall(x, 'get_layer') or mcall(x, 'attempt_get_layer'):
                continue
            terms, off = linear(x)
            if len(terms) != 1 or set(terms.values()) != {1}:
                if x[0] == 'const':
                    c.ob('get_entries: layer', False, r, f'its layer is {show(x)}')
                    continue
                c.unsure(f"a loaded node's layer: {show(x)[:60]}")
                continue
            y, = terms
            c.ob('get_entries: layer', off == 0, r, f'its layer is {show(x)[:80]}')
            if y[0] == 'call' and fn_is(y[1], 'mst.leading_zeros_on_hash'):
                k = marg(dict(y[2]), 'key', 0)
                e = k[1] if k[0] in ('item', 'attr') and k[2] in (K('k'), 'k') else None
                if e is None or e[0] != 'item' or not is_const(e[2]):
                    c.unsure(f"a loaded node's first key: {show(k)[:60]}")
                    continue
                c.ob('get_entries: layer', e[2] == K(0), r, f"its layer is that of {show(k)[-40:]}, which isn't a whole key")
            elif y != own('layer') and not mcall(y, 'get_layer') and not mcall(y, 'attempt_get_layer'):
                c.unsure(f"a loaded node's layer: {show(y)[:60]}")


@rules('M02')
def m02_storage(c):
    c.rule('M02.storage', "every tree that's made from another one, or loaded, has its storage, and a loaded one's layer isn't assumed")
    n = 0
    for f in ast_funcs(c):
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            name = '.' + (resolved(c, f, x.func) or '')
            made = name.endswith(('.mst.MST', '.mst.MST.create', '.mst.MST.load')) or (
                f.cls is not None and f.cls.full == MST and name.endswith(('.cls', '.cls.create', '.cls.load')))
            if not made or x.args or any(k.arg is None for k in x.keywords):
                continue
            n += 1
            st = next((k.value for k in x.keywords if k.arg == 'storage'), None)
            c.ob(f'{f.node.name}: storage', st is not None and not (isinstance(st, ast.Constant) and st.value is None), at_node(f, x),
                 "makes a tree without its storage, so that it can't load its nodes")
    r = c.run(f'{MST}.load')
    for p in r.returns:
        la = p.st.attrs.get((p.value, 'layer'))
        if la is not None:
            c.ob('load: layer', la == NONE or la[0] != 'const', r, f'assumes that its layer is {show(la)}', p)


# ---------------------------------------------------------------- layers
@rules('M02')
def m02_layers(c):
    c.rule('M02.layer', 'a node\'s layer is its first leaf\'s, or one above that of the first subtree that has one, or else 0')
    mine = own('layer')
    r = c.run(f'{MST}.attempt_get_layer', MST, pure=PURE)
    leaves = lambda t: t[0] == 'call' and fn_is(t[1], 'mst.layer_for_entries') and own_entries(marg(dict(t[2]), 'entries', 0))

    def child_of(t):
        """The call that found a child's layer, if t is that."""
        d = mcall(t, 'attempt_get_layer')
        if d and d['self'][0] == 'elemof' and own_entries(inner(d['self'][1])):
            return d['self']
        return None

    def none_below(r, p):
        """Does this partition know that no subtree has a layer?"""
        other = False
        for lp in all_loops(p):
            if lp.iter is None or not own_entries(inner(lp.iter)):
                other = other or lp.iter is None or inner(lp.iter)[0] == 'obj'
                continue
            el = ('elemof', inner(lp.iter), lp.lid)
            sub = {t for b in lp.bodies for k in b.st.facts.d for t in subterms(k) if child_of(t) == el}
            if all(any(r.isnone(st, t) is True for t in sub) or r.decide(st, ('isinst', el, MST)) is False
                   or r.decide(st, ('isinst', el, LEAF)) is True for b in back_bodies(lp) for st in r.cases(b)):
                return True
        return None if other else False
    c.some('attempt_get_layer returns', r.returns, 'never returns')
    for p in r.returns:
        for st in r.cases(p):
            v = p.value
            inst = 'MST.attempt_get_layer'
            stored = p.st.attrs.get((SELF, 'layer'), v)
            if v == mine:
                c.ob(inst, r.isnone(st, mine) is False, r, 'may return None although the node\'s entries have a layer', p)
            elif leaves(v) and r.isnone(st, v) is not True:
                c.ob(inst, stored == v, r, 'stores another layer than it returns', p)
                ok = r.isnone(st, v) is False or none_below(r, p)
                if ok is None:
                    c.unsure('how subtrees\' layers are looked at')
                else:
                    c.ob(inst, ok, r, 'doesn\'t look at subtrees', p)
            elif v == NONE or leaves(v):
                ok = none_below(r, p)
                if ok is None:
                    c.unsure('how subtrees\' layers are looked at')
                else:
                    c.ob(inst, ok, r, 'finds no layer although a subtree may have one', p)
            else:
                x, k = lin1(v)
                el = child_of(x) if x else None
                if el is None:
                    c.unsure(f'attempt_get_layer returns {show(v)[:80]}')
                    continue
                c.ob(inst, k == 1 and r.isnone(st, x) is False, r, f'a node\'s layer isn\'t one above its subtree\'s: {show(v)[:80]}', p)
                c.ob(inst, stored == v, r, 'stores another layer than it returns', p)

    r = c.run(f'{MST}.get_layer', MST, pure=PURE)
    for p in r.returns:
        for st in r.cases(p):
            v = p.value
            att = ('call', f'{MST}.attempt_get_layer', (('self', SELF),), None)
            none = next((r.isnone(st, t) for k in st.facts.d for t in subterms(k)
                         if mcall(t, 'attempt_get_layer') and mcall(t, 'attempt_get_layer')['self'] == SELF
                         if r.isnone(st, t) is not None), None)
            if v == K(0):
                c.ob('MST.get_layer', none is True, r, 'returns 0 for a node that may have a layer', p)
            elif mcall(v, 'attempt_get_layer') and mcall(v, 'attempt_get_layer')['self'] == SELF:
                c.ob('MST.get_layer', none is False, r, 'may return None', p)
            elif v == mine:
                c.ob('MST.get_layer', r.isnone(st, mine) is False, r, 'may return None', p)
            elif is_const(v):
                c.ob('MST.get_layer', False, r, f'returns {show(v)}', p)
            else:
                c.unsure(f'get_layer returns {show(v)[:80]}')

    r = c.run('arroba.mst.layer_for_entries')
    ents = param('entries')
    for p in r.returns:
        v = p.value
        if v == NONE:
            for lp in all_loops(p):
                el = ('elemof', inner(lp.iter), lp.lid) if lp.iter else None
                if el is None or inner(lp.iter) != ents:
                    c.unsure('what layer_for_entries looks at')
                    continue
                for b in back_bodies(lp):
                    c.ob('layer_for_entries', all(r.decide(st, ('isinst', el, LEAF)) is False or r.decide(st, ('isinst', el, MST)) is True
                                                  for st in r.cases(b)), r, 'skips a leaf', p)
            continue
        d = dict(v[2]) if v[0] == 'call' and fn_is(v[1], 'mst.leading_zeros_on_hash') else None
        key = marg(d, 'key', 0) if d else None
        if not key or key[0] != 'attr' or key[1][0] != 'elemof' or inner(key[1][1]) != ents:
            c.unsure(f'layer_for_entries returns {show(v)[:80]}')
            continue
        c.ob('layer_for_entries', key[2] == 'key' and r.decide(p, ('isinst', key[1], LEAF)) is True, r, 'isn\'t of a leaf\'s key', p)

    for name, k, ents in (('create_child', -1, ()), ('create_parent', 1, (('el', SELF),))):
        r = mrun(c, name)

        def made(p, v):
            atoms = v.tree(p.value)
            at = v.attrs.get((p.value, 'layer'), NONE)
            layer = ('call', f'{MST}.get_layer', (('self', SELF),), None)
            return atoms == ents and diff_is(at, layer, k), f'it\'s on layer {show(at)[:60]}, with {len(atoms)} entries'
        each(c, r, r.returns, f'MST.{name}', made, f'isn\'t the {"parent" if k > 0 else "child"} of this node')
