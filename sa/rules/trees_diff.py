"""Merkle search trees: diffs, and the walk that they use."""
from .trees import *
from .trees_walk import attempt, contents, is_tree, points

DIFF = 'arroba.diff.Diff'
WALKER = 'arroba.mst.Walker'
STATUS = 'arroba.mst.WalkStatus'
RECORDS = ('record_add', 'record_update', 'record_delete', 'record_new_cid', 'record_removed_cid')


def treeness(r, st, t):
    return is_tree(r, st, (), t)


def split(r, sts, *atoms):
    """These states, each with every one of these atoms decided."""
    for a in atoms:
        out = []
        for st in sts:
            if r.decide(st, a) is not None:
                out.append(st)
                continue
            out += [s for s in (r.it.assume(st, a, v) for v in (True, False)) if s is not None]
        sts = out
    return sts


class Side:
    """One side of a diff: its walker, and where that is when an iteration starts."""
    def __init__(self, name, obj, lp):
        self.name, self.obj = name, obj
        lv = ('lv', lp.lid, 'status', obj)
        changed = any(k[0] != 'var' and k[1] in (('attr', (obj, 'status')), (obj, 'status')) or k == ('attr', (obj, 'status'))
                      for k in lp.changed)
        self.at = lv if changed else lp.before.attrs.get((obj, 'status'), lv)
        self.done, self.cur = ('attr', self.at, 'done'), ('attr', self.at, 'cur')
        self.key, self.value = ('attr', self.cur, 'key'), ('attr', self.cur, 'value')
        self.leaf, self.tree = (('record_add', 'record_new_cid') if name == 'new' else ('record_delete', 'record_removed_cid'))

    def leafy(self, r, st):
        t = treeness(r, st, self.cur)
        return None if t is None else not t


def method_calls(events, cls, *names):
    return [e for e in events if e.kind == 'call' and last(e.fn) in names and fn_is(e.fn, f'{cls.split(".")[-1]}.{last(e.fn)}')]


def diffs_made(p):
    return [e.res for e in p.events if e.kind == 'new' and fn_is(e.fn, 'diff.Diff')]


def named(t):
    """A leaf's fields by name."""
    if t is not None and t[0] == 'item' and t[2] in (K(0), K(1)) and t[1][0] in ('elemof', 'attr'):
        return ('attr', t[1], ('key', 'value')[t[2] == K(1)])
    return t


def args(e, *names):
    return tuple(named(e.a.get(n, e.a.get(i))) for i, n in enumerate(names))


FIELDS = {'record_add': ('key', 'cid'), 'record_delete': ('key', 'cid'), 'record_update': ('key', 'prev', 'cid'),
          'record_new_cid': ('cid',), 'record_removed_cid': ('cid',)}


@rules('M06', explanation=(
    'Abstract interpretation of the diff and of the walker that it uses. Every iteration of the diff is partitioned by where the walkers '
    'are, and on each partition, the entries that the walkers leave behind are compared with the changes that are recorded. Every partition '
    'of the walker\'s moves is compared with the next entry in key order. Nothing is executed.'),
    assumptions=('a node\'s entries are leaves and trees, in key order, as N01 says', 'leaves and trees are truthy'))
def m06_diff(c):
    c.rule('M06.diff', 'each step of a diff records exactly what it moves past, unless both sides have it, and moves at least one side that isn\'t done')
    r = c.run('arroba.diff.mst_diff', pure=PURE)
    inst = 'mst_diff'
    c.some(f'{inst} returns', r.returns, 'never returns')
    seen = set()
    for p in r.paths:
        attempt(c, inst, diff_path, c, r, p, inst, seen)


def diff_path(c, r, p, inst, seen):
    cur, prev = param('cur'), param('prev')
    walkers = {}
    for e in p.events:
        if e.kind == 'new' and fn_is(e.fn, 'mst.Walker'):
            t = e.a.get('tree', e.a.get(0))
            if t not in (cur, prev):
                raise Unk(f'which tree is walked: {show(t)[:60]}')
            walkers[t] = e.res
    loops = [lp for lp in dict.fromkeys(e.x for e in p.events if e.kind in ('loop', 'loopiter'))
             if any(method_calls(b.events, WALKER, 'advance', 'step_into', 'step_over') for b in lp.bodies)]
    fresh = [t for t in (cur, prev) if any(e.kind == 'call' and last(e.fn) == 'get_pointer' and e.a.get('self') == t for e in p.events)]
    if p.kind == 'raise':
        if loops:
            return
        c.ob(f'{inst}: raises', False, r, 'raises without comparing the trees', p)
        return
    if not loops and any(ptrs_equal(r, st, cur, prev) for st in r.cases(p)):
        if p.value not in diffs_made(p):
            raise Unk(f'the diff between equal trees: {show(p.value)[:60]}')
        c.ob(f'{inst}: equal trees', all(ptrs_equal(r, st, cur, prev) for st in r.cases(p)), r, 'returns an empty diff for trees that may differ', p)
        c.ob(f'{inst}: equal trees', not any(e.a.get('self') == p.value for e in p.events if e.kind in ('call', 'mutate')), r, 'records a change between equal trees', p)
        c.ob(f'{inst}: pointers', cur in fresh and prev in fresh, r, 'compares CIDs that may not have been computed', p)
        return
    if not loops:
        c.ob(f'{inst}: previous', r.truth(p, prev) is False or r.isnone(p, prev) is True, r, 'doesn\'t look at the previous tree', p)
        d = dict(p.value[2]) if p.value[0] == 'call' and fn_is(p.value[1], 'diff.null_diff') else None
        if d is None:
            c.ob(f'{inst}: all new', p.value not in diffs_made(p), r, 'returns an empty diff', p)
            raise Unk(f'the diff without a previous tree: {show(p.value)[:60]}')
        c.ob(f'{inst}: pointers', cur in fresh or calls_pointer(c, 'arroba.diff.null_diff'), r, 'reports CIDs that may not have been computed', p)
        c.ob(f'{inst}: all new', d.get('tree', d.get(0)) == cur, r, f'reports {show(p.value)[:60]} without a previous tree', p)
        return
    if set(walkers) != {cur, prev}:
        raise Unk('how the trees are walked')
    made = diffs_made(p)
    if not made:
        raise Unk('which diff it makes')
    for lp in loops:
        if lp in seen:
            continue
        seen.add(lp)
        sides = (Side('new', walkers[cur], lp), Side('old', walkers[prev], lp))
        for b in lp.bodies:
            attempt(c, inst, diff_body, c, r, p, lp, b, sides, inst, len(loops), fresh, p.value)
    final = [Side(n, walkers[t], loops[-1]) for n, t in (('new', cur), ('old', prev))]
    for w in final:
        w.at = p.st.attrs.get((w.obj, 'status'), w.at)
    # a loop that was left by a break may have its own state
    for st in split(r, r.cases(p), *[('truth', ('attr', w.at, 'done')) for w in final]):
        off = [w for w in final if r.truth(st, ('attr', w.at, 'done')) is False]
        if any(r.truth(st, ('attr', w.at, 'cur')) is False for w in off):
            continue
        if off and len(loops) > 1:
            raise Unk('whether both walks are done')
        c.ob(f'{inst}: end', not off, r, f'may stop before the {"/".join(w.name for w in off)} tree\'s end', p)
    c.ob(f'{inst}: returns', p.value in made, r, f'returns {show(p.value)[:60]}', p)


def calls_pointer(c, name):
    r = c.run(name, pure=PURE)
    return bool(r.events(lambda e: e.kind == 'call' and last(e.fn) == 'get_pointer'))


def diff_body(c, r, p, lp, b, sides, inst, nloops, fresh, value):
    acts = {w.obj: [] for w in sides}
    recs = []
    for e in b.events:
        if e.kind in ('loop', 'loopiter'):
            raise Unk('a loop inside of a step')
        if e.kind == 'call' and e.a.get('self') in acts and last(e.fn) in ('advance', 'step_into', 'step_over'):
            acts[e.a['self']].append(e)
        elif e.kind == 'call' and last(e.fn) in RECORDS:
            if b.exit == 'back' and value is not None:
                c.ob(f'{inst}: returns', e.a.get('self') == value, e, 'records in a diff that it doesn\'t return', p)
            recs.append((last(e.fn), dict(zip(FIELDS[last(e.fn)], args(e, *FIELDS[last(e.fn)]))), e))
        elif e.kind in ('setitem', 'mutate', 'delitem'):
            raise Unk(f'a step that changes something itself: {e.fn}')
    if any(len(x) > 1 for x in acts.values()):
        raise Unk('a walker that moves twice')
    moves = {w: last(acts[w.obj][0].fn) if acts[w.obj] else None for w in sides}
    atoms = [('truth', w.done) for w in sides]
    for st in split(r, r.cases(b), *atoms):
        if any(r.truth(st, w.cur) is False and r.truth(st, w.done) is False for w in sides):
            continue
        kinds = [('isinst', w.cur, LEAF) for w in sides if r.truth(st, w.done) is False and treeness(r, st, w.cur) is None]
        for s in split(r, [st], *kinds):
            if any(r.truth(s, w.done) is False and r.decide(s, ('isinst', w.cur, LEAF)) is False and
                   r.decide(s, ('isinst', w.cur, MST)) is False for w in sides):
                continue
            step(c, r, p, s, b, sides, moves, recs, inst, nloops, fresh)


def same(r, st, a, b):
    if a == b:
        return True
    return r.cmp(st, '==', a, b)


def ptrs_equal(r, st, a, b):
    """Whether two trees' CIDs are known to be the same."""
    calls = {x for k in st.facts.d for x in subterms(k) if x[0] == 'call' and last(x[1]) == 'get_pointer'}
    forms = lambda t: (('attr', t, 'pointer'), *(x for x in calls if dict(x[2]).get('self') == t))
    return any(r.cmp(st, '==', x, y) is True for x in forms(a) for y in forms(b)) or r.cmp(st, '==', a, b) is True


def spot(r, b):
    """Where to report an iteration."""
    return next((e for e in b.events if e.node is not None and e.kind == 'call'), r)


def step(c, r, p, st, b, sides, moves, recs, inst, nloops, fresh):
    """One partition of one iteration: what it should record for what it moves past."""
    def ob(what, ok, msg):
        if not ok and nloops > 1:
            raise Unk(f'{what}, between loops: {msg}')
        c.ob(f'{inst}: {what}', ok, spot(r, b), msg, p)

    over = {w: r.truth(st, w.done) for w in sides}
    leaf = {w: None if over[w] else w.leafy(r, st) for w in sides}
    if all(over.values()):
        return
    if b.exit == 'raise':
        ob('raises', False, 'raises an error for trees that it should compare')
        return
    for e in b.events:
        if e.kind == 'call' and last(e.fn) == 'layer':
            ob('layer', not any(over[w] and w.obj == e.a.get('self') for w in sides), 'looks for the layer of a walk that\'s done')
    if b.exit != 'back':
        ob('end', False, 'stops before both trees\' ends')
        return
    ob('progress', any(moves[w] and not over[w] for w in sides), 'doesn\'t move either side')
    want = []
    n, o = sides
    both = not over[n] and not over[o]

    def leaves_equal():
        return leaf[n] and leaf[o] and same(r, st, n.key, o.key)

    if both and all(moves[w] for w in sides) and leaf[n] and leaf[o]:
        eq = leaves_equal()
        vals = same(r, st, n.value, o.value)
        whole = r.cmp(st, '==', n.cur, o.cur)
        if whole:
            eq = vals = True
        elif whole is False and eq and vals is None:
            vals = False
        ob('equal keys', eq is True, 'moves past two leaves that may have different keys')
        if eq is True:
            upd = [x for x in recs if x[0] == 'record_update']
            if vals is not True:
                ob('updates', bool(upd), 'moves past a key without recording that its value may have changed')
            if upd:
                ob('updates', vals is False, 'records an update of a value that may not have changed')
                want.append(('record_update', {'key': (n.key, o.key), 'prev': (o.value,), 'cid': (n.value,)}))
    elif both and all(moves[w] == 'step_over' for w in sides) and leaf[n] is False and leaf[o] is False:
        ob('skips', ptrs_equal(r, st, n.cur, o.cur), 'skips two subtrees that may be different')
        ob('pointers', points_fresh(b, fresh), 'compares CIDs that may not have been computed')
    else:
        for w, x in ((n, o), (o, n)):
            if not moves[w] or over[w]:
                continue
            if leaf[w]:
                ob('moves', moves[w] != 'step_into', f'steps into a leaf of the {w.name} tree')
                ok = over[x] or leaf[x] and (r.cmp(st, '<', w.key, x.key) is True)
                ob('moves', ok, f'moves past a leaf of the {w.name} tree that the {x.name} one may have')
                want.append((w.leaf, {'key': (w.key,), 'cid': (w.value,)}))
            else:
                ob('moves', moves[w] != 'step_over', f'skips a subtree of the {w.name} tree')
                want.append((w.tree, {'cid': (('attr', w.cur, 'pointer'), ('call', f'{MST}.get_pointer', (('self', w.cur),), None))}))
                ob('pointers', points_fresh(b, fresh), 'reports CIDs that may not have been computed')
    left = list(recs)
    for name, fields in want:
        m = [x for x in left if x[0] == name]
        ob(name, bool(m), f'moves past {"a subtree" if len(fields) == 1 else "a leaf"} without {name}')
        if m:
            for f, ok in fields.items():
                t = m[0][1].get(f)
                good = t in ok or t is not None and any(same(r, st, t, y) is True for y in ok if t[0] == 'attr')
                if not good and t is not None and t[0] in ('call', 'lv', 'opaque'):
                    raise Unk(f'what {name} gets: {show(t)[:60]}')
                ob(name, good, f'{name} gets the wrong {f}: {show(t)[:80] if t else None}')
            left.remove(m[0])
    ob('records', not left, f'records a change that isn\'t one: {left[0][0] if left else ""}')


def points_fresh(b, fresh):
    return len(fresh) == 2 or not any('pointer' == x[2] for e in b.events if e.kind == 'call' for v in e.a.values()
                                      if isinstance(v, tuple) for x in [v] if v[0] == 'attr')


@rules('M06')
def m06_null(c):
    c.rule('M06.all', 'without a previous tree, every key of the tree is added, and every node is new')
    r = c.run('arroba.diff.null_diff', pure=PURE)
    inst = 'null_diff'
    c.some(f'{inst} returns', r.returns, 'never returns')
    tree = param('tree')
    for p in r.returns:
        attempt(c, inst, null_path, c, r, p, inst, tree)


def null_path(c, r, p, inst, tree):
    made = diffs_made(p)
    c.ob(f'{inst}: returns', p.value in made, r, f'returns {show(p.value)[:60]}', p)
    loops = [lp for lp in dict.fromkeys(e.x for e in p.events if e.kind in ('loop', 'loopiter'))
             if any(last(e.fn) in RECORDS for b in lp.bodies for e in b.events if e.kind == 'call')]
    if not loops:
        raise Unk('how the whole tree\'s entries are recorded')
    done = {True: 0, False: 0}
    for lp in loops:
        it = inner(lp.iter) if lp.iter is not None else NONE
        d = mcall(it, 'walk') or mcall(it, 'all_nodes')
        lv = mcall(it, 'leaves')
        c.ob(f'{inst}: tree', mcall(it, 'get_entries') is None, r, 'doesn\'t record everything in subtrees', p)
        if d is None and lv is None:
            raise Unk(f'which entries are recorded: {show(it)[:60]}')
        c.ob(f'{inst}: tree', (d or lv)['self'] == tree, r, f'records {show((d or lv)["self"])[:60]}', p)
        el = ('elemof', it, lp.lid)
        for b in lp.bodies:
            c.ob(f'{inst}: stops', b.exit == 'back', spot(r, b), 'doesn\'t record every entry', p)
            for st in split(r, r.cases(b), *([] if treeness(r, b, el) is not None or lv else [('isinst', el, LEAF)])):
                t = False if lv else treeness(r, st, el)
                recs = [e for e in b.events if e.kind == 'call' and last(e.fn) in RECORDS]
                if not recs and len(loops) > 1:
                    continue
                name = 'record_new_cid' if t else 'record_add'
                ok = len(recs) == 1 and last(recs[0].fn) == name
                c.ob(f'{inst}: {name}', ok, r, f'doesn\'t record a {"node" if t else "leaf"} once', p)
                if ok:
                    done[t] += 1
                    a = args(recs[0], *FIELDS[name])
                    good = points(a[0], el) if t else a == (('attr', el, 'key'), ('attr', el, 'value'))
                    c.ob(f'{inst}: {name}', good, r, f'records {show(a[-1])[:60]}', p)
                    c.ob(f'{inst}: returns', recs[0].a.get('self') in made, r, 'records in another diff', p)
    for t, what in ((True, 'nodes'), (False, 'leaves')):
        c.ob(f'{inst}: {what}', done[t] > 0, r, f'doesn\'t record {what}', p)


@rules('M06')
def m06_records(c):
    c.rule('M06.record', 'a diff keeps every change under its key, and a CID that\'s both new and removed as neither')
    r = c.run(f'{DIFF}.__init__', DIFF)
    names = {'adds': 'dict', 'updates': 'dict', 'deletes': 'dict', 'new_cids': 'set', 'removed_cids': 'set'}
    for p in r.returns:
        objs = [p.st.attrs.get((SELF, n)) for n in names]
        for (n, k), o in zip(names.items(), objs):
            s = r.shape(p, o) if o else None
            c.ob(f'Diff.{n}', o is not None and o[0] == 'obj' and s[0] == k and not s[1] and objs.count(o) == 1, r,
                 f'a diff\'s {n} isn\'t an empty {k} of its own', p)
    adds, updates, deletes, new, removed = (('attr', SELF, n) for n in names)
    for name, coll, extra in (('record_add', adds, new), ('record_update', updates, new), ('record_delete', deletes, None)):
        r = c.run(f'{DIFF}.{name}', DIFF)
        c.some(f'{name} returns', r.returns, 'never returns')
        for p in r.paths:
            attempt(c, f'Diff.{name}', record_path, c, r, p, name, coll, extra)
    for name, mine, other in (('record_new_cid', new, removed), ('record_removed_cid', removed, new)):
        r = c.run(f'{DIFF}.{name}', DIFF)
        c.some(f'{name} returns', r.returns, 'never returns')
        for p in r.paths:
            attempt(c, f'Diff.{name}', toggle_path, c, r, p, name, mine, other)


def changes(p):
    """(what, collection, …) of each change to a collection."""
    out = []
    for e in p.events:
        n = last(e.fn) if e.fn else ''
        if e.kind == 'setitem':
            out.append(('set', e.a['self'], e.a.get('key', e.a.get(0)), e.a.get('value', e.a.get(1))))
        elif e.kind in ('mutate', 'call') and n in ('add', 'remove', 'discard') and 'self' in e.a:
            out.append(('add' if n == 'add' else 'del', e.a['self'], e.a.get(0)))
        elif e.kind in ('mutate', 'call') and n in ('pop', 'clear', 'update', 'setdefault', '|=', '-=', '^=', 'popitem', 'difference_update'):
            raise Unk(f'what {n} changes')
        elif e.kind in ('delitem', 'setattr'):
            raise Unk(f'what a {e.kind} changes')
    return out


def record_path(c, r, p, name, coll, extra):
    inst = f'Diff.{name}'
    if p.kind == 'raise':
        c.ob(inst, False, r, 'raises', p)
        return
    got = changes(p)
    sets = [x for x in got if x[0] == 'set']
    c.ob(inst, len(sets) == 1 and sets[0][1] == coll, r, f'doesn\'t keep the change in {coll[2]}', p)
    for _, _, k, v in sets:
        c.ob(f'{inst} key', k == param('key'), r, f'keeps it under {show(k)[:60]}', p)
        v = nt_of(v)
        if v is None:
            raise Unk('what a change has')
        for f in FIELDS[name]:
            c.ob(f'{inst} {f}', v.get(f, NONE) == param(f), r, f'a change\'s {f} is {show(v.get(f, NONE))[:60]}', p)
        if 'prev' not in FIELDS[name]:
            c.ob(f'{inst} prev', v.get('prev', NONE) == NONE, r, f'a change\'s prev is {show(v.get("prev", NONE))[:60]}', p)
    rest = [x for x in got if x[0] != 'set']
    for x in rest:
        c.ob(f'{inst} others', x == ('add', extra, param('cid')), r, f'also changes {show(x[1])[:60]}', p)
    if extra:
        c.ob(f'{inst} new', bool(rest), r, 'doesn\'t report the value as new', p)


def nt_of(t):
    if t[0] == 'nt' and fn_is(t[1], 'diff.Change'):
        return dict(t[2])
    return None


def toggle_path(c, r, p, name, mine, other):
    inst = f'Diff.{name}'
    cid = param('cid')
    if p.kind == 'raise':
        c.ob(inst, False, r, 'raises', p)
        return
    got = changes(p)
    for st in r.cases(p):
        had = r.decide(st, ('in', cid, other))
        if had is None:
            c.ob(inst, len(got) != 1, r, 'doesn\'t look at whether the other side has the CID', p)
            raise Unk('whether the other side has the CID')
        want = [('del', other, cid)] if had else [('add', mine, cid)]
        c.ob(inst, got == want, r, f'{"keeps" if had else "forgets"} a CID that {"both sides have" if had else "only one side has"}', p)


@rules('M06')
def m06_walker(c):
    c.rule('M06.walker', 'a walker starts at the root, and each move goes to the next entry in order, in the subtree or after it, until there are none')
    st0 = ('attr', SELF, 'status')
    stack = ('attr', SELF, 'stack')
    isstat = ((('isinst', st0, STATUS), True),)
    r = c.run(f'{WALKER}.__init__', WALKER, pure=PURE)
    c.some('Walker.__init__ returns', r.returns, 'never returns')
    for p in r.returns:
        def first(p):
            s, k = status(p.st.attrs.get((SELF, 'status'), NONE)), p.st.attrs.get((SELF, 'stack'))
            ks = r.shape(p, k) if k else NONE
            c.ob('Walker: stack', k is not None and k[0] == 'obj' and ks[0] == 'list' and not ks[1], r, 'a walker\'s stack isn\'t an empty list of its own', p)
            c.ob('Walker: start', s['cur'] == param('tree') and s['walking'] == NONE and r.truth(p, s['done']) is False, r,
                 'a walk doesn\'t start at the tree', p)
        attempt(c, 'Walker', first, p)
    kw = dict(pure=PURE, inline=('MST.at_index',), facts=isstat)
    for name, f in (('step_over', over_path), ('step_into', into_path), ('advance', advance_path)):
        r = c.run(f'{WALKER}.{name}', WALKER, **kw)
        c.some(f'Walker.{name} returns', r.returns, 'never returns')
        for p in r.paths:
            for s in r.cases(p):
                attempt(c, f'Walker.{name}', f, c, r, p, s, st0, stack, f'Walker.{name}')


def status(t):
    if t[0] != 'nt' or not fn_is(t[1], 'mst.WalkStatus'):
        raise Unk(f'where the walker is: {show(t)[:60]}')
    return {**dict.fromkeys(('done', 'cur', 'walking', 'index'), NONE), **dict(t[2])}


def moved(p, st0):
    """Where the walker is at the end, or None if it hasn't moved."""
    t = p.st.attrs.get((SELF, 'status'), st0)
    if t == st0:
        return None
    if t[0] == 'nt' and all(v == ('attr', st0, k) for k, v in t[2]):
        return None
    return t


def entries(t, x):
    """Is t the entries of x?"""
    d = mcall(t, 'get_entries')
    return d is not None and d['self'] == x


def nth(s):
    """(whose entry, at which index) a walker is at."""
    t = s['cur']
    if t[0] != 'item' or mcall(t[1], 'get_entries') is None:
        raise Unk(f'which entry is next: {show(t)[:60]}')
    return mcall(t[1], 'get_entries')['self'], t[2]


def pushes(p, stack):
    out = []
    for e in p.events:
        if e.a and e.a.get('self') == stack and e.kind in ('call', 'mutate'):
            if last(e.fn) != 'append':
                raise Unk(f'what {e.fn} does to the stack')
            out.append(e.a.get(0))
    return out


def recursed(p, name):
    return [e for e in p.events if e.kind == 'call' and fn_is(e.fn, f'Walker.{name}') and e.a.get('self') == SELF]


def past(r, p, st, st0):
    """Is the next index known to be past the last entry?"""
    w, i = ('attr', st0, 'walking'), ('attr', st0, 'index')
    for n in lens_of(p, w):
        v = r.cmp(st, '>=', plus(i, K(1)), n)
        if v is not None:
            return v
    return None


def lens_of(p, w):
    for name in (f'{MST}.get_entries', '?.get_entries'):
        yield ('call', 'builtins.len', ((0, ('call', name, (('self', w),), None)),), None)
    for e in p.events:
        if e.kind == 'call' and last(e.fn) == 'get_entries' and e.a.get('self') == w and e.res is not None:
            yield ('call', 'builtins.len', ((0, e.res),), None)


def over_path(c, r, p, st, st0, stack, inst):
    ob = lambda what, ok, msg: c.ob(f'{inst}: {what}', ok, r, msg, p)
    if p.kind == 'raise':
        ob('raises', False, 'raises')
        return
    if p.kind == 'loop' or any(e.kind in ('loop', 'loopiter') for e in p.events):
        raise Unk('a loop')
    done, walking = r.truth(st, ('attr', st0, 'done')), within(r, st, st0)
    rec = recursed(p, 'step_over')
    t = moved(p, st0)
    if done:
        ob('done', t is None, 'moves when it\'s done')
        return
    if t is None:
        ob('moves', False, 'doesn\'t move')
        return
    end = past(r, p, st, st0)
    pops = [e for e in p.events if e.kind in ('call', 'mutate') and last(e.fn) == 'pop' and e.a.get('self') == stack]
    if rec:
        ob('up', walking is True and end is True, 'goes back up before the end of a node')
        at = rec[0].attrs.get((SELF, 'status'))
        ok = len(pops) == 1 and at == pops[0].res and pops[0].a.get(0, K(-1)) == K(-1)
        if not ok and not pops:
            raise Unk('where it goes back up to')
        ob('up', ok and len(rec) == 1, 'doesn\'t go on from the node above')
        ob('up', r.truth(st, stack) is True or stacked(r, st, stack), 'goes up from the root')
        return
    ob('up', not any(t == e.res for e in pops), 'goes up without moving on')
    s = status(t)
    if r.truth(p, s['done']) is True:
        ob('ends', walking is False or walking is True and end is True and (r.truth(st, stack) is False or stacked(r, st, stack) is False), 'may end before the last entry')
        return
    ob('status', r.truth(st, s['done']) is False, 'may not be done')
    w, i = ('attr', st0, 'walking'), plus(('attr', st0, 'index'), K(1))
    who, at = nth(s)
    ob('next', who == w and lin1(at) == lin1(i), f'goes to {show(s["cur"])[:80]}')
    ob('index', lin1(s['index']) == lin1(i), f'its index is {show(s["index"])[:60]}')
    ob('walking', s['walking'] == w, f'its node is {show(s["walking"])[:60]}')
    ob('next', walking is True and end is False, 'may go past the last entry')


def within(r, st, st0):
    """Is the walker inside of a node, ie past the root?"""
    t = ('attr', st0, 'walking')
    v = r.truth(st, t)
    if v is None and r.isnone(st, t) is not None:
        v = not r.isnone(st, t)
    return v


def stacked(r, st, stack):
    return r.cmp(st, '>', ('call', 'builtins.len', ((0, stack),), None), K(0))


def into_path(c, r, p, st, st0, stack, inst):
    ob = lambda what, ok, msg: c.ob(f'{inst}: {what}', ok, r, msg, p)
    done, walking = r.truth(st, ('attr', st0, 'done')), within(r, st, st0)
    cur = ('attr', st0, 'cur')
    tree = treeness(r, st, cur)
    some = None
    for e in p.events:
        if e.kind == 'call' and last(e.fn) == 'get_entries' and e.a.get('self') == cur:
            some = r.truth(st, e.res)
            if some is None:
                some = r.cmp(st, '>', ('call', 'builtins.len', ((0, e.res),), None), K(0))
            if r.truth(st, ('item', e.res, K(0))) is False and some is not False:
                return  # entries are truthy
    if p.kind == 'raise':
        ob('raises', done is not True and (tree is False or walking is True and some is False), 'raises for a tree')
        return
    t = moved(p, st0)
    if done:
        ob('done', t is None, 'moves when it\'s done')
        return
    if t is None:
        ob('moves', False, 'doesn\'t move')
        return
    s = status(t)
    if r.truth(p, s['done']) is True:
        ob('ends', walking is False and some is False, 'ends before the last entry')
        return
    ob('status', r.truth(st, s['done']) is False, 'may not be done')
    who, at = nth(s)
    ob('next', who == cur and at == K(0), f'goes to {show(s["cur"])[:80]}')
    ob('index', s['index'] == K(0), f'its index is {show(s["index"])[:60]}')
    ob('walking', s['walking'] == cur, f'its node is {show(s["walking"])[:60]}')
    ob('leaf', tree is True, 'steps into a leaf')
    ob('next', some is True, 'may step into an empty node')
    got = pushes(p, stack)
    ok = got == [st0] or len(got) == 1 and got[0][0] == 'nt' and all(v == ('attr', st0, k) for k, v in got[0][2])
    ob('stack', ok or not got and walking is False, 'doesn\'t keep where it came from')


def advance_path(c, r, p, st, st0, stack, inst):
    if p.kind == 'raise':
        c.ob(f'{inst}: raises', False, r, 'raises', p)
        return
    over, into = recursed(p, 'step_over'), recursed(p, 'step_into')
    if moved(p, st0) is not None and not over and not into:
        raise Unk('how it moves')
    if r.truth(st, ('attr', st0, 'done')) is True:
        return
    tree = treeness(r, st, ('attr', st0, 'cur'))
    c.ob(inst, tree is not None and (len(into), len(over)) == ((1, 0) if tree else (0, 1)), r,
         f'doesn\'t step {"into a tree" if tree else "over a leaf"} once', p)


@rules('M06')
def m06_walk(c):
    c.rule('M06.walk', 'walking a tree visits it, its leaves, and everything in its subtrees, each once')
    r = c.run(f'{MST}.walk', MST, pure=PURE)
    inst = 'MST.walk'
    c.some(f'{inst} returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, inst, walk_path, c, r, p, inst)
    r = c.run(f'{MST}.leaves', MST, pure=PURE)
    for p in r.returns:
        attempt(c, 'MST.leaves', leaves_path, c, r, p)


def walk_path(c, r, p, inst):
    ob = lambda what, ok, msg, b=None: c.ob(f'{inst}: {what}', ok, spot(r, b) if b else r, msg, p)
    items = stream(r, p.events)
    ob('itself', bool(items) and items[0][0] == 'one' and items[0][1] == SELF, 'doesn\'t visit the tree itself first')
    rest = items[1:]
    ob('entries', len(rest) == 1 and rest[0][0] in ('each', 'all'), 'doesn\'t go over the entries once')
    for what, t, e in rest:
        if what != 'each':
            d = mcall(t, 'get_entries')
            ob('subtrees', not d, 'doesn\'t go into subtrees')
            raise Unk('what it visits')
        it, enum = iter_of(t.iter)
        if it is None or mcall(it, 'get_entries') is None:
            if it is not None and it[0] == 'item' and it[2][0] == 'slice':
                ob('entries', False, 'only goes over some entries')
            raise Unk('which entries it goes over')
        ob('entries', entries(it, SELF), 'doesn\'t go over its own entries')
        el = ('elemof', it, t.lid)
        for b in t.bodies:
            ob('stops', b.exit == 'back', 'stops early', b)
            ys = stream(r, b.events)
            for st in r.cases(b):
                tree = treeness(r, st, el)
                if tree is None:
                    raise Unk('which entries it goes into')
                if not tree:
                    ob('leaves', [y[:2] for y in ys] == [('one', el)], 'doesn\'t visit each leaf once', b)
                else:
                    d = mcall(ys[0][1], 'walk') if len(ys) == 1 and ys[0][0] == 'all' else None
                    ob('subtrees', d is not None and d['self'] == el, 'doesn\'t visit each subtree', b)


def leaves_path(c, r, p):
    inst = 'MST.leaves'
    got = contents(r, p, p.value)
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk('how leaves are found')
    _, it, lid, alts = got[0]
    d = mcall(inner(it), 'walk') or mcall(inner(it), 'all_nodes')
    c.ob(inst, mcall(inner(it), 'get_entries') is None, r, 'leaves out subtrees\' leaves', p)
    if d is None:
        raise Unk('where leaves are found')
    c.ob(inst, d['self'] == SELF, r, 'returns another tree\'s leaves', p)
    el = ('elemof', inner(it), lid)
    for facts, segs in alts:
        tree = is_tree(r, p, facts, el)
        c.ob(inst, tree is not None and segs == (() if tree else (('one', el),)), r, 'doesn\'t return each leaf once, or returns trees', p)
