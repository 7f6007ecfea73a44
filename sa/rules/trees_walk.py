"""Merkle search trees: walks over nodes, in storage or in memory."""
from .trees import *
from .trees_state import own_entries
from .trees_codec import nt


def unwrap(t, *names):
    """Strips conversions like bytes(x) or CID.decode(x)."""
    names = names or ('bytes', 'list', 'tuple', 'set', 'copy', 'decode', 'frozenset')
    while t[0] == 'call' and last(t[1]) in names and t[2]:
        d = dict(t[2])
        t = d.get(0, d.get('self'))
    return t


def contents(r, at, t, seen=()):
    """What a collection has: a tuple of ('one', value), ('prior',) and ('each', iterable, lid, ((facts, contents), …))."""
    t = inner(t)
    if t[0] == 'call' and last(t[1]) in ('set', 'frozenset', 'fromkeys') and t[2]:
        t = dict(t[2]).get(0, t)
    s = r.shape(at, t) if t[0] == 'obj' else t
    if s[0] == 'tuple':
        return tuple(('one', x) for x in s[1])
    if s[0] not in ('list', 'gen', 'set', 'dict'):
        raise Unk(f'what {show(t)[:60]} has')
    return content(r, at, s[1], seen)


def content(r, at, segs, seen=()):
    out = ()
    for s in segs:
        if s[0] == 'one':
            out += (('one', s[1]),)
        elif s[0] == 'kv':
            out += (('kv', s[1], s[2]),)
        elif s[0] == 'spread':
            x = s[1]
            if x in seen:
                raise Unk('a collection that has itself')
            if x[0] == 'obj' or x[0] in ('list', 'gen', 'tuple', 'set', 'dict'):
                out += contents(r, at, x, seen + (x,))
            else:
                out += (('all', x),)
        elif s[0] == 'loop':
            out += (('each', s[2], s[1], tuple((f, content(r, at, x, seen)) for f, x in s[3])),)
        elif s[0] == 'prior':
            out += (('prior', s[1]),)
        else:
            raise Unk(f'a collection is changed by {s[0]} {s[1]}')
    return out


def points(t, x):
    """Is t the pointer of tree x?"""
    d = mcall(t, 'get_pointer')
    return d is not None and d['self'] == x or t in (('attr', x, 'pointer'),)


def factof(r, st, facts, atom):
    """An atom's truth, by the state or by the facts of one alternative."""
    v = fact(facts, atom)
    return v if v is not None else r.decide(st, atom)


def is_tree(r, st, facts, el):
    a, b = factof(r, st, facts, ('isinst', el, MST)), factof(r, st, facts, ('isinst', el, LEAF))
    if a is not None:
        return a
    return None if b is None else not b


def copied(seg):
    """The dict that this loop copies every item of, or None."""
    if seg[0] == 'each' and mcall(seg[1], 'items'):
        x = mcall(seg[1], 'items')['self']
        if all(alt == (('kv', ('keyof', x, seg[2]), ('valof', x, seg[2])),) for _, alt in seg[3]):
            return x
    return None


def grown(c, r, t):
    """A collection that a loop makes anew each time from the previous one, as one that grows."""
    if t[0] != 'lv':
        return t
    lp = r.it.loops[t[1]]
    init = r.shape(lp.before, inits(lp).get(t, NONE))
    if init[0] not in ('dict', 'list', 'set') or lp.iter is None:
        return t
    alts = []
    for b, after in carries(c, lp):
        v = r.shape(b, after.get(t, t))
        if v == t:
            alts.append((tuple(b.facts.d.items()), ()))
        elif v[0] == init[0] and v[1][:1] == (('spread', t),):
            alts.append((tuple(b.facts.d.items()), v[1][1:]))
        else:
            return t
    return (init[0], init[1] + (('loop', lp.lid, lp.iter, tuple(alts)),))


def attempt(c, inst, f, *args):
    """Runs part of a rule; what it doesn't understand is undecided."""
    try:
        return f(*args)
    except Unk as e:
        c.unsure(f'{inst}: {e}')


@rules('M04', explanation=(
    'Abstract interpretation of the walks over stored nodes. What each iteration yields, and what it adds to the nodes and values that '
    'are still to be read, is compared with the entries that the node has, on every partition. Nothing is executed.'),
    assumptions=('read_many_raw returns every block that it\'s asked for, as C11 says', 'decoding a node gives its entries, as M03 says'))
def m04_unstored(c):
    c.rule('M04.unstored', 'a tree\'s unstored blocks are its own node, unless it\'s stored, and those of all of its subtrees, each keyed by its CID')
    r = c.run(f'{MST}.get_unstored_blocks', MST, pure=PURE)
    inst = 'MST.get_unstored_blocks'
    c.some(f'{inst} returns', r.returns, 'never returns')
    ptr = ('call', f'{MST}.get_pointer', (('self', SELF),), None)

    def one(p):
        s = r.shape(p, p.value)
        parts = s[1] if s[0] == 'tuple' else [x[1] for x in s[1] if x[0] == 'one'] if s[0] == 'list' else None
        if not parts or len(parts) != 2:
            raise Unk(f'what it returns: {show(p.value)[:60]}')
        d = r.shape(p, grown(c, r, parts[1]))
        has = [e.res for e in p.events if e.kind == 'call' and last(e.fn) == 'has' and e.a.get('self') == ('attr', SELF, 'storage')
               and unwrap(e.a.get('cid', e.a.get(0, NONE))) == ptr]
        stored = any(r.truth(p, x) is True for x in has)
        c.ob(f'{inst}: root', points(parts[0], SELF), r, f'the root is {show(parts[0])[:60]}', p)
        if d[0] == 'lv' and any(calls_in(v, 'MST.get_unstored_blocks') == [v[1]] for _, a in carries(c, r.it.loops[d[1]])
                                for v in [a.get(d, NONE)] if v[0] == 'item'):
            c.ob(f'{inst}: subtrees', False, r, 'forgets earlier blocks when it gets a subtree\'s', p)
            return
        if d[0] != 'dict':
            raise Unk(f'which blocks it returns: {show(d)[:60]}')
        got = content(r, p, d[1])
        if stored and not got:
            return
        own = [x for x in got if x[0] == 'kv']
        blks = [(x, blockval(x[2])) for x in own]
        c.ob(f'{inst}: node', bool(own), r, 'leaves out a node that isn\'t known to be stored', p)
        for (_, k, v), b in blks:
            if b is None:
                raise Unk(f'a block: {show(v)[:60]}')
            c.ob(f'{inst}: key', k == ('attr', v, 'cid') or points(k, SELF), r, f'a block\'s key is {show(k)[:80]}', p)
            dec = b.get('decoded', NONE)
            x = mcall(dec, '_asdict')
            if x is None and dec != NONE:
                raise Unk(f'a node\'s data: {show(dec)[:80]}')
            data = x['self'] if x else NONE
            ser = dict(data[2]) if data[0] == 'call' and fn_is(data[1], 'mst.serialize_node_data') else None
            c.ob(f'{inst}: data', ser is not None and own_entries(ser.get('entries', NONE)), r,
                 f'a node\'s block isn\'t its own entries: {show(dec)[:80]}', p)
            for k in ('encoded', 'cid'):
                c.ob(f'{inst}: data', b.get(k, NONE) == NONE, r, f'a node\'s block has a separate {k} value', p)
        subs = [x for x in got if x[0] == 'each']
        rest = [x for x in got if x[0] not in ('each', 'kv')]
        if rest:
            raise Unk('where other blocks come from')
        c.ob(f'{inst}: subtrees', bool(subs), r, 'leaves out its subtrees', p)
        for _, it, lid, alts in subs:
            it, enum = iter_of(it)
            if not own_entries(it):
                c.ob(f'{inst}: subtrees', False, r, f'collects from {show(it)[:60]}', p) if it[0] == 'item' else None
                raise Unk('which subtrees it goes through')
            el = ('elemof', it, lid)
            for st in r.cases(p):
                for facts, segs in alts:
                    tree = is_tree(r, st, facts, el)
                    if not segs:
                        c.ob(f'{inst}: subtrees', tree is False, r, 'skips a subtree', p)
                        continue
                    for s in segs:
                        x = s[1] if s[0] == 'all' else copied(s) or NONE
                        d = mcall(x[1], 'get_unstored_blocks') if x[0] == 'item' and x[2] == K(1) else None
                        if d is None:
                            raise Unk(f'a subtree\'s blocks: {show(x)[:60]}')
                        c.ob(f'{inst}: subtrees', d['self'] == el, r, f'adds the blocks of {show(d["self"])[:60]}', p)
    for p in r.returns:
        attempt(c, inst, one, p)


@rules('M04')
def m04_load(c):
    c.rule('M04.load', 'exporting a tree starts at its root and reads each node\'s subtrees and values, yielding every block but those of too old nodes, and no too old node')
    r = c.run(f'{MST}.load_all', MST, pure=PURE)
    inst = 'MST.load_all'
    c.some(f'{inst} returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, inst, load_path, c, r, p, inst)


def raw_read(t):
    """What a read_many_raw call reads, or None."""
    d = dict(t[2]) if t[0] == 'call' and last(t[1]) == 'read_many_raw' else None
    return d.get('cids', d.get(0)) if d else None


def reads(events, name='read_many_raw'):
    return [e.res for e in events if e.kind == 'call' and e.res is not None and e.res[0] == 'call' and last(e.res[1]) == name]


def load_path(c, r, p, inst):
    whiles = list(dict.fromkeys(e.x for e in p.events if e.kind in ('loop', 'loopiter') and e.x.kind == 'while'))
    if len(whiles) != 1:
        raise Unk('how it goes from nodes to their subtrees')
    lp = whiles[0]
    backs = back_bodies(lp)
    c.ob(f'{inst}: loop', bool(backs), r, 'doesn\'t go on to subtrees', p)
    leaves = None
    afters = dict((id(b), a) for b, a in carries(c, lp))
    for b in backs:
        rd = reads(b.events)
        if len(rd) != 1:
            raise Unk('how nodes are read')
        read = rd[0]
        front = raw_read(read)
        if front[0] == 'item' and front[2][0] == 'slice':
            c.ob(f'{inst}: loop', False, r, 'only reads some of the nodes', p)
            return
        # the first nodes
        if front[0] == 'obj':
            o = lp.before.heap.get(front[1])
            if o is None:
                raise Unk('which nodes are read first')
            first = content(r, p, o[1])
            nxt = content(r, b, b.st.heap[front[1]][1])
        elif front[0] == 'lv':
            first = contents(r, lp.before, inits(lp)[front])
            nxt = contents(r, b, afters[id(b)].get(front, front))
        else:
            raise Unk(f'which nodes are read: {show(front)[:60]}')
        c.ob(f'{inst}: root', len(first) == 1 and first[0][0] == 'one' and points(unwrap(first[0][1]), SELF), r,
             f'doesn\'t start at the tree\'s root', p)
        nodes(c, r, p, b, lp, read, nxt, inst)
        # the end
        for st in r.cases(p):
            n = ('call', 'builtins.len', ((0, front),), None)
            c.ob(f'{inst}: loop', r.truth(st, front) is False or r.cmp(st, '==', n, K(0)) is True, r, 'may stop while there are nodes to read', p)
    leafs(c, r, p, lp, backs, inst)


def blocks_of(it, read):
    """Whether an iterable is the items of this read."""
    d = mcall(it, 'items')
    return d is not None and d['self'] == read


def node_of(r, t, block):
    """Is t the entries that the block decodes to?"""
    if t[0] != 'call' or not fn_is(t[1], 'mst.deserialize_node_data'):
        return None
    d = nt(dict(t[2]).get('data', NONE), 'mst.Data')
    if d is None:
        return None
    for k in 'le':
        x = d.get(k, NONE)
        if x[0] != 'item' or x[2] != K(k) or x[1][0] != 'call' or not last(x[1][1]).startswith('decode'):
            return None
        if dict(x[1][2]).get(0) != block:
            return False
    return True


def nodes(c, r, p, b, lp, read, nxt, inst):
    # every node's subtrees are read next
    subs = [x for x in nxt if x[0] != 'prior']
    c.ob(f'{inst}: subtrees', bool(subs), r, 'doesn\'t read subtrees', p)
    for x in subs:
        if x[0] != 'each' or not blocks_of(x[1], read):
            raise Unk(f'what\'s read next: {show(x[1])[:60]}')
        entries(c, r, p, b, x, read, inst, 'pointer')
    # every node is yielded
    outer = [e.x for e in b.events if e.kind == 'loop' and e.x.iter is not None and blocks_of(e.x.iter, read)]
    ys = 0
    for lo in outer:
        for bb in lo.bodies:
            y = [e for e in bb.events if e.kind == 'yield']
            old = is_old(r, bb, read, lo.lid)
            ys += len(y)
            if not y and any(e.kind == 'yield' for b2 in lo.bodies for e in b2.events):
                c.ob(f'{inst}: yields', old, r, 'doesn\'t yield a node that isn\'t too old', p)
            for e in y:
                yielded(c, r, p, e.a['value'], read, lo.lid, inst)
                for st in r.cases(e):
                    new = r.cmp(st, '>=', ('item', ('valof', read, lo.lid), K(1)), param('start')) is True \
                        or r.truth(st, param('start')) is False
                    c.ob(f'{inst}: too old', new, r, 'may yield a node that\'s too old', p)
    c.ob(f'{inst}: yields', ys > 0, r, 'doesn\'t yield nodes', p)


def yielded(c, r, at, v, read, lid, inst):
    v = r.shape(at, v)
    ok = v[0] == 'tuple' and len(v[1]) == 2 and unwrap(v[1][0]) == ('keyof', read, lid) and v[1][1] == ('item', ('valof', read, lid), K(0))
    c.ob(f'{inst}: yields', ok, r, f'yields {show(v)[:100]} for a block', at)


def is_old(r, st, read, lid):
    """Is the block known to be from before the start?"""
    return r.cmp(st, '<', ('item', ('valof', read, lid), K(1)), param('start')) is True


def with_facts(r, st, facts):
    """The states in which these facts hold, too."""
    out = [r._st(st)]
    for k, v in facts:
        out = [y for y in (assume(r, x, k, v) for x in out) if y is not None]
    return out


def assume(r, st, k, v):
    if k[0] == 'lin':
        st = st.copy()
        st.facts = type(st.facts)({**st.facts.d, k: v})
        return st
    return r.it.assume(st, k, v)


def entries(c, r, p, b, seg, read, inst, what):
    """A collection that gets something from each node's entries."""
    _, it, lid, alts = seg
    block = ('item', ('valof', read, lid), K(0))
    name = {'pointer': 'subtree', 'value': 'leaf'}[what]
    for facts, segs in alts:
        for st in with_facts(r, b, facts):
            if not segs:
                c.ob(f'{inst}: {name}s', is_old(r, st, read, lid), r, f'leaves out the {name}s of a node that isn\'t too old', p)
                continue
            if len(segs) != 1 or segs[0][0] != 'each':
                raise Unk(f'how {name}s are collected')
            _, it2, lid2, alts2 = segs[0]
            it2, enum = iter_of(it2)
            if it2 is not None and it2[0] == 'item' and it2[2][0] == 'slice':
                c.ob(f'{inst}: {name}s', False, r, f'only takes {name}s from {show(it2[2])} of a node\'s entries', p)
                continue
            ok = node_of(r, it2, block) if it2 is not None else None
            if ok is None:
                raise Unk(f'which entries are looked at: {show(it2)[:60]}')
            c.ob(f'{inst}: {name}s', ok, r, f'takes {name}s from another block', p)
            el = ('elemof', it2, lid2)
            for f2, s2 in alts2:
                for st2 in with_facts(r, st, f2):
                    tree = is_tree(r, st2, f2, el)
                    mine = tree if what == 'pointer' else None if tree is None else not tree
                    if not s2:
                        c.ob(f'{inst}: {name}s', mine is False, r, f'leaves out a {name}', p)
                        continue
                    for x in s2:
                        v = unwrap(x[1]) if x[0] in ('one', 'kv') else NONE
                        if what == 'pointer':
                            good = points(v, el)
                        else:
                            good = v in (('attr', el, 'value'), ('item', el, K(1)))
                        c.ob(f'{inst}: {name}s', good, r, f'reads {show(v)[:60]} for a {name}', p)


def leafs(c, r, p, lp, backs, inst):
    """After the nodes, every leaf's value is read and yielded."""
    after = False
    done = 0
    for e in p.events:
        if e.kind in ('loop', 'loopiter') and e.x is lp:
            after = True
        elif after and e.kind == 'loop' and e.x.iter is not None:
            if not any(x.kind == 'yield' for b in e.x.bodies for x in b.events):
                continue
            d = mcall(e.x.iter, 'items')
            if d and d['self'][0] == 'lv' and d['self'][1] == lp.lid:
                continue
            coll = raw_read(d['self']) if d else None
            if coll is None:
                raise Unk('what\'s yielded after the nodes')
            done += 1
            for b in e.x.bodies:
                y = [x for x in b.events if x.kind == 'yield']
                c.ob(f'{inst}: values', len(y) == 1 and b.exit == 'back', r, 'doesn\'t yield a leaf\'s value once', p)
                for x in y:
                    yielded(c, r, p, x.a['value'], d['self'], e.x.lid, inst)
            collected(c, r, p, lp, backs, coll, inst)
        elif after and e.kind == 'yieldfrom':
            for x in contents(r, p, e.a['value']):
                d = mcall(x[1], 'items') if x[0] == 'each' else None
                coll = raw_read(d['self']) if d else None
                if coll is None:
                    raise Unk('what\'s yielded after the nodes')
                done += 1
                for _, alt in x[3]:
                    c.ob(f'{inst}: values', len(alt) == 1 and alt[0][0] == 'one', r, 'doesn\'t yield a leaf\'s value once', p)
                    for y in alt:
                        yielded(c, r, p, y[1], d['self'], x[2], inst)
                collected(c, r, p, lp, backs, coll, inst)
    c.ob(f'{inst}: values', done > 0, r, 'doesn\'t yield leaves\' values', p)


def collected(c, r, p, lp, backs, coll, inst):
    coll = unwrap(coll)
    if coll[0] == 'item' and coll[2][0] == 'slice':
        c.ob(f'{inst}: values', False, r, 'only reads some of the leaves\' values', p)
        return
    if coll[0] == 'obj':
        if coll[1] not in lp.before.heap:
            raise Unk('where leaves\' values are collected')
        get = lambda b: content(r, b, b.st.heap[coll[1]][1])
    elif coll[0] == 'lv':
        after = dict((id(b), a) for b, a in carries(c, lp))
        get = lambda b: contents(r, b, after[id(b)].get(coll, coll))
    else:
        raise Unk('where leaves\' values are collected')
    for b in backs:
        read = reads(b.events)[0]
        got = get(b)
        c.ob(f'{inst}: leafs', any(x[0] == 'prior' for x in got), r, 'forgets the leaves of earlier nodes', p)
        new = [x for x in got if x[0] != 'prior']
        c.ob(f'{inst}: leafs', bool(new), r, 'doesn\'t collect leaves\' values', p)
        for x in new:
            if x[0] != 'each' or not blocks_of(x[1], read):
                raise Unk('how leaves\' values are collected')
            entries(c, r, p, b, x, read, inst, 'value')
