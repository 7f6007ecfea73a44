"""Merkle search trees: covering proofs."""
from .trees import *
from .trees_codec import joined
from .trees_walk import attempt, contents, points


def block_of(t):
    """(dict, cid) if t is the block that a dict has for a CID."""
    if t[0] == 'get':
        return t[1], t[2]
    d = mcall(t, 'get')
    if d is not None:
        return d['self'], d.get(0, NONE)
    if t[0] == 'item':
        return t[1], t[2]
    return None


def node_field(t, name, pos):
    """The block whose node's field this is, or None."""
    if t[0] in ('item', 'attr') and t[2] in (K(name), name, K(pos)):
        x = t[1]
        if x[0] == 'attr' and x[2] == 'decoded':
            return x[1]
        if x[0] == 'call' and fn_is(x[1], 'mst.Data'):
            d = dict(x[2]).get(None)
            return d[1] if d and d[0] == 'attr' and d[2] == 'decoded' else None
    return None


def uses(loop):
    """Loops that a loop's iterations have, in order."""
    return list(dict.fromkeys(e.x for b in loop.bodies for e in b.events if e.kind in ('loop', 'loopiter') and e.x is not loop))


def loops_in(events):
    return list(dict.fromkeys(e.x for e in events if e.kind in ('loop', 'loopiter')))


class Proofs:
    """The parts of add_covering_proofs, as found on one partition of it."""
    def __init__(self, c, r, p):
        self.c, self.r, self.p = c, r, p
        self.inst = 'MST.add_covering_proofs'
        self.ops = ('attr', ('attr', param('commit'), 'commit'), 'ops')

    def ob(self, what, ok, msg, at=None):
        self.c.ob(f'{self.inst}: {what}', ok, self.r, msg, at if at is not None and hasattr(at, 'events') and hasattr(at, 'value') else self.p)

    def reads(self, events, blocks):
        """Reads whose blocks are added to this dict."""
        out = []
        for e in events:
            if e.kind == 'call' and last(e.fn) in ('read_many', 'read', 'read_many_raw'):
                out.append([e, False])
            if e.kind in ('mutate', 'call') and last(e.fn) in ('update', '|=') and e.a.get('self') == blocks:
                for x in out:
                    if e.a.get(0) == x[0].res:
                        x[1] = True
            if e.kind == 'setitem' and e.a.get('self') == blocks:
                for x in out:
                    if e.a.get('value') == x[0].res:
                        x[1] = True
        return out

    def requested(self, b, blocks, cid):
        """Whether a CID's block is in blocks when this iteration ends."""
        r = self.r

        def there(st):
            return r.truth(st, cid) is False or r.isnone(st, cid) is True or r.decide(st, ('in', cid, blocks)) is True
        if cid == NONE or all(there(st) for st in r.cases(b)):
            return True
        for e, added in self.reads(b.events, blocks):
            if not added:
                continue
            arg = e.a.get('cids', e.a.get('cid', e.a.get(0, NONE)))
            if arg == cid or all(there(st) for st in r.cases(e)):
                return True
            if arg[0] == 'item' and arg[2][0] == 'slice':
                continue
            try:
                got = contents(r, e, arg)
            except Unk:
                raise Unk(f'which blocks are read: {show(arg)[:60]}')
            if any(x[0] == 'one' and x[1] == cid for x in got):
                return True
        return False

    def run(self):
        c, r, p = self.c, self.r, self.p
        tops = [lp for lp in loops_in(p.events) if lp.iter is not None and any(e.kind in ('loop', 'loopiter') for b in lp.bodies for e in b.events)]
        if len(tops) != 1:
            raise Unk('how it goes through operations')
        top = tops[0]
        it, enum = iter_of(top.iter)
        if it != self.ops:
            self.ob('operations', False, f'goes through {show(it or NONE)[:60]}') if it is not None and it[0] == 'item' else None
            raise Unk(f'which operations it goes through: {show(top.iter)[:60]}')
        self.path = [('attr', ('elemof', it, top.lid), 'path'), ('item', ('elemof', it, top.lid), K(1))]
        blocks = None
        for b in top.bodies:
            if b.exit == 'raise':
                continue
            self.ob('operations', b.exit == 'back', 'stops before the last operation')
            whiles = [x for x in loops_in(b.events) if x.kind == 'while']
            if not whiles:
                self.ob('operations', False, 'skips an operation')
                continue
            W = whiles[0]
            key = (W.lid,)
            info = self.descent(b, W)
            self.cleanup(b, W, whiles[1:], info)
            self.ob('result', p.value == info['blocks'], f'returns {show(p.value)[:60]}')
            given = param('blocks')
            self.ob('result', info['blocks'] == given or r.isnone(p, given) is True, 'doesn\'t add to the blocks that it was given')
            first = info['first']
            self.ob('root', points(first[1], SELF) or first[1] == ('attr', SELF, 'pointer'), f'starts at {show(first[1])[:60]}')
            before = type(b)(b.events[:next((i for i, e in enumerate(b.events) if e.kind in ('loop', 'loopiter')), 0)], b.facts, b.exit, W.before)
            self.ob('root', self.requested(before, info['blocks'], first[1]), 'doesn\'t read the root', b)

    def descent(self, b, W):
        if not hasattr(W, 'found'):
            W.found = self._descent(W)
        return W.found

    def _descent(self, W):
        """The walk from the root to an operation's key."""
        c, r = self.c, self.r
        scans = [s for s in uses(W) if s.iter is not None and any(x.exit != 'back' for x in s.bodies)] or [
            s for s in uses(W) if s.iter is not None and s.changed]
        node = None
        for s in list(scans):
            it, _ = iter_of(s.iter)
            x = node_field(it, 'e', 1) if it is not None else None
            if x is None and it is not None and it[0] == 'item' and it[2][0] == 'slice' and node_field(it[1], 'e', 1):
                self.ob('search', False, f'only searches {show(it[2])} of a node\'s entries')
            if x is None:
                scans.remove(s)
            else:
                node = x
        if len(scans) != 1:
            raise Unk('how a node\'s entries are searched')
        scan = scans[0]
        it, enum = iter_of(scan.iter)
        el = ('elemof', it, scan.lid)
        t = lambda x: x in (('item', el, K('t')), ('attr', el, 't')) or x[0] == 'attr' and x[2] == 't' and x[1][0] == 'call' and \
            dict(x[1][2]).get(None) == el
        if node[0] != 'lv' or node[1] != W.lid:
            raise Unk('which node is searched')
        first = block_of(inits(W).get(node, NONE))
        if first is None and last(inits(W).get(node, NONE)[1] or '') == 'read':
            self.ob('root', False, 'the root isn\'t added to the proof')
            raise Unk('which node is searched first')
        if first is None:
            raise Unk('which node is searched first')
        blocks = first[0]
        left0 = lambda x: node_field(x, 'l', 0) == node

        # the key of each entry
        keys = set()
        for x in scan.bodies:
            for k in x.st.facts.d:
                for y in subterms(k):
                    if y[0] in ('bin', 'fmt') and len(joined(y)) == 2 and any(z == el for z in subterms(y)):
                        keys.add(y)
        keys |= {y for k, (i, vs) in scan.changed.items() for v in vs if isinstance(v, tuple) for y in subterms(v)
                 if y[0] in ('bin', 'fmt') and len(joined(y)) == 2 and any(z == el for z in subterms(y))}
        if len(keys) != 1:
            raise Unk('what an entry\'s key is')
        key = keys.pop()
        pre, dec = joined(key)
        lk = pre[1] if pre[0] == 'item' and pre[2][0] == 'slice' else None
        d = dict(dec[2]) if dec[0] == 'call' and last(dec[1]) in ('decode', 'str') else {}
        f = lambda n: (('item', el, K(n)), ('attr', el, n))
        if lk is None or lk[0] != 'lv':
            raise Unk(f'an entry\'s key: {show(key)[:80]}')
        self.ob('keys', pre[2][1] in (NONE, K(0)) and pre[2][2] in f('p') and pre[2][3] == NONE and d.get('self', d.get(0)) in f('k'),
                f'an entry\'s key is {show(key)[:100]}')
        self.ob('keys', inits(scan).get(lk) == K(''), 'the first key\'s prefix isn\'t empty')

        # which child it goes on to
        cur, targets = set(), []
        backs = back_bodies(W)
        self.ob('descent', bool(backs), 'doesn\'t descend')
        for x, after in carries(c, W):
            nx = block_of(after.get(node, node))
            if nx is None or nx[0] != blocks:
                self.ob('descent', False, f'goes on to {show(after.get(node, node))[:80]}') if after.get(node, node) == node else None
                raise Unk(f'which node it goes on to: {show(after.get(node, node))[:60]}')
            targets.append((x, nx[1]))
            if nx[1][0] == 'lv' and nx[1][1] == scan.lid:
                cur.add(nx[1])
        if not cur:
            self.ob('descent', not all(left0(x) for _, x in targets), 'always goes on to the leftmost child')
        if len(cur) != 1:
            raise Unk('which child it goes on to')
        cur = cur.pop()
        self.ob('descent', left0(inits(scan).get(cur, NONE)), f'the first child is {show(inits(scan).get(cur, NONE))[:60]}')

        def rel(st, op):
            vs = [r.cmp(st, op, key, q) for q in self.path]
            return next((v for v in vs if v is not None), None)

        for x, cid in targets:
            self.ob('descent', self.requested(x, blocks, cid), f'goes on to {show(cid)[:60]} without reading it')
            for st in r.cases(x):
                if cid != cur and not (t(cid) and rel(st, '<') is True):
                    self.ob('descent', r.truth(st, cid) is False, f'goes on to {show(cid)[:60]}')

        def child_rule(name, v):
            for x, after in carries(c, scan):
                w = after.get(v, v)
                for st in r.cases(x):
                    tt = next((r.truth(st, y) for y in (('item', el, K('t')), ('attr', el, 't')) if r.truth(st, y) is not None), None)
                    if t(w):
                        self.ob(name, rel(st, '<') is True, 'goes on to the right of a key that may not be before the operation\'s')
                    elif w == v:
                        self.ob(name, tt is False or rel(st, '>=') is True, 'ignores the child on the right of a key before the operation\'s')
                    else:
                        self.ob(name, False, f'goes on to {show(w)[:60]}')
        child_rule('search', cur)
        for x, after in carries(c, scan):
            self.ob('keys', after.get(lk, lk) == key, f'the next key\'s prefix is from {show(after.get(lk, lk))[:60]}')
        for x in scan.bodies:
            if x.exit in ('break', 'return'):
                for st in r.cases(x):
                    self.ob('search', rel(st, '>=') is True, 'stops before a key that may be before the operation\'s')
        # where it ends
        exits = [x for x in W.bodies if x.exit in ('break', 'return')]
        for x in exits:
            for st in r.cases(x):
                ok = r.truth(st, cur) is False or r.isnone(st, cur) is True or rel(st, '==') is True
                self.ob('bottom', ok, 'stops before the operation\'s key, or the bottom')
        return {'blocks': blocks, 'first': first, 'node': node, 'scan': scan, 'el': el, 't': t, 'cur': cur, 'rel': rel, 'left0': left0,
                'rule': child_rule, 'exits': exits}

    def cleanup(self, b, W, loops, info):
        """The walks down the edges on either side."""
        r, blocks, t, rel = self.r, info['blocks'], info['t'], info['rel']
        sides = {}
        for lp in loops:
            side, y, init = self.edge(lp, blocks)
            if side in sides:
                self.ob('left edge', side == 'left', 'only follows the left edges of nodes')
                raise Unk('more than two edges')
            sides[side] = init
        known = W.__dict__.setdefault('edges', {'left': set(), 'right': set()})
        for s, init in sides.items():
            known[s].add(init)
        if not info['exits']:
            raise Unk('where the descent ends')
        for side in ('left', 'right'):
            init = sides.get(side)
            if init is None:
                W.__dict__.setdefault('without', []).append((side, b))
                continue
            for st in r.cases(b):
                eq = rel(st, '==')
                if side == 'right':
                    self.ob('right', eq is not True or t(init), f'the right edge starts at {show(init)[:60]}')
                else:
                    self.ob('left', init == info['cur'] or init[0] == 'lv' and init[1] == info['scan'].lid, f'the left edge starts at {show(init)[:60]}')
            if init[0] == 'lv' and side == 'left' and init != info['cur']:
                self.ob('left', info['left0'](inits(info['scan']).get(init, NONE)), 'the left edge doesn\'t start at the left subtree')
                info['rule']('left', init)
            # it has to be read before
            for x in info['exits']:
                st_eq = [rel(st, '==') is True for st in r.cases(x)]
                if side == 'left' or (t(init) and all(st_eq)):
                    self.ob(side, self.requested(x, blocks, init), f'the {side} edge\'s first node isn\'t read')

    def edge(self, lp, blocks):
        """Which edge a loop walks down, and where it starts."""
        r, c = self.r, self.c
        if hasattr(lp, 'side'):
            return lp.side
        cand = [k for k, v in inits(lp).items() if isinstance(v, tuple) and block_of(v) and block_of(v)[0] == blocks]
        cand = [k for k in cand if any(k in list(subterms(x)) for b in lp.bodies for x in b.st.facts.d)] or cand
        if len(cand) != 1:
            raise Unk('how an edge is followed')
        y = cand[0]
        init = block_of(inits(lp)[y])[1]
        dec = ('attr', y, 'decoded')
        ents = ('item', dec, K('e'))
        ts = {('item', ('item', ents, K(-1)), K('t')), ('attr', ('item', ents, K(-1)), 't')}
        ls = ('item', dec, K('l'))
        nexts = [(b, after.get(y, y)) for b, after in carries(c, lp)]
        lasts = [b for b, n in nexts if n == NONE]
        nexts = [(b, block_of(n)) for b, n in nexts if n != NONE]
        if any(n is None or n[0] != blocks for _, n in nexts):
            raise Unk('how an edge is followed')
        side = 'left' if any(n[1] in ts for _, n in nexts) else 'right'
        self.ob(f'{side} edge', bool(nexts), 'doesn\'t follow an edge')
        n_ents = ('call', 'builtins.len', ((0, ents),), None)

        def empty(st):
            v = r.truth(st, ents)
            if v is None:
                z = r.cmp(st, '==', n_ents, K(0))
                return z
            return not v
        for b, (_, n) in nexts:
            self.ob(f'{side} edge', self.requested(b, blocks, n), f'goes on to {show(n)[:60]} without reading it')
            for st in r.cases(b):
                if side == 'right':
                    self.ob('right edge', n == ls, f'goes on to {show(n)[:60]}')
                elif empty(st) is False:
                    self.ob('left edge', n in ts, f'goes on to {show(n)[:60]}')
                elif empty(st) is True:
                    self.ob('left edge', n == ls, f'goes on to {show(n)[:60]} from a node without entries')
                else:
                    self.ob('left edge', False, 'goes on without looking at entries')
        # it ends where there's nothing more
        ends = [b.st for b in lp.bodies if b.exit in ('break', 'return')]
        if not ends:
            ends = []
            lp.open = True
        for e in ends + [b.st for b in lasts]:
            for st in r.cases(e):
                self.ob(f'{side} edge', self.over(st, side, y, ents, ts, ls, empty), 'stops before the bottom')
        lp.side = (side, y, init)
        lp.over = lambda st: self.over(st, side, y, ents, ts, ls, empty)
        return lp.side

    def over(self, st, side, y, ents, ts, ls, empty):
        """Is there nothing more down this edge?"""
        r = self.r
        gone = lambda x: r.truth(st, x) is False or r.isnone(st, x) is True
        if gone(y):
            return True
        if side == 'right':
            return gone(ls)
        e = empty(st)
        return e is False and any(gone(x) for x in ts) or e is True and gone(ls)


@rules('M05', explanation=(
    'Abstract interpretation of the walk down to each operation\'s key. Every partition of the search through a node is compared with '
    'the standard\'s: which child it goes on to, when it stops, and which children it reads, as are the steps down either edge. '
    'Nothing is executed.'), assumptions=('operations\' paths and nodes\' keys are ordered as strings', 'nodes\' entries are as M03 says'))
def m05(c):
    c.rule('M05.proof', 'each operation\'s proof has every node from the root to its key, and down the inside edges on both sides')
    r = c.run(f'{MST}.add_covering_proofs', MST, pure=PURE)
    c.some('add_covering_proofs returns', r.returns, 'never returns')
    for p in r.returns:
        x = Proofs(c, r, p)
        attempt(c, x.inst, x.run)
        attempt(c, x.inst, ends, x)


def ends(x):
    """Edges that aren't followed, and loops that end by their condition."""
    r = x.r
    for top in loops_in(x.p.events):
        for b in top.bodies:
            for W in loops_in(b.events):
                if hasattr(W, 'over') and getattr(W, 'open', False):
                    for st in r.cases(b):
                        x.ob(f'{W.side[0]} edge', W.over(st), 'stops before the bottom')
                for side, bb in W.__dict__.pop('without', ()):
                    inits_ = W.edges[side]
                    if not inits_:
                        x.ob(side, False, f'doesn\'t follow the {side} edge')
                        continue
                    blocks = W.found['blocks']
                    i = next(n for n, e in enumerate(bb.events) if e.kind in ('loop', 'loopiter') and e.x is W)
                    ok = any(all(any(r.truth(st, y) is False or r.isnone(st, y) is True for i in inits_
                                     for y in (i, ('get', blocks, i, NONE))) for st in r.cases(at)) 
                             for at in (bb, *bb.events[i + 1:], *(e.x.before for e in bb.events[i + 1:] if e.kind in ('loop', 'loopiter'))))
                    x.ob(side, ok, f'doesn\'t follow the {side} edge')
