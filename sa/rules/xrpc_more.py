"""XRPC methods: imports and archives."""
import json

from .common import *
from .xrpc import (INP, LEX, LOAD, STORAGE, At, all_terms, authed, caught, error_name, falsy, handler, loaded, method_call, named,
                   nsids, runh, short)

READ_CAR = C('read_car', INP)


# ------------------------------------------------------------------ what finished loops left behind
def augment(r, at, events):
    """[(state, resolve)]: the ways that variables which are known to have been set came to be set.

    A variable that starts out empty and isn't empty now was last set by an
    iteration that ended with one of the loop's back edges that change it, so
    what was known there about what it was set to still holds.
    """
    out = [(r._st(at), {})]
    for e in events:
        if e.kind not in ('loop', 'loopiter'):
            continue
        lp = e.x
        bodies = back_bodies(lp)
        groups = {}
        for key, (init, vals) in lp.changed.items():
            if key[0] != 'var' or len(vals) != len(bodies):
                continue
            lv = ('lv', lp.lid, key[2])
            sets = tuple(i for i, v in enumerate(vals) if v != lv)
            groups.setdefault(sets, []).append((lv, init, vals))
        for sets, vs in groups.items():
            if not sets:
                continue
            nxt = []
            for st, sub in out:
                if any((init is None or init == NONE or init == FALSE) and
                       (r.truth(st, lv) is True or r.isnone(st, lv) is False) for lv, init, _ in vs):
                    for i in sets:
                        d = dict(st.facts.d)
                        d.update(bodies[i].st.facts.d)
                        from ..interp import Facts
                        heap = dict(st.heap)
                        for k, v in bodies[i].st.heap.items():
                            heap.setdefault(k, v)
                        s2 = dict(sub)
                        s2.update({lv: vals[i] for lv, _, vals in vs})
                        nxt.append((st.set(facts=Facts(d), heap=heap), s2))
                else:
                    nxt.append((st, sub))
            out = nxt[:32]
    return out


def resolve(t, sub):
    for _ in range(4):
        n = subst(t, lambda x: sub.get(x))
        if n == t:
            return n
        t = n
    return t


def carblock(t):
    """A CAR block's {cid, data, decoded}, if t constructs one."""
    if t[0] != 'call' or not fn_is(t[1], 'car.Block', 'carbox.Block'):
        return None
    a = dict(t[2])
    return {n: a.get(n, a.get(i, NONE)) for i, n in enumerate(('cid', 'data', 'decoded'))}


# ------------------------------------------------------------------ X04
@rules('X04', explanation='''Dominance of the import's writes by its checks, on every partition, with what each loop
iteration established carried along to where the variables that it set are used; and the values that are stored.''',
       assumptions=["carbox.read_car() checks each block's CID against its bytes (it does unless told not to)",
                    'verify_sig() and get_signing_key() do what U01 and U03 say'])
def importing(c):
    f = handler(c, 'com.atproto.repo.importRepo')
    r = runh(c, f)
    writes = lambda e: e.kind == 'call' and (fn_is(e.fn, 'create_repo', 'store_repo', 'write_blocks', 'Storage.write', 'Storage.commit',
                                                   'write_event') or e.fn in ('?.create_repo', '?.write_blocks', '?.store_repo'))
    eff = list(r.occs(writes))
    c.anchor(eff, 'importRepo stores repos')
    cr = [o for o in eff if fn_is(o.ev.fn, 'create_repo')]
    wb = [o for o in eff if fn_is(o.ev.fn, 'write_blocks')]
    c.anchor(cr and wb, 'importRepo stores blocks, and a repo')
    c.rule('X04.verified', "nothing is stored before the root commit is found, its DID has no repo, and its signature verifies with its DID's own key")
    commit_of = {}
    for o in eff:
        name = o.ev.fn.rsplit('.', 1)[-1]
        for st, sub in augment(r, o.ev, o.before):
            cands = []
            for k, v in st.facts.d.items():
                if k[0] == 'truth' and v is True and k[1][0] == 'call' and fn_is(k[1][1], 'verify_sig'):
                    a = dict(k[1][2])
                    cands.append((resolve(a.get('obj', NONE), sub), resolve(a.get('public_key', NONE), sub)))
            if not c.ob(f'{name}: signature', bool(cands), o.ev, 'without verifying the root commit\'s signature', o.path):
                continue
            obj, key = cands[0]
            src = obj[1] if obj[0] == 'attr' and obj[2] == 'decoded' else None
            if src is None:
                c.unsure('importRepo verifies an unrecognised object')
                continue
            blk = blockval(src)
            cid = blk.get('cid', NONE) if blk else A(src, 'cid')
            el = cid[1] if cid[0] == 'attr' and cid[2] == 'cid' else src
            did = I(A(el, 'decoded'), 'did')
            dids = {did, I(obj, 'did')} | {d for d in [('get', obj, K('did'), NONE), ('get', A(el, 'decoded'), K('did'), NONE)]}
            roots = [t for k in st.facts.d for t in subterms(resolve(k, sub)) if match(READ_CAR, t)] + \
                    [e.res for e in o.before if call('read_car')(e)]
            rt = [I(I(t, 0), 0) for t in roots]
            same = any(r.cmp(st, '==', x, y) is True for x in (cid, A(src, 'cid')) + mine_cids(st, cid) for y in rt) or any(
                cid == y for y in rt) or src[0] in ('get', 'item') and src[2] in rt
            c.ob(f'{name}: root', same, o.ev, "the verified commit isn't the archive's root", o.path)
            # exists?
            free = any(k[0] == 'truth' and v is False and match(C('load_repo', self=STORAGE), k[1]) and
                       resolve(dict(k[1][2]).get('did_or_handle', dict(k[1][2]).get(0, NONE)), sub) in dids or
                       k[0] == 'isnone' and v is True and match(C('load_repo', self=STORAGE), k[1]) and
                       resolve(dict(k[1][2]).get('did_or_handle', NONE), sub) in dids
                       for k, v in st.facts.d.items())
            c.ob(f'{name}: new', free, o.ev, "without checking that its DID has no repo", o.path)
            gk = [t for t in subterms(key) if t[0] == 'call' and fn_is(t[1], 'get_signing_key')]
            rs = [t for t in subterms(key) if t[0] == 'call' and fn_is(t[1], 'did.resolve')]
            ok = key in gk and bool(rs) and dict(key[2]).get('did_doc') == rs[0] and dict(rs[0][2]).get('did') in dids
            c.ob(f'{name}: key', ok, o.ev, "the signature isn't verified with the DID's own signing key", o.path)
            commit_of[id(o.ev)] = (src, el, dids, sub, st)
        c.ob(f'{name}: authorized', bool(authed(o.before)), o.ev, 'before the caller is authorized', o.path)
    for p in r.paths:
        for e in flat(p.events):
            if call('read_car')(e):
                v = e.a.get('validate', e.a.get(1, TRUE))
                c.ob('blocks are checked', v == TRUE, e, "doesn't check the blocks' CIDs", p)
    c.rule('X04.blocks', "every block of the archive is stored with its own CID and bytes, for the imported DID, and not as an event")
    for o in wb:
        s = r.S(o.ev, o.ev.a.get('blocks', o.ev.a.get(0, NONE)))
        ol = one_loop(s)
        if ol is None:
            c.unsure('importRepo stores unrecognised blocks')
            continue
        it = ol[0]
        base = inner(it)
        good = base[0] == 'item' and base[2] == K(1) and match(READ_CAR, base[1])
        if not c.ob('all of them', good or has(base, READ_CAR) and base[0] not in ('item', 'call'), o.ev, "aren't the archive's blocks", o.path):
            continue
        for facts, segs in ol[1]:
            if len(segs) != 1 or segs[0][0] != 'one':
                c.ob('each one', False, o.ev, "leaves out or repeats some", o.path)
                continue
            b = blockval(segs[0][1])
            if b is None:
                c.unsure('importRepo stores unrecognised blocks')
                continue
            els = {t for v in b.values() if isinstance(v, tuple) for t in subterms(v) if t[0] == 'elemof'}
            el = els.pop() if len(els) == 1 else None
            if el is None:
                c.ob('own data', False, o.ev, "mixes different blocks' data", o.path)
                continue
            c.ob('own cid', b.get('cid') == A(el, 'cid') or b.get('cid') == NONE, o.ev, "isn't stored with its own CID", o.path)
            c.ob('own data', b.get('encoded') == A(el, 'data') or b.get('encoded') == NONE and b.get('decoded') == A(el, 'decoded'),
                 o.ev, "isn't stored with its own bytes", o.path)
            c.ob('no event', b.get('seq') == K(0), o.ev, 'is emitted as an event, since its sequence number isn\'t 0', o.path)
            repo = b.get('repo', NONE)
            com = commit_of.get(id(o.ev))
            dids = com[2] if com else set()
            sub = com[3] if com else {}
            if repo == NONE:
                sets = [x for e in o.before if e.kind == 'loop' for bo in back_bodies(e.x) for x in bo.events
                        if x.kind == 'setattr' and x.fn == 'repo']
                lps = [e.x for e in o.before if e.kind == 'loop' and any(
                    x.kind == 'setattr' and x.fn == 'repo' for bo in back_bodies(e.x) for x in bo.events)]
                ok = any(all(any(x.kind == 'setattr' and x.fn == 'repo' and resolve(x.a['value'], sub) in dids for x in bo.events)
                             for bo in back_bodies(lp)) for lp in lps)
                c.ob('repo', ok, sets[0] if sets else o.ev, "isn't stored for the imported DID", o.path)
                part = [lp for lp in lps if lp.iter is not None and any(
                    x[0] == 'item' and x[2][0] == 'slice' or x[0] == 'call' and fn_is(x[1], 'itertools.islice') for x in subterms(lp.iter))]
                c.ob('repo: all', len(part) < len(lps) or not lps, o.ev, "only some of them are stored for the imported DID", o.path)
            else:
                c.ob('repo', resolve(repo, sub) in dids, o.ev, "isn't stored for the imported DID", o.path)
    c.rule('X04.repo', 'the imported repo is at the verified commit, with its tree, deactivated, with new keys')
    for o in cr:
        rt = o.ev.a.get('repo', o.ev.a.get(0, NONE))
        news = [e for e in o.before if e.kind == 'new' and fn_is(e.fn, 'Repo') and e.res == rt]
        com = commit_of.get(id(o.ev))
        if not news or com is None:
            c.unsure('importRepo creates an unrecognised repo')
            continue
        src, el, dids, sub, st = com
        at = o.ev
        get = lambda n: attr_now(r, at, rt, n, news[0].a.get(n, NONE))
        head = resolve(get('head'), sub)
        hb = blockval(head)
        ok = head == src or hb is not None and hb.get('cid') == A(el, 'cid') and hb.get('encoded') == A(el, 'data')
        c.ob('head', ok, o.ev, "isn't the verified commit", o.path)
        mst = resolve(get('mst'), sub)
        ok = mst[0] == 'call' and fn_is(mst[1], 'MST.load') and dict(mst[2]).get('cid') in (
            I(A(head, 'decoded'), 'data'), I(A(el, 'decoded'), 'data'), I(A(src, 'decoded'), 'data'))
        c.ob('tree', ok, o.ev, "isn't the verified commit's tree", o.path)
        c.ob('status', status_const(get('status')) == 'deactivated', o.ev, "isn't deactivated", o.path)
        for k in ('signing_key', 'rotation_key'):
            v = get(k)
            c.ob(k, v[0] == 'call' and fn_is(v[1], 'new_key') and dict(v[2]).get('seed', NONE) == NONE, o.ev, "isn't new", o.path)
        c.ob('separate keys', get('signing_key') != get('rotation_key'), o.ev, 'has the same key for signing and rotation', o.path)
        c.ob('storage', get('storage') == STORAGE and o.ev.a.get('self') == STORAGE, o.ev, "isn't the server's storage", o.path)
        c.ob('blocks first', any(call('write_blocks')(e) for e in o.before), o.ev, 'before its blocks are stored', o.path)


def mine_cids(st, cid):
    """Other names of the same CID: that of a block that was made with it."""
    return tuple({A(t, 'cid') for k in st.facts.d for t in subterms(k) if blockval(t) and blockval(t).get('cid') == cid})


def status_const(t):
    if is_const(t):
        return cval(t)
    n = gname(t)
    return n.rsplit('.', 1)[-1].lower() if n else None


def attr_now(r, at, base, name, default):
    attrs = at.st.attrs if hasattr(at, 'st') else at.attrs
    return attrs.get((base, name), default)


# ------------------------------------------------------------------ X05
def segments(r, at, t):
    """A block list's segments: ('one', t), ('loop', iter, alts), or None if unrecognised."""
    t = inner(t)
    if t[0] == 'call' and fn_is(t[1], 'itertools.chain'):
        out = []
        for _, v in t[2]:
            s = segments(r, at, v)
            if s is None:
                return None
            out += s
        return out
    if t[0] in ('list', 'tuple', 'gen'):
        out = []
        for x in t[1]:
            if x[0] == 'one':
                out.append(('one', x[1]))
            elif x[0] == 'loop':
                out.append(('loop', x[2], x[3]))
            elif x[0] == 'spread':
                s = segments(r, at, x[1])
                if s is None:
                    return None
                out += s
            elif t[0] == 'tuple':
                out.append(('one', x))
            else:
                return None
        return out
    if t[0] == 'sum' or t[0] == 'bin':
        return None
    return None


def cidof(t):
    """What a CAR block's CID is."""
    if t[0] == 'attr' and t[2] == 'cid':
        b = carblock(t[1])
        if b and b['cid'] != NONE:
            return b['cid']
    return t


def consistent(b):
    """Do a CAR block's CID and bytes belong together? True, False or None."""
    cid, data, dec = b['cid'], b['data'], b['decoded']
    if cid == NONE:
        return True
    x = None
    if cid[0] == 'attr' and cid[2] == 'cid':
        return data in (A(cid[1], 'encoded'), A(cid[1], 'data')) or data == NONE and dec == A(cid[1], 'decoded')
    if cid[0] == 'item' and cid[2] == K(0):
        return data in (I(cid[1], 1),)
    if cid[0] == 'keyof':
        return data in (('valof',) + cid[1:], I(('valof',) + cid[1:], 0), A(('valof',) + cid[1:], 'encoded'))
    # data read with this CID
    rd = [t for t in subterms(data) if t[0] in ('item', 'get') and t[2] == cid and t[1][0] == 'call' and fn_is(t[1][1], 'read_many', 'read_many_raw')
          or t[0] == 'call' and fn_is(t[1], 'read', 'Storage.read') and cid in dict(t[2]).values()]
    return any(data == A(t, 'encoded') or data == I(t, 0) for t in rd) or None


ARCHIVES = ('sync.getRepo', 'sync.getCheckout', 'sync.getBlocks', 'sync.getRecord')


@rules('X05', explanation='''Value numbering of what the sync methods return: roots, blocks with their CIDs and bytes,
and heads, on every partition.''',
       assumptions=["MST.load_all() and add_covering_proofs() return what M04 and M05 say, and storage what C11 says"])
def archives(c):
    c.rule('X05.archive', "each archive's root is the current head commit, and every block's bytes are those of its CID")
    got = {}
    for n in ARCHIVES:
        r = runh(c, handler(c, f'com.atproto.{n}'))
        for p in r.returns:
            v = p.value
            if not (v[0] == 'call' and fn_is(v[1], 'write_car')):
                c.unsure(f"{n} returns something that isn't an archive")
                continue
            a = dict(v[2])
            roots = r.S(p, a.get(0, a.get('roots', NONE)))
            heads = [A(e.res, 'head') for e in p.events if call(LOAD)(e) or e.kind == 'call' and fn_is(e.fn, 'Storage.load_repo')]
            one = roots[1][0] if roots[0] in ('list', 'tuple') and len(roots[1]) == 1 else None
            one = one[1] if one is not None and one[0] == 'one' else one
            c.ob(f'{n}: root', one is not None and any(cidof(one) == A(h, 'cid') for h in heads), p, "isn't the repo's current head", p)
            segs = segments(r, p, r.S(p, a.get(1, a.get('blocks', NONE))))
            if segs is None:
                c.unsure(f'{n} writes unrecognised blocks')
                continue
            got.setdefault(n, []).append((r, p, heads, segs))
            flat_blocks = [s[1] for s in segs if s[0] == 'one'] + [x[1] for s in segs if s[0] == 'loop' for _, xs in s[2] for x in xs if x[0] == 'one']
            for t in flat_blocks:
                b = carblock(t)
                if b is None:
                    c.unsure(f'{n} writes unrecognised blocks')
                    continue
                ok = consistent(b)
                if ok is None:
                    c.unsure(f"{n} writes a block whose CID and bytes aren't recognised")
                else:
                    c.ob(f'{n}: bytes', ok, p, "a block's bytes aren't those of its CID", p)
            for s in segs:
                if s[0] == 'loop':
                    for facts, xs in s[2]:
                        if n in ('sync.getRepo', 'sync.getCheckout', 'sync.getBlocks'):
                            c.ob(f'{n}: each', len(xs) == 1 and xs[0][0] == 'one', p, 'leaves out or repeats a block', p)
    c.rule('X05.repo', 'a whole repo has its head commit and all of its tree\'s blocks, or the ones since the given revision')
    for n in ('sync.getRepo', 'sync.getCheckout'):
        c.anchor(got.get(n), f'{n} returns archives')
        for r, p, heads, segs in got[n]:
            c.ob(f'{n}: head', has_block(segs, heads), p, "hasn't the head commit", p)
            trees = [(s, inner(s[1])) for s in segs if s[0] == 'loop']
            trees = [(s, t) for s, t in trees if t[0] == 'call' and is_mst(t[1], 'load_all')]
            if not trees:
                if any(s[0] == 'loop' for s in segs):
                    c.unsure(f'{n} writes unrecognised blocks')
                else:
                    c.ob(f'{n}: tree', False, p, "hasn't the tree's blocks", p)
                continue
            a = dict(trees[0][1][2])
            c.ob(f'{n}: tree', any(a.get('self') == A(h[1], 'mst') for h in heads), p, "isn't the repo's tree", p)
            st = a.get('start', NONE)
            since = param('since')
            ok = st in (NONE, K(0)) or st[0] == 'call' and fn_is(st[1], 'tid_to_int') and since in dict(st[2]).values()
            c.ob(f'{n}: start', ok, p, "leaves out blocks of the requested revisions", p)
            if n == 'sync.getRepo' and st in (NONE, K(0)):
                # a revision that's asked for is heeded
                c.ob(f'{n}: since', all(r.truth(x, since) is False or r.isnone(x, since) is True for x in r.cases(p)), p,
                     'ignores the revision since which blocks are asked for', p)
    c.rule('X05.record', "a record's archive has the record, the head commit and the proof that it's in the tree")
    c.anchor(got.get('sync.getRecord'), 'getRecord returns archives')
    for r, p, heads, segs in got['sync.getRecord']:
        n = 'sync.getRecord'
        c.ob(f'{n}: head', has_block(segs, heads), p, "hasn't the head commit", p)
        recs = [e.res for e in p.events if method_call(e, 'Repo', 'get_record')]
        for e in p.events:
            if method_call(e, 'Repo', 'get_record'):
                o = At(p)
                c.ob(f'{n}: which', named(r, o, e.a.get('collection', NONE), 'collection') and named(r, o, e.a.get('rkey', NONE), 'rkey')
                     and any(e.a.get('self') == h[1] for h in heads), e, "isn't the record that was named", p)
        ones = [carblock(s[1]) for s in segs if s[0] == 'one']
        ok = any(b and (b['decoded'] in recs or b['data'][0] == 'call' and fn_is(b['data'][1], 'dag_cbor.encode') and
                        b['data'][2][0][1] in recs) for b in ones)
        c.ob(f'{n}: record', ok, p, "hasn't the record", p)
        prf = [s for s in segs if s[0] == 'loop' and calls_in(s[1], 'add_covering_proofs')]
        if not prf:
            if any(s[0] == 'loop' for s in segs):
                c.unsure(f'{n} writes unrecognised blocks')
            else:
                c.ob(f'{n}: proof', False, p, "hasn't the proof", p)
            continue
        it = prf[0][1]
        call_ = calls_in(it, 'add_covering_proofs')[0]
        a = dict(call_[2])
        c.ob(f'{n}: proof tree', any(a.get('self') == A(h[1], 'mst') for h in heads), p, "isn't from the repo's tree", p)
        com = r.S(p, a.get('commit', NONE))
        blk = dict(com[2]).get('commit', NONE) if com[0] == 'nt' else NONE
        ops = (blockval(blk) or {}).get('ops', NONE)
        if ops[0] == 'list' and len(ops[1]) == 1 and ops[1][0][0] == 'one' and ops[1][0][1][0] == 'nt':
            path = dict(ops[1][0][1][2]).get('path', NONE)
            want = mk_fmt([param('collection'), K('/'), param('rkey')])
            c.ob(f'{n}: proof path', path == want, p, "isn't for the record's path", p)
        else:
            c.unsure(f"{n}'s proof is of an unrecognised commit")
        el = it if it[0] != 'call' else it
        for facts, xs in prf[0][2]:
            c.ob(f'{n}: all of the proof', len(xs) == 1, p, "leaves out some of the proof's blocks", p)
            b = carblock(xs[0][1]) if len(xs) == 1 and xs[0][0] == 'one' else None
            if b is not None:
                v = [t for x in (b['data'], b['decoded']) for t in subterms(x) if t[0] in ('valof', 'elemof')]
                c.ob(f'{n}: proof blocks', bool(v), p, "aren't the proof's", p)
    c.rule('X05.blocks', "requested blocks are all returned, or an error says that one isn't found")
    c.anchor(got.get('sync.getBlocks'), 'getBlocks returns archives')
    r = got['sync.getBlocks'][0][0]
    for r, p, heads, segs in got['sync.getBlocks']:
        lps = [s for s in segs if s[0] == 'loop']
        if len(lps) != 1:
            c.unsure('getBlocks writes unrecognised blocks')
            continue
        it = lps[0][1]
        c.ob('all of them', has(it, Fn(lambda t: t == param('cids'))), p, "doesn't look at the requested CIDs", p)
        some = [t for t in subterms(r.S(p, it)) if t[0] == 'item' and isinstance(t[2], tuple) and t[2][0] == 'slice' and t[2] != ('slice', NONE, NONE, NONE)
                or t[0] == 'call' and fn_is(t[1], 'itertools.islice')]
        c.ob('all of them', not some, p, 'only looks at some of the requested CIDs', p)
        for facts, xs in lps[0][2]:
            if len(xs) != 1 or xs[0][0] != 'one' or carblock(xs[0][1]) is None:
                continue
            b = carblock(xs[0][1])
            at = with_facts(r, p, facts)
            src = [t for t in subterms(b['data']) if t[0] in ('item', 'get') and t[1][0] == 'call' and fn_is(t[1][1], 'read_many', 'read_many_raw')
                   or t[0] == 'call' and fn_is(t[1], 'Storage.read')]
            if not src:
                c.unsure('getBlocks reads blocks in an unrecognised way')
                continue
            t = src[0]
            c.ob('found', r.isnone(at, t) is False or r.truth(at, t) is True, p, "fails on a missing block without an error for it", p)
    nf = [q for q in r.raises if error_name(q) == 'BlockNotFound']
    for q in nf:
        there = {t for k in q.st.facts.d for t in subterms(k) if (t[0] in ('item', 'get') and t[1][0] == 'call' and fn_is(t[1][1], 'read_many', 'read_many_raw')
                                                                 or t[0] == 'call' and fn_is(t[1], 'Storage.read'))}
        c.ob('not found', not [st for st in r.cases(q) if any(r.isnone(st, t) is False or r.truth(st, t) is True for t in there) and
                               not any(r.isnone(st, t) is True or r.truth(st, t) is False for t in there)], q, "says that a block that's there isn't found", q)
    c.some('BlockNotFound', [e for q in nf for e in q.events[-1:]], "doesn't say that a block isn't found", r)
    c.rule('X05.head', "reported heads and revisions are the current head commit's own")
    for n, fields in (('sync.getHead', {'root': 'cid'}), ('sync.getLatestCommit', {'cid': 'cid', 'rev': 'rev'})):
        r = runh(c, handler(c, f'com.atproto.{n}'))
        for p in r.returns:
            s = r.S(p, p.value)
            heads = [A(e.res, 'head') for e in p.events if e.kind == 'call' and fn_is(e.fn, 'load_repo')]
            for k, what in fields.items():
                v = dget(s, k)
                if v is ...:
                    c.unsure(f'{n} returns an unrecognised shape')
                    continue
                if what == 'cid':
                    ok = any(match(C('?.encode', K('base32'), self=A(h, 'cid')), v or NONE) for h in heads)
                else:
                    ok = any(v == I(A(h, 'decoded'), 'rev') or is_get(v, A(h, 'decoded'), 'rev') for h in heads)
                c.ob(f'{n}: {k}', ok, p, "isn't the current head's", p)


def has_block(segs, heads):
    for s in segs:
        if s[0] == 'one':
            b = carblock(s[1])
            for h in heads:
                if b and (b['cid'] == A(h, 'cid') or b['cid'] == NONE and (b['data'] == A(h, 'encoded') or b['decoded'] == A(h, 'decoded'))):
                    return True
    return False


# ------------------------------------------------------------------ X06
LIMIT, CURSOR = param('limit'), param('cursor')


def page(t):
    """(what limits it, whether it has exactly one item for each of that's) of a list, or None."""
    if t[0] == 'call' and (fn_is(t[1], 'itertools.islice', 'load_repos') or t[1] == '?.fetch'):
        return t, True
    if t[0] == 'item' and t[2][0] == 'slice':
        p = page(t[1])
        return (t, True) if p is None else p
    if t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.zip', 'builtins.enumerate', 'copy.copy', 'builtins.sorted', 'builtins.reversed') and t[2]:
        return page(t[2][0][1])
    if t[0] in ('list', 'gen') and len(t[1]) == 1:
        g = t[1][0]
        if g[0] == 'spread':
            return page(g[1])
        if g[0] == 'loop':
            p = page(g[2])
            if p is None:
                return None
            one = all(len(segs) == 1 and segs[0][0] == 'one' for _, segs in g[3])
            return p[0], p[1] and one
    return None


def limit_of(t):
    """(how many, positional start) at most of a limiting term's items."""
    d = dict(t[2]) if t[0] == 'call' else {}
    if t[0] == 'item':
        lo, hi, step = t[2][1:]
        return hi if lo in (NONE, K(0)) and step in (NONE, K(1)) else None
    if fn_is(t[1], 'itertools.islice'):
        n = [v for k, v in t[2] if isinstance(k, int)]
        return n[1] if len(n) == 2 else None
    if fn_is(t[1], 'load_repos'):
        return d.get('limit', K(500))
    return d.get('limit', d.get(0, NONE))


def key_attr(t, base):
    """Which key of base t is, or None."""
    if t == A(base, 'key'):
        return 'key'
    if match(C('?.id', self=A(base, 'key')), t) or match(C('?.string_id', self=A(base, 'key')), t):
        return 'key.id()'
    if t == A(base, 'did') or t == I(base, 'did') or is_get(t, base, 'did'):
        return 'did'
    return None


@rules('X06', explanation='''Value numbering of every paged method's page, its limit, where it starts, and its cursor, on
every partition.''',
       assumptions=["Storage.load_repos() and MST.walk_leaves_from() return what C11 and M02 say",
                    'datastore queries without an explicit order, and with no inequality but on the key, are in key order'])
def paging(c):
    lex = json.load(open(LEX))
    paged = [n for n in nsids(c) if {'limit', 'cursor'} <= set(lex.get(n, {}).get('parameters') or ())]
    c.anchor(paged, 'methods with a limit and a cursor are registered')
    for nsid in paged:
        n = short(nsid)
        r = runh(c, handler(c, nsid))
        seen = 0
        for p in r.returns:
            v = r.S(p, p.value)
            cur = dget(v, 'cursor')
            if cur is ...:
                c.rule('X06.cursor', CURSOR_RULE)
                c.unsure(f'{n} returns an unrecognised shape')
                continue
            srcs = {}
            for t in [v] + [r.S(p, k) for k in p.st.facts.d]:
                for x in subterms(t):
                    if x[0] == 'call' and (fn_is(x[1], 'itertools.islice', 'load_repos') or x[1] == '?.fetch') or \
                            x[0] == 'item' and x[2][0] == 'slice' and (x[2][2] == LIMIT):
                        srcs[x] = True
            srcs = [x for x in srcs if not any(x != y and x in set(subterms(y)) for y in srcs)]
            c.rule('X06.limit', 'a page has at most the requested number of items')
            if not srcs:
                items = [e for e in v[1] if e[0] == 'kv' and e[2][0] in ('list', 'gen')]
                if v[0] == 'dict' and all(not e[2][1] for e in items) and cur is None:
                    continue    # an empty listing
                whole = [e for e in items if any(g[0] in ('loop', 'spread') for g in e[2][1])]
                if whole and not any(has(k, Fn(lambda t: t == LIMIT)) for k in p.st.facts.d) and not has(v, Fn(lambda t: t == LIMIT)):
                    c.ob(f'{n}: limit', False, p, "doesn't limit the page", p)
                else:
                    c.unsure(f'{n} limits its page in an unrecognised way')
                continue
            if len(srcs) != 1:
                c.unsure(f'{n} has several limits')
                continue
            src = srcs[0]
            seen += 1
            c.rule('X06.each', 'items with the same contents are all on their page')
            for x in subterms(v):
                if x[0] == 'loop' and len(x) > 2:
                    for it in (i for _, i in x[2][2]) if x[2][0] == 'call' and fn_is(x[2][1], 'zip') else (x[2],):
                        it = it[2][0][1] if it[0] == 'call' and it[1] in ('?.values', '?.items', '?.keys') else it
                        c.ob(f'{n}: each', not (it[0] == 'call' and fn_is(it[1], 'read_many', 'read_many_raw')), p,
                             'returns each block once, not each item', p)
            c.rule('X06.limit', 'a page has at most the requested number of items')
            lim = limit_of(src)
            if lim is None:
                c.unsure(f'{n} limits its page in an unrecognised way')
            elif lim == LIMIT or has(lim, Fn(lambda t: t == LIMIT)) and lim[0] == 'call' and fn_is(lim[1], 'int'):
                c.ob(f'{n}: limit', True, p)
            elif has(lim, Fn(lambda t: t == LIMIT)):
                ls, k = linear(lim)
                if ls == {LIMIT: 1}:
                    c.ob(f'{n}: limit', False, p, f"returns {'more' if k > 0 else 'fewer'} items than were asked for", p)
                else:
                    c.unsure(f'{n} limits its page to an unrecognised number')
            else:
                c.ob(f'{n}: limit', False, p, "doesn't limit the page to what was asked for", p)
            # where it starts, and in which order
            c.rule('X06.resume', RESUME_RULE)
            kind_ = None
            if src[0] == 'call' and fn_is(src[1], 'load_repos'):
                kind_ = 'did'
                start = dict(src[2]).get('after', NONE)
            elif src[0] == 'call' and src[1] == '?.fetch':
                kind_ = 'key.id()'
                q = query_of(src)
                start = NONE
                if q is None:
                    c.unsure(f'{n} has an unrecognised query')
                    continue
                model, filters, orders, rest = q
                bad = [o for o in orders if o != G(f'{model}.key') and o != A(G(model), 'key')]
                c.ob(f'{n}: order', not bad, p, "isn't in key order", p)
                skip = [m for m, d in rest if m == 'fetch' and d.get('offset', K(0)) not in (K(0), NONE)]
                c.ob(f'{n}: offset', not skip, p, "skips items", p)
                ks = [f for f in filters if f[0] == 'filter' and (gname(f[2]) or '').endswith('.key')]
                for fl in ks:
                    c.ob(f'{n}: after', fl[1] in ('>', '>='), p, "isn't at or after the cursor", p)
                    start = fl[3]
                    if match(A(C(model, id=ANY), 'key'), start) or match(A(C(model, id=ANY), '_key'), start):
                        start = dict(start[1][2])['id']
                    elif start[0] == 'call' and fn_is(start[1], 'Key'):
                        start = start[2][-1][1]
                if len(ks) > 1:
                    c.unsure(f'{n} has an unrecognised query')
                if ks and (r.truth(p, CURSOR) is False or r.isnone(p, CURSOR) is True or r.truth(p, CURSOR) is None and r.isnone(p, CURSOR) is None):
                    c.ob(f'{n}: no cursor', False, p, "needs a cursor", p)
                c.rule('X06.scope', 'a page has only items of the repo that was asked for')
                for fl in filters:
                    if fl[0] == 'filter' and (gname(fl[2]) or '').endswith('.repos'):
                        ids = [x for x in subterms(fl[3]) if x[0] == 'call' and fn_is(x[1], 'Key', 'AtpRepo')]
                        c.ob(f'{n}: repo', fl[1] in ('==', 'IN') and has(fl[3], Fn(lambda t: t == param('did') or t[0] == 'attr' and t[2] in ('did', 'key'))),
                             p, "isn't the requested repo's", p)
                        for x in ids:
                            v = dict(x[2])
                            c.ob(f'{n}: repo id', x[1].endswith('AtpRepo') and 'id' in v or not x[1].endswith('AtpRepo'), p, "isn't looked up by its DID", p)
                if not any(fl[0] == 'filter' and (gname(fl[2]) or '').endswith('.repos') for fl in filters):
                    c.unsure(f'{n} has an unrecognised query') if any(fl[0] != 'filter' for fl in filters) else \
                        c.ob(f'{n}: repo', False, p, "isn't of the repo that was asked for", p)
                c.rule('X06.resume', RESUME_RULE)
            else:
                walks = calls_in(src, 'walk_leaves_from')
                if len(walks) != 1:
                    c.unsure(f'{n} pages through something unrecognised')
                    continue
                kind_ = 'key'
                start = dict(walks[0][2]).get('key', NONE)
            given = r.truth(p, CURSOR)
            uses = has(start, Fn(lambda t: t == CURSOR))
            if start in (CURSOR, ('default', CURSOR, NONE)):
                c.ob(f'{n}: from the cursor', True, p)
            elif given is True or given is None and r.isnone(p, CURSOR) is False:
                if start[0] == 'fmt' and start != mk_fmt([CURSOR]) and cur and any(key_attr(cur, x) for x in subterms(cur)):
                    c.ob(f'{n}: from the cursor', False, p, "doesn't start from the cursor, but from something made of it", p)
                elif uses and not (start[0] == 'sum' or start[0] == 'bin'):
                    c.unsure(f'{n} starts from an unrecognised function of the cursor')
                else:
                    c.ob(f'{n}: from the cursor', False, p, "doesn't start from the cursor", p)
            elif given is False or r.isnone(p, CURSOR) is True:
                c.ob(f'{n}: from the start', not uses or start == CURSOR, p, "doesn't start from the beginning", p)
                if kind_ == 'key' and start not in (NONE, K('')):
                    co = param('collection')
                    ok = start == mk_fmt([co, K('/')])
                    c.ob(f'{n}: from the first', ok, p, "doesn't start at the collection's first record", p)
                elif kind_ != 'key':
                    c.ob(f'{n}: from the first', start in (NONE, K('')) or start == CURSOR, p, "doesn't start at the first item", p)
            elif start[0] == 'or' and start[1] and start[1][0] == CURSOR:
                c.ob(f'{n}: from the cursor', True, p)
            elif not uses:
                c.ob(f'{n}: from the cursor', False, p, "ignores the cursor", p)
            else:
                c.unsure(f'{n} starts from an unrecognised function of the cursor')
            # the next cursor
            c.rule('X06.cursor', CURSOR_RULE)
            full = None
            counts = []
            for k in p.st.facts.d:
                for x in subterms(k):
                    if x[0] == 'call' and x[1] == 'builtins.len':
                        counts.append(x)
                    elif x[0] == 'truth':
                        pass
            for x in dict.fromkeys(counts):
                what = r.S(p, x[2][0][1])
                pg = page(what)
                if pg is None or pg[0] != src:
                    continue
                eq = r.cmp(p, '==', x, LIMIT)
                ge = r.cmp(p, '>=', x, LIMIT)
                if eq is None and ge is None and not any(LIMIT in set(subterms(k)) and x in set(subterms(k)) for k in p.st.facts.d):
                    continue
                if not pg[1]:
                    c.ob(f'{n}: full', False, p, 'counts only some of a page\'s items to see whether it\'s full', p)
                    full = ...
                    break
                full = True if eq is True or ge is True else False if eq is False or ge is False else ...
                if full is ...:
                    c.ob(f'{n}: full', False, p, ('returns no cursor although the page may be' if cur is None or cur == NONE
                                                  else "returns a cursor although the page may not be") + ' full', p)
            else:
                if full is None:
                    seen_limit = any(LIMIT in set(subterms(k)) for k in p.st.facts.d)
                    if seen_limit:
                        c.unsure(f'{n} decides whether the page is full in an unrecognised way')
                    else:
                        c.ob(f'{n}: full', False, p, 'returns ' + ('a cursor whether or not' if cur is not None else 'no cursor, whether or not')
                             + ' the page is full', p)
                elif full is not ...:
                    absent = cur is None or cur == NONE
                    c.ob(f'{n}: full', full != absent, p, 'returns ' + ('no cursor although' if absent else 'a cursor although')
                         + ' the page is' + ("n't" if not full else '') + ' full', p)
            if cur is None or cur == NONE:
                continue
            last_item(c, r, p, n, cur, src, kind_, start)
        c.rule('X06.cursor', CURSOR_RULE)
        if not seen:
            c.unsure(f'{n} returns unrecognised pages')


RESUME_RULE = 'a page starts at or right after the cursor, if one is given, in key order'
CURSOR_RULE = "there's a cursor exactly when the page is full, and it's the last item's key"


def reordered(r, p, t, want):
    """Whether a page was put in another order than the one it's resumed in; None if that isn't known."""
    for x in subterms(t):
        if x[0] == 'call' and x[1] == 'builtins.reversed':
            return True
        if x[0] == 'call' and x[1] == 'builtins.sorted':
            d = dict(x[2])
            if d.get('reverse', K(False)) != K(False):
                return True if d['reverse'] == K(True) else None
            k = key_of(r, p, d['key']) if d.get('key', NONE) != NONE else ('x',)
            a = key_attr(k, ('x',)) if k is not None else None
            if a is None and (k is None or k[0] not in ('attr', 'item') or k[1] != ('x',)):
                return None
            if a != want:
                return True
    return False


def last_item(c, r, p, n, cur, src, want, start):
    if cur[0] == 'fmt' and len(cur[1]) == 1:
        cur = cur[1][0]
    for x in subterms(cur):
        k = key_attr(cur, x)
        if k is None:
            continue
        if x[0] == 'item':
            pg = page(x[1])
            if pg is None or pg[0] != src:
                c.unsure(f"{n}'s cursor is of an unrecognised item")
                return
            i = x[2]
            ln = ('call', 'builtins.len', ((0, x[1]),), None)
            last = i == K(-1) or mk_bin('-', i, ln) == K(-1) or mk_bin('-', i, LIMIT) == K(-1)
            if not last and not is_const(i):
                c.unsure(f"{n}'s cursor is of an unrecognised item")
                return
            re = reordered(r, p, x[1], want)
            if re is None:
                c.unsure(f"{n}'s page is in an unrecognised order")
                return
            c.ob(f'{n}: last', last and pg[1] and not re, p, "its cursor isn't of the last item", p)
        elif x[0] == 'lv':
            lp = r.it.loops.get(x[1])
            pg = page(r.S(p, lp.iter)) if lp is not None and lp.iter is not None else None
            re = reordered(r, p, r.S(p, lp.iter), want) if pg else None
            if pg is None or pg[0] != src or re is None:
                c.unsure(f"{n}'s cursor is of an unrecognised item")
                return
            c.ob(f'{n}: last', not re, p, "its cursor isn't of the last item", p)
            for key, (init, vals) in lp.changed.items():
                if key[0] == 'var' and key[2] == x[2]:
                    c.ob(f'{n}: last', all(val[0] == 'elemof' and val[2] == x[1] for val in vals), p, "its cursor isn't of the last item", p)
        else:
            continue
        c.ob(f'{n}: key', k == want, p, f"its cursor isn't the {want} that it resumes from", p)
        return
    x, made = cur, False
    while x[0] in ('attr', 'item') or x[0] == 'call' and x[1] in ('?.encode', '?.split', '?.removeprefix', '?.lower', '?.upper', '?.decode') \
            or x[0] == 'fmt' and len(x[1]) == 1:
        if x[0] == 'item' and page(x[1]):
            made = True
            break
        x = x[1][0] if x[0] == 'fmt' else dict(x[2])['self'] if x[0] == 'call' else x[1]
    if made and start in (CURSOR, NONE):
        c.ob(f'{n}: key', False, p, f"its cursor isn't the {want} that it resumes from", p)
    elif not any(page(x) for x in subterms(cur)) and not any(x[0] in ('lv', '?') for x in subterms(cur)):
        c.ob(f'{n}: last', False, p, "its cursor isn't of the last item", p)
    else:
        c.unsure(f"{n}'s cursor is unrecognised")


# ------------------------------------------------------------------ X07
BLOB = 'arroba.datastore_storage.AtpRemoteBlob'
SESSION_GET = 'util.session.get'
GET_FN = param('get_fn')


def own(x):
    return A(SELF, x)


def url_of(r, at, t, blob):
    """Is t the blob's URL? True, False or None."""
    key = [C('?.id', self=A(blob, 'key')), C('?.string_id', self=A(blob, 'key'))]
    if t == A(blob, 'url'):
        return r.truth(at, t) is True or r.isnone(at, t) is False
    if any(match(k, t) for k in key):
        return r.truth(at, A(blob, 'url')) is False or r.isnone(at, A(blob, 'url')) is True
    return False if not has(t, Fn(lambda x: x == A(blob, 'url'))) else None


def mentions(st, *ts):
    """Does anything known mention one of these?"""
    return any(t in set(subterms(k)) for k in st.facts.d for t in ts)


@rules('X07', explanation='''Partition analysis of the remote blob class and of the methods that serve its blobs: what
holds on each outcome of a fetch, and what is stored then; and value numbering of what is served.''',
       assumptions=['webutil.util.session is the protected HTTP session', "Response.raise_for_status() raises on 4xx and 5xx",
                    'server.validate_mime_type() raises on types that are not accepted'])
def blobs(c):
    r = c.run(f'{BLOB}.maybe_fetch', BLOB)
    fetch = lambda e: e.kind == 'call' and e.a.get('self') == GET_FN
    puts = lambda e: e.kind == 'call' and e.fn.endswith('.put') and e.a.get('self') == SELF
    c.anchor(any(fetch(e) for p in r.paths for e in p.events), 'maybe_fetch fetches blobs')
    types = lambda k: k[0] == 'in' and (gname(k[2]) or '').endswith('BLOB_REFETCH_TYPES') and has(k[1], Fn(lambda t: t == own('mime_type')))
    now = [e.res for p in r.paths for e in p.events if call('util.now')(e)]
    age = G('arroba.datastore_storage.BLOB_REFETCH_AGE')

    def recent(st):
        """Was it fetched recently? True, False or None."""
        none = r.isnone(st, own('last_fetched'))
        if none is True or none is None and r.truth(st, own('last_fetched')) is False:
            return False
        for n in dict.fromkeys(now):
            v = r.cmp(st, '>=', own('last_fetched'), mk_bin('-', n, age))
            if v is not None:
                return v
            if r.cmp(st, '>', own('last_fetched'), mk_bin('-', n, age)) is False:
                return False
        return None

    def misread(st):
        """Was its age compared to the wrong thing?"""
        for k in st.facts.d:
            if k[0] == 'lin':
                v = dict(k[1])
                f, n, a = v.get(own('last_fetched'), 0), sum(v.get(x, 0) for x in now), v.get(age, 0)
                if f and n and a and len(v) == 3 and (n != -f or a != f):
                    return True
        return False

    def settled(st):
        """Was it fetched, and is of a type that's never refetched?"""
        known = [v for k, v in st.facts.d.items() if types(k)]
        never = None if not known else not known[0]
        had = [r.truth(st, own('cid')), r.truth(st, own('last_fetched'))]
        if r.isnone(st, own('last_fetched')) is not None:
            had[1] = not r.isnone(st, own('last_fetched'))
        any_ = True if True in had else False if had == [False, False] else None
        if never is False or any_ is False:
            return False
        return True if never and any_ else None

    def typed(st):
        """Does it look at the type, in a way that isn't understood?"""
        return not any(types(k) for k in st.facts.d) and any(
            k not in (('truth', own('mime_type')), ('isnone', own('mime_type'))) and own('mime_type') in set(subterms(k)) for k in st.facts.d)

    def yes(st, x):
        return r.truth(st, own(x)) is True or x == 'cid' and r.isnone(st, own(x)) is False

    def not_(st, x):
        return r.truth(st, own(x)) is False or r.isnone(st, own(x)) is True

    c.rule('X07.due', "a blob isn't refetched unless it's due, and is if it is")
    for p in r.returns + r.raises:
        f = [e for e in p.events if fetch(e)]
        for at in r.cases(f[0] if f else p):
            if r.isnone(at, own('last_fetched')) is False and r.truth(at, own('last_fetched')) is False:
                continue    # times are always true
            a, b = settled(at), recent(at)
            if not_(at, 'cid') and not_(at, 'size'):
                # its first fetch didn't finish
                c.ob('unfinished', bool(f) or p.kind != 'return', p, "isn't fetched although it never was", p)
                continue
            if not f and p.kind == 'return' and not (yes(at, 'cid') or yes(at, 'size')):
                if any(typed(at) or own(x) in set(subterms(k)) and k not in (('truth', own(x)), ('isnone', own(x)))
                       for k in at.facts.d for x in ('cid', 'size')):
                    c.unsure('maybe_fetch decides when to refetch in an unrecognised way')
                else:
                    c.ob('unfinished', False, p, "isn't fetched although it may never have been", p)
                continue
            if a is not True and b is None and misread(at):
                c.ob('age', False, p, "compares a blob's age to something else", p)
            elif f:
                if a is None and typed(at) or b is None and mentions(at, age):
                    c.unsure('maybe_fetch decides when to refetch in an unrecognised way')
                else:
                    c.ob('not too often', a is False and b is False, f[0], "refetches a blob that isn't due", p)
            elif p.kind == 'return':
                if a is not True and b is not True and (mentions(at, age) and b is None or
                                                        typed(at)):
                    c.unsure('maybe_fetch decides when to refetch in an unrecognised way')
                else:
                    c.ob('often enough', a is True or b is True, p, "doesn't fetch a blob that's due", p)
    c.rule('X07.fetched', "a fetched blob's CID, size and type are those of the response, and are stored")
    for p in r.returns:
        f = [(i, e) for i, e in enumerate(p.events) if fetch(e)]
        if not f:
            continue
        i, e = f[-1]
        resp, content = e.res, A(e.res, 'content')
        u = url_of(r, e, e.a.get(0, e.a.get('url', NONE)), SELF)
        if u is None:
            c.unsure('maybe_fetch fetches an unrecognised URL')
        else:
            c.ob('url', u, e, "isn't the blob's URL", p)
        end = lambda n: p.st.attrs.get((SELF, n), own(n))
        cid = end('cid')
        want = OneOf(C('?.encode', K('base32'), self=C('CID', ANY, K(1), K('raw'), C('multihash.digest', content, K('sha2-256')))),
                     C('?.encode', K('base32'), self=C('CID', ANY, K(1), K('raw'), ('tuple', (K('sha2-256'), C('?.digest', self=C('sha256', content)))))))
        if match(want, cid):
            c.ob('cid', True, e)
        else:
            digest = [t for t in subterms(cid) if t[0] == 'call' and fn_is(t[1], 'multihash.digest')]
            cids = [t for t in subterms(cid) if t[0] == 'call' and fn_is(t[1], 'CID')]
            bad = not has(cid, Fn(lambda t: t == content)) or digest and not any(match(C('multihash.digest', content, K('sha2-256')), d) for d in digest) \
                or cids and not any(match(C('CID', ANY, K(1), K('raw')), d) for d in cids) or cids and digest
            if bad:
                c.ob('cid', False, e, "its CID isn't that of the bytes fetched", p)
            else:
                c.unsure("maybe_fetch's CID is unrecognised")
        size = end('size')
        c.ob('size', size == ('call', 'builtins.len', ((0, content),), None), e, "its size isn't that of the bytes fetched", p)
        mt = end('mime_type')
        hdr = [t for t in (('get', A(resp, 'headers'), K('Content-Type'), NONE), I(A(resp, 'headers'), 'Content-Type'))]
        hs = [t for k in list(p.st.facts.d) + [mt] for t in subterms(k) if t in hdr or match(C('?.get', K('Content-Type'), self=A(resp, 'headers')), t)]
        ok = mt in hs or mt != own('mime_type') and any(r.truth(p, h) is False or r.isnone(p, h) is True for h in hs)
        if not ok and hs and mt != own('mime_type') and any(has(mt, Fn(lambda t, h=h: t == h)) for h in hs):
            c.unsure("maybe_fetch's type is unrecognised")
        else:
            c.ob('type', ok, e, "its type isn't that of the response", p)
        c.ob('active', end('status') != K('inactive'), e, 'is inactive although it was fetched', p)
        after = [x for x in p.events[i:]]
        sets = [j for j, x in enumerate(after) if x.kind == 'setattr' and x.a.get('self') == SELF or call(f'AtpRemoteBlob.generate_metadata')(x)]
        ps = [j for j, x in enumerate(after) if puts(x)]
        c.ob('stored', bool(ps) and bool(sets) and max(ps) > max(sets), e, "isn't stored", p)
        ok = any(call('raise_for_status')(x) and x.a.get('self') == resp for x in after) or r.truth(p, A(resp, 'ok')) is True
        c.ob('checked', ok, e, 'an error response is used as the blob', p)
        lens = [t for k in p.st.facts.d for t in subterms(k) if t[0] == 'call' and t[1] == 'builtins.int' and has(t, Fn(lambda x: x == K('Content-Length')))]
        lens += [x.a['value'] for x in after if x.kind == 'setattr' and x.fn == 'size' and has(x.a['value'], Fn(lambda t: t == K('Content-Length')))]
        reads = [x for x in after if x.kind == 'setattr' and x.fn == 'cid']
        for t in dict.fromkeys(lens):
            for at in r.cases(p):
                big = r.cmp(at, '>', t, G('arroba.datastore_storage.BLOB_MAX_BYTES'))
                c.ob('not over-sized', big is False or r.truth(at, t) is False, e, 'is downloaded although its length is over the limit', p)
        mx = any(has(k, Fn(lambda t: (gname(t) or '').endswith('BLOB_MAX_BYTES'))) for q in r.paths for k in q.st.facts.d)
        c.ob('length', mx, e, "doesn't look at its length", p)
        lf = [x for x in p.events[:i] if x.kind == 'setattr' and x.fn == 'last_fetched' and x.a.get('self') == SELF]
        lf2 = [x for x in after if x.kind == 'setattr' and x.fn == 'last_fetched' and x.a.get('self') == SELF]
        c.ob('when', any(x.a['value'] in now for x in lf + lf2), e, "doesn't record when it was fetched", p)
        for x in after:
            if x.kind == 'read':
                c.ob('body', any(y[0] == 'try' for y in x.ctx), x, "a body that can't be downloaded isn't a failed fetch", p)
    c.rule('X07.length', "an over-sized blob's length is recorded, so that it isn't fetched again and again")
    for p in r.raises:
        f = [i for i, e in enumerate(p.events) if fetch(e)]
        if not f or p.exc.ev is not None or any(e.kind == 'catch' for e in p.events):
            continue
        pi = [i for i, y in enumerate(p.events) if puts(y)]
        si = [i for i, y in enumerate(p.events) if y.kind == 'setattr' and y.a.get('self') == SELF]
        c.ob('stored', bool(pi) and max(pi) > max(si, default=0), p, "isn't stored", p)
    c.rule('X07.failed', 'a blob that answers 4xx, or that fails before it was ever fetched, becomes inactive, no other failure makes it so, and every attempt is recorded')
    for p in r.raises:
        f = [(i, e) for i, e in enumerate(p.events) if fetch(e)]
        src = p.exc.ev
        first = [x for x in p.events if x.kind == 'catch' and getattr(x.x, 'ev', None) is not None]
        srcs = [x.x.ev for x in first] + ([src] if src is not None else [])
        failed = [x for x in srcs if fetch(x) or x.kind == 'read' or call('raise_for_status')(x)]
        if not failed or any(puts(x) for x in srcs):
            continue
        x = failed[0]
        resp = x.res if fetch(x) else x.a.get('self')
        excs = [y.x for y in first if y.x.ev is x] + ([p.exc] if src is x else [])
        if any('builtins.OSError' in (y.excluded or ()) for y in excs):
            # not a failed request
            st = p.st.attrs.get((SELF, 'status'), own('status'))
            c.ob('recorded', any(puts(y) for y in p.events), x, "isn't stored", p)
            continue
        st = p.st.attrs.get((SELF, 'status'), own('status'))
        c.ob('recorded', any(puts(y) for y in p.events) and
             (p.st.attrs.get((SELF, 'last_fetched')) in now), x, "doesn't record that it was tried", p)
        pi = [i for i, y in enumerate(p.events) if puts(y)]
        si = [i for i, y in enumerate(p.events) if y.kind == 'setattr' and y.a.get('self') == SELF and (
            x.kind != 'read' or y.fn == 'status')]
        c.ob('stored', not pi or not si or max(pi) > max(si), x, "isn't stored", p)
        for at in r.cases(p):
            if st == K('inactive'):
                sc = A(resp, 'status_code')
                was = r.truth(at, own('cid'))
                was = was is True or was is None and r.isnone(at, own('cid')) is False
                four = not was or not fetch(x) and (r.cmp(at, '==', mk_bin('//', sc, K(100)), K(4)) is True
                                                    or r.cmp(at, '<', sc, K(500)) is True and r.cmp(at, '>=', sc, K(400)) is True)
                if not four and r.cmp(at, '==', mk_bin('//', sc, K(100)), K(4)) is not False and any(sc in set(subterms(k)) and k != ('lin', ((sc, 1),)) for k in at.facts.d):
                    c.unsure('maybe_fetch looks at the status code in an unrecognised way')
                    continue
                c.ob('inactive', four, x, "is inactive because of a failed refetch, although it didn't answer 4xx", p)
                continue
            if r.truth(at, own('cid')) is not True and r.isnone(at, own('cid')) is not False:
                c.ob('first try', False, x, "isn't inactive although it was never fetched", p)
                continue
            if fetch(x) or x.kind == 'read':
                continue
            sc = A(resp, 'status_code')
            four = r.cmp(at, '==', mk_bin('//', sc, K(100)), K(4))
            if four is None:
                if r.cmp(at, '<', sc, K(400)) is True or r.cmp(at, '>=', sc, K(500)) is True or r.truth(at, A(resp, 'ok')) is True:
                    four = False
            if four is None and any(sc in set(subterms(k)) and k != ('lin', ((sc, 1),)) for k in at.facts.d):
                c.unsure('maybe_fetch looks at the status code in an unrecognised way')
            else:
                c.ob('4xx', four is False, x, "isn't inactive although it answered 4xx", p)
    c.rule('X07.valid', 'a valid blob has an accepted type, and is within the limits')
    r = c.run(f'{BLOB}.validate', BLOB)
    c.anchor(r.returns, 'validate() returns')
    mx, vmax = G('arroba.datastore_storage.BLOB_MAX_BYTES'), G('arroba.datastore_storage.VIDEO_MAX_DURATION')
    for p in r.returns:
        ok = any(e.kind == 'call' and e.fn.endswith('validate_mime_type') and (e.a.get(0, e.a.get('mime_type')) == own('mime_type')) and
                 e.a.get(1, e.a.get('accept')) == param('accept_types') for e in p.events)
        c.ob('type', ok, p, "its type isn't checked", p)
        for at in r.cases(p):
            none = lambda t: r.truth(at, t) is False or r.isnone(at, t) is True
            for what, lim in (('size', mx), ('size', param('max_size'))):
                ok = none(own(what)) or lim == param('max_size') and none(lim) or r.cmp(at, '>', own(what), lim) is False
                if not ok and mentions(at, lim) and r.cmp(at, '>', own(what), lim) is None and (not any(
                        k[0] == 'lin' and {t for t, _ in k[1]} == {own(what), lim} or k == ('truth', lim) for k in at.facts.d) or
                        any(t not in (own(what), lim, mx) for k in at.facts.d if k[0] == 'lin' and has(k, Fn(lambda x: x == lim)) for t, _ in k[1])):
                    c.unsure(f'validate() checks the {what} in an unrecognised way')
                else:
                    c.ob(f'{what}: {show(lim)}', ok, p, f'a blob whose {what} is over {show(lim)} is valid', p)
            d = own('duration')
            ms = [t for q in r.paths for k in q.st.facts.d for t in subterms(k) if t[0] == 'call' and fn_is(t[1], 'timedelta') and has(t, Fn(lambda x: x == d))]
            ok = none(d) or any(r.cmp(at, '>', t, vmax) is False and dict(t[2]).get('milliseconds') == d for t in ms)
            if not ok and mentions(at, vmax) and not ms:
                c.unsure('validate() checks the duration in an unrecognised way')
            else:
                c.ob('duration', ok, p, 'a blob whose duration is over the limit is valid', p)
    c.rule('X07.duration', "a blob's duration is the one that its video or image has, in ms")
    r = c.run(f'{BLOB}.generate_metadata', BLOB)
    n = 0
    for o in r.events(lambda e: e.kind == 'setattr' and e.fn in ('duration', 'width', 'height') and e.a['self'] == SELF):
        t = o.ev.a['value']
        while callname(t) in ('builtins.int', 'builtins.float', 'builtins.round', 'math.ceil') and t[2]:
            t = t[2][0][1]
        n += o.ev.fn == 'duration'
        if t == NONE:
            continue
        ok = t[0] == 'attr' and t[-1] == o.ev.fn
        c.ob(o.ev.fn, ok, o.ev, f"isn't the media's own {o.ev.fn}", o.path)
    c.some('duration', [1] * n, "its duration is never set")
    for p in r.returns:
        if any(e.kind == 'catch' for e in p.events) or any(e.kind == 'setattr' and e.fn == 'duration' for e in p.events):
            continue
        c.ob('every one', not any(k[0] in ('truth', 'isnone') and k[1][0] == 'attr' and k[1][-1] == 'duration' and v is (k[0] == 'truth')
                                  for k, v in p.facts.d.items()), p, "a duration isn't kept", p)
    c.rule('X07.created', 'the blob for a URL is active, fetched if need be, valid, and has its repo')
    r = c.run(f'{BLOB}.get_or_create', BLOB)
    c.anchor(r.returns, 'get_or_create() returns')
    url, repo = param('url'), param('repo')
    for p in r.returns:
        b = p.value
        made = [e for e in p.events if e.kind == 'call' and e.fn.endswith('.get_or_insert') and e.res == b]
        if not made:
            c.unsure('get_or_create returns an unrecognised blob')
            continue
        e = made[-1]
        k = e.a.get(0, NONE)
        # the key is the URL, or as much of it as fits
        ok = k == url and r.cmp(p, '>', ('call', 'builtins.len', ((0, url),), None), G('google.cloud.ndb.key._MAX_KEYPART_BYTES')) is not True or \
            k[0] == 'item' and k[1] == url and k[2][0] == 'slice' and k[2][1] in (NONE, K(0))
        c.ob('key', ok, e, "isn't the blob for its URL", p)
        c.ob('url', p.st.attrs.get((b, 'url')) == url, e, "hasn't the whole URL", p)
        seq = [x for x in p.events if x.a and x.a.get('self') == b and x.kind == 'call' and x.fn.rsplit('.', 1)[-1] in ('maybe_fetch', 'validate')]
        names = [x.fn.rsplit('.', 1)[-1] for x in seq]
        c.ob('fetched', 'maybe_fetch' in names, e, "isn't fetched", p)
        c.ob('validated', names[-1:] == ['validate'], e, "isn't validated after it was fetched", p)
        for x in seq:
            if x.fn.endswith('.validate'):
                ok = x.a.get('max_size') == param('max_size') and x.a.get('accept_types') == param('accept_types')
                c.ob('limits', ok, x, "isn't validated against the field's limits", p)
            else:
                c.ob('get_fn', x.a.get('get_fn') == GET_FN, x, "isn't fetched with the given function", p)
        mf = [x for x in seq if x.fn.endswith('.maybe_fetch')]
        at = mf[0] if mf else p
        s = attr_now(r, at, b, 'status', A(b, 'status'))
        s2 = attr_now(r, p, b, 'status', A(b, 'status'))
        ok = any(r.truth(p, x) is False or r.isnone(p, x) is True for x in (s, s2))
        c.ob('active', ok, e, 'may be inactive', p)
        has_ = ('in', A(repo, 'key'), A(b, 'repos'))
        apps = [i for i, x in enumerate(p.events) if x.kind in ('call', 'mutate') and x.fn.rsplit('.', 1)[-1] in ('append', 'extend') and
                x.a.get('self') == A(b, 'repos') and has(r.S(p, x.a.get(0, NONE)), Fn(lambda t: t == A(repo, 'key')))]
        sets = [i for i, x in enumerate(p.events) if x.kind == 'setattr' and x.fn == 'repos' and x.a['self'] == b and
                has(r.S(p, x.a['value']), Fn(lambda t: t == A(repo, 'key'))) and
                (has(r.S(p, x.a['value']), Fn(lambda t: t in (A(b, 'repos'), r.S(p, A(b, 'repos'))))) or r.truth(x, A(b, 'repos')) is False)]
        ps = [i for i, x in enumerate(p.events) if x.kind == 'call' and x.fn.endswith('.put') and x.a.get('self') == b]
        for at in r.cases(p):
            if r.truth(at, repo) is False or r.isnone(at, repo) is True:
                continue
            ok = r.decide(at, has_) is True or (apps or sets) and ps and max(ps) > min(apps + sets)
            if not ok and not apps and not sets and any(
                    x[0] == 'obj' and has(r.S(p, x), Fn(lambda t: t in (A(b, 'repos'), r.S(p, A(b, 'repos')))))
                    for k in at.facts.d for x in subterms(k)):
                c.unsure('get_or_create looks for the repo in an unrecognised way')
                continue
            c.ob('repo', ok, e, "its repo isn't recorded", p)
        # two accounts may start to use a blob at once
        txs = [x for x in e.ctx if x[0] in ('deco', 'with') and x[1][0] in ('call', 'glob') and fn_is(x[1][1], 'ndb.transactional', 'ndb.transaction')]
        for i in apps + sets:
            ups = [p.events[j] for j in ps if j > i and not any(p.events[k] in mf for k in range(j))]
            for x in [p.events[i]] + ups[:1]:
                c.ob('concurrent', bool(txs) and txs[-1] in x.ctx, x, "repos are added to a blob outside of the transaction that read it", p)
    c.rule('X07.served', "a blob is only redirected to if it's active, and has the requested CID")
    f = handler(c, 'com.atproto.sync.getBlob')
    r = runh(c, f)
    red = lambda e: e.kind == 'raise' and fn_is(e.fn or '', 'Redirect')
    n = 0
    for o in r.occs(red):
        exc = o.ev.x.term if o.ev.x is not None else NONE
        a = dict(exc[2]) if exc[0] == 'call' else {}
        to = a.get('to', a.get(1, NONE))
        bs = [t for t in subterms(to) if t[0] == 'elemof'] or [t[1] for t in subterms(to) if t[0] == 'attr' and t[2] in ('url', 'key')]
        if not bs:
            if any(t[0] in ('lv', '?', 'call', 'item') for t in subterms(to)):
                c.unsure('getBlob redirects to something unrecognised')
            else:
                c.ob('url', False, o.ev, "isn't a blob's URL", o.path)
            n += 1
            continue
        b = bs[-1]
        n += 1
        u = url_of(r, o.ev, to, b)
        if u is None:
            c.unsure('getBlob redirects to an unrecognised URL')
        else:
            c.ob('url', u, o.ev, "isn't the blob's URL", o.path)
        evs = o.before
        mf = [e for e in evs if e.kind == 'call' and e.fn.endswith('maybe_fetch') and e.a.get('self') == b and not caught(evs, e)]
        c.ob('fetched', bool(mf), o.ev, "without refetching it if it's due", o.path)
        s = attr_now(r, o.ev, b, 'status', A(b, 'status'))
        c.ob('active', r.truth(o.ev, s) is False or r.isnone(o.ev, s) is True, o.ev, 'although it may be inactive', o.path)
        q = query_of(inner(b[1])) if b[0] == 'elemof' else query_of(b) if b[0] == 'call' else None
        if q is None:
            c.unsure('getBlob looks blobs up in an unrecognised way')
            continue
        ok = any(fl[0] == 'filter' and fl[1] == '==' and (gname(fl[2]) or '').endswith('.cid') and fl[3] == param('cid') for fl in q[1])
        c.ob('cid', ok or r.cmp(o.ev, '==', A(b, 'cid'), param('cid')) is True, o.ev, "although it may have another CID", o.path)
    if not n:
        c.unsure('getBlob redirects in an unrecognised way')
    c.rule('X07.found', "getBlob tries each blob with the CID until one is active, and fails if there is none")
    for p in r.returns:
        c.ob('none', False, p, "succeeds although it found no active blob", p)
    for lp, outer in (x for p in r.paths for x in any_loops(p.events)):
        if lp.iter is None or query_of(inner(lp.iter)) is None:
            continue
        for b in lp.bodies:
            for e in flat(b.events):
                if e.kind == 'call' and e.fn.endswith('maybe_fetch'):
                    c.ob('unfetched', any(x[0] in ('try', 'with') for x in e.ctx), e, "fails if one of the blobs can't be fetched", None)
            if b.exit != 'break':
                continue
            bad = any(e.kind == 'catch' for e in flat(b.events)) or any(
                v is True and k[0] == 'truth' and k[1][0] == 'attr' and k[1][2] == 'status' for k, v in b.facts.d.items())
            c.ob('others', not bad, lp, "gives up after one that isn't active", None)
    c.rule('X07.session', 'fetches that clients can trigger use the protected HTTP session')
    for nsid, f in sorted(nsids(c).items()):
        r = runh(c, f)
        for o in r.occs(lambda e: e.kind == 'call' and ('get_fn' in e.a or e.fn.rsplit('.', 1)[-1] in ('maybe_fetch', 'get_or_create') or
                                                        fn_is(e.fn, 'did.resolve', 'did.resolve_plc', 'did.resolve_web', 'did.resolve_handle', 'requests.get'))):
            g = o.ev.a.get('get_fn')
            if g is None and o.ev.fn.startswith('?.'):
                g = dflt(c, o.ev.fn[2:])
            c.ob(f'{short(nsid)}: {o.ev.fn.rsplit(".", 1)[-1]}', g is not None and (gname(g) or '').endswith(SESSION_GET), o.ev,
                 "doesn't use the protected session", o.path)
    for m in ('get_or_create', 'maybe_fetch'):
        g = dflt(c, m)
        c.ob(f'{m}: default', g is None or (gname(g) or '').endswith(SESSION_GET), c.prog.func(f'{BLOB}.{m}'), "isn't the protected session", None)


def dflt(c, m):
    """Default of a blob method's get_fn, as a global, if it has one."""
    f = c.prog.func(f'{BLOB}.{m}')
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return G(resolved(c, f, d['get_fn'])) if 'get_fn' in d else None
