"""What both storages keep of repos and blocks, and how they find and list them."""
from .accounts import *
from .common import with_facts   # noqa: F811

BLOCKENT = f'{DSM}.AtpBlock'
ATPREPO = f'{DSM}.AtpRepo'
UTC = OneOf(G('datetime.timezone.utc'), G('datetime.UTC'))


# ------------------------------------------------------------------ memory
def new_repos(c, r, p):
    """[(event, {attribute: value})] for Repo objects made on a partition, in or out of loops."""
    out = []
    for e in flat(p.events):
        if e.kind == 'new' and fn_is(e.fn, 'Repo'):
            out.append((e, {}))
        if e.kind == 'setattr':
            for n, a in out:
                if n.res == e.a['self']:
                    a[e.fn] = e.a['value']
    return [(e, a) for e, a in out if 'head' in a]     # others failed


@rules('C11', explanation='''Dataflow of each stored field of repos and blocks through both storages'
conversions, and of the lookups' and listings' results.''')
def memory(c):
    c.rule('C11.memory', "MemoryStorage keeps the repo objects that it's given, under their DIDs, and finds them by DID or handle")
    repos = A(SELF, 'repos')
    for m in ('create_repo', 'store_repo'):
        r = c.run(f'{MEM}.{m}', MEM)
        for p in r.returns:
            attempt(c, m, kept, c, r, p, m, repos)
    r = c.run(f'{MEM}.load_repo', MEM)
    attempt(c, 'load_repo', memory_load, c, r, repos)
    c.rule('C11.memory-list', 'MemoryStorage lists every repo, in ascending DID order, strictly after the given one, up to the limit')
    r = c.run(f'{MEM}.load_repos', MEM)
    for p in r.returns:
        attempt(c, 'load_repos', listing, c, r, p, repos)
    c.rule('C11.memory-blocks', "MemoryStorage looks blocks up by CID, and says so if they aren't stored")
    blocks = A(SELF, 'blocks')
    cid = param('cid')
    r = c.run(f'{MEM}.read', MEM)
    for p in r.returns:
        attempt(c, 'read', memory_read, c, r, p, p, p.value, cid, 'read')
    r = c.run(f'{MEM}.has', MEM)
    for p in r.returns:
        attempt(c, 'has', memory_has, c, r, p, blocks, cid)
    r = c.run(f'{MEM}.read_many', MEM)
    for p in r.returns:
        attempt(c, 'read_many', memory_many, c, r, p)
    r = c.run(f'{MEM}.read_many_raw', MEM)
    for p in r.returns:
        attempt(c, 'read_many_raw', memory_raw, c, r, p, blocks)


def kept(c, r, p, m, repos):
    sets = [(e.a['key'], e.a['value']) for e in p.events if e.kind == 'setitem' and e.a['self'] == repos]
    other = [e for e in p.events if e.a.get('self') == repos and e.kind in ('call', 'mutate', 'delitem')
             and e.fn.rsplit('.', 1)[-1] not in ('get', 'values', 'items', 'keys')]
    for e in other:
        if call('?.setdefault')(e):
            sets.append(NONE)      # keeps the old one
            continue
        if e.fn.rsplit('.', 1)[-1] != 'update':
            raise Unk(f'{m} calls {e.fn}')
        for x in contents(r, e, e.a.get(0, NONE)):
            if x[0] != 'kv':
                raise Unk(f'{m} updates with {show(x)[:60]}')
            sets.append(x[1:])
    c.ob(m, sets == [(A(REPO, 'did'), REPO)], p, "doesn't store the repo under its DID", p)


def memory_load(c, r, repos):
    x = param('did_or_handle')
    hits = 0
    for p in r.returns:
        if p.value == NONE:
            # a complete search: a loop over every repo, where an iteration goes on only if neither matches
            lps = [lp for lp in all_loops(p) if has(lp.iter, Fn(lambda t: t == repos))]
            if not lps and has_loops(p):
                raise Unk('a search of other repos')
            c.ob('load_repo miss', bool(lps) or r.decide(p, ('in', x, repos)) is False, p, "says that a repo isn't there without looking at all", p)
            for lp in lps:
                for b in lp.bodies:
                    if b.exit != 'back':
                        continue
                    es = repo_elem(lp)
                    for at in r.cases(b):
                        did = any(r.cmp(at, '==', x, A(e, 'did')) is False or r.cmp(at, '==', x, K0(e)) is False for e in es) \
                            or absent(r, at, x, repos) or absent(r, p, x, repos)
                        handle = any(r.cmp(at, '==', x, A(e, 'handle')) is False for e in es)
                        c.ob('load_repo skips', did and handle, b.events[-1] if b.events else p, "passes over a repo with this DID or handle")
        else:
            hits += 1
            v = p.value
            if v[0] == 'get' and v[1] == repos and v[2] == x or is_get(v, repos, x) and v[0] != 'item':
                # a hit, or None
                c.ob('load_repo miss', r.truth(p, v) is True or r.isnone(p, v) is False, p, "doesn't look for its handle", p)
                continue
            if v[0] not in ('elemof', 'valof', 'item', 'get'):
                raise Unk(f'the repo {show(v)[:60]}')
            for at in r.cases(p):
                ok = r.cmp(at, '==', x, A(v, 'did')) is True or r.cmp(at, '==', x, K0(v)) is True or r.cmp(at, '==', x, A(v, 'handle')) is True \
                    or v == ('item', repos, x) and r.decide(at, ('in', x, repos)) is True \
                    or v[0] == 'item' and v[1] == repos and r.cmp(at, '==', x, v[2]) is True
                c.ob('load_repo hit', ok, p, 'returns another repo', p)
    c.ob('load_repo', hits > 0, r.returns[0] if r.returns else r, 'never finds anything')
    no_failure(c, r, 'load_repo', lambda t: has(t, Fn(lambda y: y == repos)))


def absent(r, at, x, repos):
    """Is it known that there's nothing under this key?"""
    gets = [t for t in (('get', repos, x, NONE), ('get', repos, x)) if r.truth(at, t) is False or r.isnone(at, t) is True]
    return bool(gets) or r.decide(at, ('in', x, repos)) is False


def has_loops(p):
    return any(True for _ in all_loops(p))


def no_failure(c, r, inst, lookup):
    """Nothing's raised because something isn't stored."""
    for p in r.raises:
        ev = p.events[-1] if p.events else None
        if ev is None or ev.kind != 'raise' or ev.fn == '?implicit' or p.exc is None or fn_is(p.exc.cls or '', 'AssertionError'):
            continue
        gone = [k for k, v in p.facts if (k[0] == 'truth' and v is False or k[0] == 'isnone' and v is True or k[0] == 'in' and v is False)
                and lookup(k[-1] if k[0] == 'in' else k[1])]
        c.ob(f'{inst} raises', not gone, ev, "fails on what isn't stored", p)


def not_none(v):
    return None if v is None else not v


def K0(e):
    return ('keyof', e[1], e[2]) if e[0] == 'valof' else e


def repo_elem(lp):
    out = []
    for b in lp.bodies:
        for k in b.st.facts.d:
            out += [t for t in subterms(k) if t[0] in ('valof', 'elemof') and t[2] == lp.lid]
    return list(dict.fromkeys(out)) or [('valof', lp.iter, lp.lid)]


def memory_read(c, r, p, at, v, cid, inst):
    """Is v the block with this CID, or None?"""
    blocks = A(SELF, 'blocks')
    got = r.decide(at, ('in', cid, blocks))
    g = ('get', blocks, cid, NONE)
    if got is None and v == NONE:
        got = not_none(r.isnone(at, g))
        if got is None and (r.truth(at, g) is False or missed(p, 'KeyError', 'LookupError', 'Exception')):
            got = False
    if v == NONE:
        ok = got is False
    elif v == ('item', blocks, cid):
        ok = got is True or got is None and any(missed(q, 'KeyError', 'LookupError', 'Exception') for q in r.returns)
    elif is_get(v, blocks, cid):
        ok = True
    elif v[0] == 'call' and fn_is(v[1], 'Storage.read', 'MemoryStorage.read'):
        d = dict(v[2])
        ok = d.get('self') == SELF and d.get('cid', d.get(0)) == cid and inst != 'read'
    elif v[0] in ('get', 'item') or v[0] == 'call' and callname(v) == '?.get':
        ok = False
    else:
        raise Unk(f'{inst} returns {show(v)[:60]}')
    c.ob(inst, ok, p, "isn't the stored block, or None", p)


def missed(p, *names):
    return any(e.kind == 'catch' and any(fn_is(x, *names) for x in e.fn.split(',')) for e in p.events)


def memory_has(c, r, p, blocks, cid):
    isin = r.decide(p, ('in', cid, blocks))
    if isin is None:
        isin = not_none(r.isnone(p, ('get', blocks, cid, NONE)))
    if isin is None:
        for e in evs(p, 'MemoryStorage.read', 'Storage.read'):
            if e.a.get('cid', e.a.get(0)) == cid:
                isin = not_none(r.isnone(p, e.res))
                isin = r.truth(p, e.res) if isin is None else isin
    if p.value not in (TRUE, FALSE):
        if p.value[0] in ('cmp', 'not', 'call', 'or', 'and') and not fn_is(callname(p.value) or '', 'builtins.bool'):
            raise Unk(f'has returns {show(p.value)[:60]}')
    c.ob('has', p.value in (TRUE, FALSE) and cval(p.value) == isin, p, "isn't whether the block is stored", p)


def requested(r, at, t, name='cids'):
    """Is it every one of the given CIDs?"""
    t = unwrap(t, 'list', 'tuple', 'set', 'frozenset', 'iter', 'fromkeys', 'sorted')
    if t == param(name):
        return True
    if callname(t) in ('builtins.zip', 'builtins.enumerate'):
        # the other collections have something for each one
        d = dict(t[2])
        for k in sorted(k for k in d if isinstance(k, int)):
            try:
                if requested(r, at, d[k], name):
                    return True
            except Unk:
                pass
    got = contents(r, at, t)
    if len(got) == 2 and {x[0] for x in got} == {'all', 'each'} and got[0][0] == 'all':
        return requested(r, at, got[0][1], name)     # ones that are there already
    if len(got) != 1:
        raise Unk(f'which CIDs {show(t)[:60]} has')
    if got[0][0] == 'all':
        return requested(r, at, got[0][1], name)
    if got[0][0] == 'each':
        for facts, segs in got[0][3]:
            mapped = len(segs) == 1 and segs[0][0] == 'kv' and segs[0][2][0] == 'elemof' and segs[0][2][2] == got[0][2]
            if facts or not mapped and segs != (('one', ('elemof', got[0][1], got[0][2])),):
                raise Unk(f'which CIDs {show(t)[:60]} has')
        return requested(r, at, got[0][1], name)
    raise Unk(f'which CIDs {show(t)[:60]} has')


def entries_by_cid(c, r, p, inst):
    """[(facts, key, value)] of a result that has an entry for each requested CID."""
    got = contents(r, p, p.value)
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk(f'{inst} returns {show(r.S(p, p.value))[:60]}')
    _, it, lid, alts = got[0]
    c.ob(f'{inst} all', requested(r, p, it), p, "doesn't look at every requested CID", p)
    out = []
    for facts, segs in alts:
        if not segs:
            out.append((facts, None, None))
            continue
        if len(segs) != 1 or segs[0][0] != 'kv':
            raise Unk(f'{inst} returns {show(segs)[:60]}')
        out.append((facts, segs[0][1], segs[0][2]))
    return out, lid


def memory_many(c, r, p):
    found, lid = entries_by_cid(c, r, p, 'read_many')
    for facts, k, v in found:
        if k is None:
            c.ob('read_many', False, p, 'leaves out a requested CID', p)
            continue
        c.ob('read_many key', k[0] == 'elemof' and k[2] == lid, p, "isn't keyed by CID", p)
        memory_read(c, r, p, with_facts(r, p, facts), v, k, 'read_many')


def memory_raw(c, r, p, blocks):
    found, lid = entries_by_cid(c, r, p, 'read_many_raw')
    for facts, k, v in found:
        at = with_facts(r, p, facts)
        if k is None or v == NONE:
            gone = [b for b, val in ((kk[1], val) for kk, val in facts if kk[0] in ('truth', 'isnone') and val is (kk[0] == 'isnone'))
                    if is_get_raw(b, blocks, lid)]
            gone += [kk for kk, val in facts if kk[0] == 'in' and kk[2] == blocks and val is False]
            gone += [kk for kk, val in facts if kk[0] == 'isnone' and val is True and own_read(kk[1], lid)]
            c.ob('read_many_raw missing', bool(gone), p, 'leaves out a stored block', p)
            continue
        if v[0] != 'tuple' or len(v[1]) != 2:
            raise Unk(f'read_many_raw returns {show(v)[:60]}')
        b = v[1][0][1] if v[1][0][0] == 'attr' else NONE
        c.ob('read_many_raw', v[1] == (A(b, 'encoded'), A(b, 'seq')), p, "isn't the block's bytes and sequence number", p)
        mine = is_get_raw(b, blocks, lid) or own_read(b, lid)
        c.ob('read_many_raw block', mine and k[0] == 'elemof' and k[2] == lid, p, "isn't the requested block", p)
        c.ob('read_many_raw found', r.truth(at, b) is True or r.isnone(at, b) is False or b[0] == 'item' and r.decide(at, ('in', b[2], blocks)) is True,
             p, "fails on a block that isn't stored", p)


def decoded_key(k, lid):
    return k[0] == 'call' and fn_is(k[1], 'CID.decode') and k[2][0][1][0] == 'elemof' and k[2][0][1][2] == lid


def own_read(t, lid):
    d = dict(t[2]) if t[0] == 'call' else {}
    return t[0] == 'call' and fn_is(t[1], 'Storage.read', 'MemoryStorage.read') and decoded_key(d.get('cid', d.get(0, NONE)), lid)


def is_get_raw(b, blocks, lid):
    return b[0] in ('get', 'item', 'call') and any(decoded_key(x, lid) for x in subterms(b)) and is_get(b, blocks, next(
        x for x in subterms(b) if decoded_key(x, lid)))


# ------------------------------------------------------------------ listings
def listing(c, r, p, repos):
    """A list of repos: which are there, in which order, and how many."""
    after, limit = param('after'), param('limit')
    seen = {'limit': False, 'order': False, 'after': False}
    given = r.truth(p, after) is not False and r.isnone(p, after) is not True
    t = p.value
    for _ in range(20):
        t = inner(t)
        s = r.shape(p, t) if t[0] == 'obj' else t
        if s[0] in ('list', 'gen') and len(s[1]) == 1 and s[1][0][0] == 'spread':
            t = s[1][0][1]
            continue
        if s[0] == 'list' and len(s[1]) == 1 and s[1][0][0] == 'sorted':
            order(c, r, p, dict(s[1][0][2]), kind_of(r, p, ('list', s[1][0][1]), repos), seen)
            t = ('list', s[1][0][1])
            continue
        if s[0] == 'call' and fn_is(s[1], 'itertools.islice'):
            a = dict(s[2])
            c.ob('limit', a.get(1) == limit and set(a) <= {0, 1}, p, "isn't limited to the given number", p)
            late(c, p, seen)
            t = a[0]
            continue
        if s[0] == 'call' and fn_is(s[1], 'heapq.nsmallest'):
            a = dict(s[2])
            c.ob('limit', a.get(0) == limit, p, "isn't limited to the given number", p)
            late(c, p, seen)
            order(c, r, p, a, kind_of(r, p, a.get(1, NONE), repos), seen)
            t = a[1]
            continue
        if s[0] == 'slice' or s[0] == 'item' and s[2][0] == 'slice':
            sl = s[2]
            c.ob('limit', sl[1] in (NONE, None, K(0)) and sl[2] == limit and sl[3] in (NONE, None, K(1)), p, "isn't limited to the given number", p)
            late(c, p, seen)
            t = s[1]
            continue
        if s[0] == 'call' and fn_is(s[1], 'builtins.sorted'):
            a = dict(s[2])
            order(c, r, p, a, kind_of(r, p, a.get(0, NONE), repos), seen)
            t = a.get(0, NONE)
            continue
        if s[0] == 'call' and fn_is(s[1], 'itertools.dropwhile', 'builtins.filter', 'itertools.filterfalse'):
            a = dict(s[2])
            vs = key_cases(r, p, a.get(0, NONE), ('x',))
            if vs is None:
                raise Unk('which repos are skipped')
            did = ('x',) if kind_of(r, p, a.get(1, NONE), repos) == 'did' else A(('x',), 'did')
            keep = fn_is(s[1], 'builtins.filter')
            skip_ok = all(v in (TRUE, FALSE) and r.cmp(at, '>', did, after) is (cval(v) is keep) for at, v in vs) if given else \
                all(v in (TRUE, FALSE) and cval(v) is keep for at, v in vs)
            c.ob('after', skip_ok, p, "doesn't start strictly after the given DID", p)
            seen['after'] = True
            t = a[1]
            continue
        if s[0] in ('list', 'gen', 'set'):
            ol = one_loop(s)
            if ol is None:
                raise Unk(f'load_repos returns {show(s)[:60]}')
            if ol[0] is None or any(k[0] == 'lin' and limit in [x for x, _ in k[1]] for f, _ in ol[1] for k, _ in f):
                raise Unk('load_repos searches in an unrecognised way')
            if layer(c, r, p, ol, repos, after):
                seen['after'] = True
            t = ol[0]
            continue
        break
    if base_kind(t, repos) is None:
        raise Unk(f'load_repos lists {show(t)[:60]}')
    c.ob('limit', seen['limit'], p, "isn't limited to the given number", p)
    c.ob('order', seen['order'], p, "isn't in ascending DID order", p)
    c.ob('after', seen['after'] or not given, p, 'ignores the DID to start after', p)


def late(c, p, seen):
    c.ob('limit last', not (seen['order'] or seen['after']), p, 'limits the number before choosing which ones', p)
    seen['limit'] = True


def base_kind(t, repos):
    t = inner(t)
    if t == repos or mcall(t, 'keys') and mcall(t, 'keys')['self'] == repos:
        return 'did'
    if mcall(t, 'values') and mcall(t, 'values')['self'] == repos:
        return 'repo'
    if mcall(t, 'items') and mcall(t, 'items')['self'] == repos:
        return 'item'
    return None


def kind_of(r, at, t, repos):
    """Does a collection have repos or DIDs?"""
    t = inner(t)
    k = base_kind(t, repos)
    if k:
        return k
    s = r.shape(at, t) if t[0] == 'obj' else t
    if s[0] == 'call' and fn_is(s[1], 'builtins.sorted', 'itertools.islice'):
        return kind_of(r, at, dict(s[2])[0], repos)
    if s[0] == 'call' and fn_is(s[1], 'itertools.dropwhile', 'builtins.filter', 'itertools.filterfalse', 'heapq.nsmallest'):
        return kind_of(r, at, dict(s[2])[1], repos)
    if s[0] == 'item' and s[2][0] == 'slice' or s[0] == 'slice':
        return kind_of(r, at, s[1], repos)
    if s[0] in ('list', 'gen', 'set') and len(s[1]) == 1:
        g = s[1][0]
        if g[0] == 'spread':
            return kind_of(r, at, g[1], repos)
        if g[0] == 'sorted':
            return kind_of(r, at, ('list', g[1]), repos)
        ol = one_loop(s)
        if ol is not None and ol[0] is not None:
            for facts, segs in ol[1]:
                for sg in segs:
                    return elem_kind(r, at, sg[1], repos, ol)
    raise Unk(f'what {show(t)[:60]} has')


def elem_kind(r, at, x, repos, ol):
    if x[0] == 'valof' and x[1] == repos:
        return 'repo'
    if x[0] == 'keyof' and x[1] == repos:
        return 'did'
    if x[0] == 'item' and x[1] == repos:
        return 'repo'
    if x[0] == 'attr' and x[2] == 'did':
        return 'did'
    if x[0] in ('elemof',):
        return kind_of(r, at, x[1], repos)
    raise Unk(f'what {show(x)[:60]} is')


def order(c, r, p, a, kind, seen):
    key = a.get('key')
    k = key_of(r, p, key) if key is not None and key != NONE else ('x',)
    if k is None:
        raise Unk('what repos are ordered by')
    want = {'repo': A(('x',), 'did'), 'did': ('x',), 'item': I(('x',), 0)}[kind]
    c.ob('order', a.get('reverse', FALSE) == FALSE and (k == want or kind == 'item' and k == ('x',)), p, "isn't in ascending DID order", p)
    seen['order'] = True


def layer(c, r, p, ol, repos, after):
    """One comprehension or loop: what it maps its elements to, and which ones it leaves out."""
    filters = False
    for facts, segs in ol[1]:
        es = [x for k, _ in facts for x in subterms(k) if x[0] in ('elemof', 'valof', 'keyof')]
        es += [x for sg in segs for x in subterms(sg[1]) if x[0] in ('elemof', 'valof', 'keyof')]
        if len(segs) > 1:
            raise Unk('load_repos lists more than one repo at a time')
        if not es:
            raise Unk('which repos are listed')
        e = es[0]
        did = e if elem_kind(r, p, e, repos, ol) == 'did' else A(e, 'did')
        if segs:
            x = segs[0][1]
            if x not in (e, ('item', repos, did), ('item', repos, e), ('valof', repos, e[2])) and x != did:
                raise Unk(f'load_repos lists {show(x)[:60]}')
        for at in r.cases(with_facts(r, p, facts)):
            gt = r.cmp(at, '>', did, after)
            if r.truth(at, after) is False or r.isnone(at, after) is True:
                c.ob('all', bool(segs), p, 'leaves out repos', p)
            elif segs:
                c.ob('after', gt is not False, p, "doesn't start strictly after the given DID", p)
                filters = filters or gt is True
            else:
                c.ob('all', gt is False, p, 'leaves out repos', p)
    return filters


def key_cases(r, p, f, arg):
    """[(state, value)] of a predicate applied to arg."""
    if f[0] != 'func':
        return None
    r.it.pending.append([])
    try:
        return list(r.it.call(p.st, f, [arg], [], r.func.node, False))
    except Exception:
        return None
    finally:
        r.it.pending.pop()


# ------------------------------------------------------------------ datastore
def entity(r, p, put):
    """The entity that a put stores: {attribute: value}, and the lookup that it comes from, if any."""
    ent = put.a.get('self', NONE)
    if ent[0] == 'obj' or put.fn.rsplit('.', 1)[-1] != 'put':
        raise Unk(f'{show(ent)[:60]} is put')
    f = dict(ent[2]) if ent[0] == 'call' and fn_is(ent[1], 'AtpRepo') else {}
    sets = {}
    for e in flat(p.events):
        if e is put:
            break
        if e.kind == 'setattr' and e.a['self'] == ent:
            sets[e.fn] = e.a['value']
        if e.kind == 'call' and e.fn.rsplit('.', 1)[-1] == 'populate' and e.a.get('self') == ent:
            sets.update({k: v for k, v in e.a.items() if k != 'self'})
    return ent, {**f, **sets}, sets


@rules('C11')
def datastore(c):
    c.rule('C11.repo-out', "DatastoreStorage stores each of a repo's DID, handle, status, head and keys, under its DID")
    r = c.run(f'{DS}.create_repo', DS)
    for p in r.returns:
        attempt(c, 'create_repo', ds_create, c, r, p)
    r = c.run(f'{DS}.store_repo', DS)
    for p in r.returns:
        attempt(c, 'store_repo', ds_store, c, r, p)
    c.rule('C11.repo-in', "DatastoreStorage gives each loaded repo its own stored handle, status, head, keys and creation time; None if it isn't stored")
    for k in ('signing', 'rotation'):
        r = c.run(f'{ATPREPO}.{k}_key', ATPREPO)
        e = A(SELF, f'encrypted_{k}_key')
        for p in r.returns:
            if p.value == NONE:
                c.ob(f'AtpRepo.{k}_key None', r.truth(p, e) is False or r.isnone(p, e) is True, p, 'drops its key', p)
            elif p.value[0] == 'call' and fn_is(p.value[1], 'load_pem_private_key'):
                d = dict(p.value[2])
                c.ob(f'AtpRepo.{k}_key', d.get(0, d.get('data')) == e, p, "isn't its stored key", p)
            elif has(p.value, Fn(lambda t: t == e)) or p.value[0] == 'call':
                c.unsure(f'AtpRepo.{k}_key returns {show(p.value)[:60]}')
            else:
                c.ob(f'AtpRepo.{k}_key', False, p, "isn't its stored key", p)
    r = c.run(f'{DS}.load_repo', DS)
    attempt(c, 'load_repo', ds_load, c, r)
    c.rule('C11.datastore-list', 'DatastoreStorage lists every repo, in DID order, strictly after the given one, up to the limit, each with its own head, tree, status, handle and keys')
    r = c.run(f'{DS}.load_repos', DS)
    for p in r.returns:
        attempt(c, 'load_repos', ds_list, c, r, p)
    c.rule('C11.datastore-blocks', "DatastoreStorage looks blocks up by CID, and says so if they aren't stored; a loaded block has its own bytes, number, time and owner")
    r = c.run(f'{DS}.read', DS)
    for p in r.returns:
        attempt(c, 'read', ds_read, c, r, p)
    no_failure(c, r, 'read', lambda t: bool(calls_in(t, 'get_by_id')))
    r = c.run(f'{DS}.has', DS)
    for p in r.returns:
        attempt(c, 'has', ds_has, c, r, p)
    r = c.run(f'{DS}.read_many', DS)
    for p in r.returns:
        attempt(c, 'read_many', ds_many, c, r, p)
    attempt(c, 'to_block', to_block, c)
    attempt(c, 'from_block', from_block, c)
    c.rule('C11.block', "a Block keeps the sequence number, operations, owner and time that it's given")
    r = c.run('arroba.storage.Block.__init__', 'arroba.storage.Block')
    for p in r.returns:
        for a in ('seq', 'ops', 'repo', 'time'):
            v = p.st.attrs.get((SELF, a))
            if a == 'time' and (r.truth(p, param(a)) is False or r.isnone(p, param(a)) is True):
                continue
            if v != param(a) and v is not None and has(v, param(a)):
                c.unsure(f'Block {a}: {show(v)[:60]}')
            else:
                c.ob(f'Block {a}', v == param(a), p, f"isn't the {a} it's given", p)
    c.rule('C11.raw', "Raw reads fetch every requested CID, ask again for those that were deferred, and file each block's bytes and sequence number under its own CID")
    r = c.run(f'{DS}.read_many_raw', DS)
    for p in r.returns:
        attempt(c, 'read_many_raw', raw, c, r, p)
    c.rule('C11.write', 'Each written object is stored whole, with its own sequence number and owner')
    for cls in (MEM, DS):
        r = c.run(f'{cls}.write', cls)
        for p in r.returns:
            attempt(c, 'write', written, c, r, p)
    attempt(c, 'create', created, c)


def ds_create(c, r, p):
    head = b32(A(REPO, 'head', 'cid'))
    puts = evs(p, 'put')
    if len(puts) != 1:
        if evs(p, 'put_multi', 'put_async', 'get_or_insert'):
            raise Unk('create_repo stores in an unrecognised way')
        c.ob('create_repo', False, p, "doesn't put one repo entity", p)
        return
    ent, f, _ = entity(r, p, puts[0])
    if not (ent[0] == 'call' and fn_is(ent[1], 'AtpRepo')):
        raise Unk(f'create_repo puts {show(ent)[:60]}')
    kid = dict(f['key'][2]).get(1) if f.get('key', NONE)[0] == 'call' else f.get('id')
    c.ob('create_repo key', kid == A(REPO, 'did'), puts[0], "isn't stored under its DID", p)
    c.ob('create_repo head', match(head, f.get('head', NONE)), puts[0], "isn't its head", p)
    c.ob('create_repo status', f.get('status') == A(REPO, 'status'), puts[0], "isn't its status", p)
    handles(c, r, p, puts[0], 'create_repo handles', f.get('handles', NONE))
    for k in ('signing', 'rotation'):
        key = A(REPO, f'{k}_key')
        v = f.get(f'encrypted_{k}_key', NONE)
        if k == 'rotation' and (r.truth(p, key) is False or r.isnone(p, key) is True):
            ok = v == NONE
        elif v[0] == 'call' and last(v[1]) == 'private_bytes':
            ok = dict(v[2]).get('self') == key and (gname(dict(v[2]).get('encoding', NONE)) or '').endswith('Encoding.PEM') and \
                calls_in(dict(v[2]).get('encryption_algorithm', NONE), 'NoEncryption')
        elif v[0] == 'call':
            raise Unk(f'create_repo stores the key {show(v)[:60]}')
        else:
            ok = False
        c.ob(f'create_repo {k} key', bool(ok), puts[0], "isn't its key, as load_repo reads it", p)


def ds_store(c, r, p):
    puts = evs(p, 'put')
    if len(puts) != 1:
        if evs(p, 'put_multi', 'put_async'):
            raise Unk('store_repo stores in an unrecognised way')
        c.ob('store_repo', False, p, "doesn't put the repo's own entity", p)
        return
    ent, f, sets = entity(r, p, puts[0])
    reads = entity_reads(ent)
    if not reads:
        raise Unk(f'store_repo puts {show(ent)[:60]}')
    c.ob('store_repo', all(A(REPO, 'did') in (x.get(0), x.get(1), x.get('id')) for x in reads), p, "doesn't put the repo's own entity", p)
    c.ob('store_repo head', match(b32(A(REPO, 'head', 'cid')), sets.get('head', NONE)), puts[0], "isn't its head", p)
    c.ob('store_repo status', sets.get('status') == A(REPO, 'status'), puts[0], "isn't its status", p)
    handles(c, r, p, puts[0], 'store_repo handles', sets.get('handles', NONE))
    c.ob('store_repo handles', 'handles' in sets, puts[0], "keeps the handle that it had", p)
    c.ob('store_repo other', set(sets) <= {'head', 'status', 'handles', 'updated'}, puts[0], 'changes something else', p)


def handles(c, r, p, at, inst, v):
    h = A(REPO, 'handle')
    got = contents(r, at, v) if v != NONE else ()
    if r.truth(p, h) is False or r.isnone(p, h) is True:
        c.ob(inst, got == (), at, 'stores a missing handle', p)
    else:
        c.ob(inst, got == (('one', h),) and r.truth(p, h) is True, at, "isn't its handle", p)


def decode_head(ent):
    return ('call', 'multiformats.CID.decode', ((0, A(ent, 'head')),), None)


def repo_entity(t):
    """The AtpRepo term whose head a term decodes."""
    for x in subterms(t):
        if x[0] == 'call' and fn_is(x[1], 'CID.decode') and x[2]:
            h = x[2][0][1]
            if h[0] == 'attr' and h[2] == 'head':
                return h[1]
    return None


def by_id(t, x):
    """Does it look up the repo with this id?"""
    return any(x in (d.get(0), d.get(1), d.get('id')) for d in entity_reads(t))


def by_handle(t, x):
    q = query_of(t)
    return bool(q) and q[0].endswith('AtpRepo') and q[1] == [('filter', '==', G(f'{ATPREPO}.handles'), x)] and [n for n, _ in q[3]] == ['get']


def ds_load(c, r):
    x = param('did_or_handle')
    hit = 0
    for p in r.returns:
        if p.value == NONE:
            looked = [e.res for e in p.events if e.kind == 'call' and e.res]
            c.ob('load_repo miss', any(by_id(t, x) for t in looked) and any(by_handle(t, x) for t in looked), p,
                 'gives up without looking by DID and by handle', p)
            continue
        hit += 1
        made = new_repos(c, r, p)
        if p.value[0] == 'call' and fn_is(p.value[1], 'Repo.load'):
            d = dict(p.value[2])
            cidv, stor = d.get('cid', d.get(1, NONE)), d.get('storage', d.get(0))
        elif any(e.res == p.value for e, _ in made):
            d = next(a for e, a in made if e.res == p.value)
            rd = [y for y in subterms(d['head']) if y[0] == 'call' and fn_is(y[1], 'Storage.read', 'DatastoreStorage.read')]
            if len(rd) != 1:
                raise Unk(f"the loaded repo's head {show(d['head'])[:60]}")
            cidv, stor = dict(rd[0][2]).get('cid', dict(rd[0][2]).get(0, NONE)), d.get('storage')
            c.ob('load_repo tree', tree_of(d.get('mst', NONE), d['head']), p, "isn't its head's tree", p)
        else:
            raise Unk(f'load_repo returns {show(p.value)[:60]}')
        ent = repo_entity(cidv)
        if not c.ob('load_repo head', ent is not None and cidv == decode_head(ent), p, "isn't its stored head", p):
            continue
        c.ob('load_repo which', by_id(ent, x) or by_handle(ent, x), p, "isn't the repo with this DID or handle", p)
        c.ob('load_repo found', r.truth(p, ent) is True or r.isnone(p, ent) is False, p, "fails on a repo that isn't stored", p)
        c.ob('load_repo storage', stor == SELF, p, 'uses another storage', p)
        fields(c, r, p, d, ent, 'load_repo')
        made_at(c, r, p, d, ent)
    c.ob('load_repo', hit > 0, r, 'never finds anything')
    no_failure(c, r, 'load_repo', lambda t: by_id(t, x) or by_handle(t, x))


def made_at(c, r, p, d, ent):
    own = A(ent, 'created')
    v = d.get('created', NONE)
    if v == NONE:
        c.ob('load_repo created', r.truth(p, own) is False or r.isnone(p, own) is True, p, "drops its creation time", p)
    else:
        c.ob('load_repo created', match(C('?.replace', tzinfo=UTC, self=own), v) or v == own, p, "isn't its creation time, in UTC", p) \
            if has(v, Fn(lambda t: t[0] == 'call' and last(t[1]) in ('replace', 'astimezone'))) or v == own or not has(v, Fn(lambda t: t == own)) \
            else c.unsure(f'load_repo gives the creation time {show(v)[:60]}')


def tree_of(m, head):
    """Is it the tree of a commit's block?"""
    d = dict(m[2]) if m[0] == 'call' and fn_is(m[1], 'MST.load') else None
    if d is None:
        raise Unk(f'the tree {show(m)[:60]}')
    return is_get(d.get('cid', NONE), A(head, 'decoded'), 'data')


def fields(c, r, at, d, ent, fn):
    hs = A(ent, 'handles')
    v = d.get('handle', NONE)
    if v == NONE:
        c.ob(f'{fn} no handle', r.truth(at, hs) is False, at, 'drops its handle')
    else:
        c.ob(f'{fn} handle', v == I(hs, 0), at, "isn't its stored handle")
    for k in ('status', 'signing_key', 'rotation_key'):
        c.ob(f'{fn} {k}', d.get(k) == A(ent, k), at, f"isn't its stored {k}")


def ds_list(c, r, p):
    after, limit = param('after'), param('limit')
    f = [e for e in p.events if e.kind == 'call' and e.res and (query_of(e.res) or ('',))[0].endswith('AtpRepo')
         and e.fn.rsplit('.', 1)[-1] in ('fetch', 'iter', 'fetch_page', 'fetch_async')]
    if not f:
        raise Unk('load_repos fetches repos in an unrecognised way')
    if not c.ob('query', len(f) == 1, p, "isn't one query", p):
        return
    _, filters, orders, rest = query_of(f[0].res)
    key = G(f'{ATPREPO}.key')
    c.ob('order', orders in ([], [key]), f[0], "isn't in DID order", p)
    d = rest[-1][1]
    lim = d.get('limit', d.get(0))
    c.ob('limit', lim == limit and not ({'offset', 'keys_only', 'projection'} & set(d)), f[0], "isn't limited to the given number", p)
    if r.truth(p, after) is False or r.isnone(p, after) is True:
        c.ob('unfiltered', not filters, f[0], 'leaves out repos', p)
    else:
        ok = len(filters) == 1 and filters[0][0] == 'filter' and filters[0][1] == '>' and filters[0][2] == key and (
            match(A(C('AtpRepo', id=after), 'key'), filters[0][3]) or
            match(C('ndb.Key', ANY, after), filters[0][3]))
        c.ob('after', ok, f[0], "doesn't start strictly after the given DID", p)
    made = new_repos(c, r, p)
    if not made:
        raise Unk('load_repos makes repos in an unrecognised way')
    for e, a in made:
        attempt(c, 'load_repos', ds_listed, c, r, p, e, a, f[0].res)
    got = contents(r, p, p.value)
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk(f'load_repos returns {show(r.S(p, p.value))[:60]}')
    for facts, segs in got[0][3]:
        c.ob('each', len(segs) == 1 and segs[0][0] == 'one', p, 'leaves out or repeats a repo', p)


def ds_listed(c, r, p, e, a, src):
    h = a.get('head', NONE)
    ent = repo_entity(h)
    if ent is None:
        if any(x[0] == 'elemof' or x[0] in ('item', 'get') for x in subterms(h)) and calls_in(h, 'read_many', 'read', 'Repo.load'):
            c.ob('head', False, e, "isn't its stored head", p)
            return
        if any(callname(x) in ('builtins.set', 'builtins.frozenset') and calls_in(x, 'read_many') for x in subterms(r.S(p, h))):
            c.ob('head', False, e, "is any repo's head, since sets have no order", p)
            return
        raise Unk(f"a listed repo's head {show(h)[:60]}")
    ok = ent[0] == 'elemof' and has(r.S(p, ent[1]), Fn(lambda t: t == r.S(p, src)))
    rd = [x for x in subterms(h) if x[0] == 'call' and fn_is(x[1], 'read_many', 'read')]
    ok = ok and h[0] in ('item', 'get', 'call') and bool(rd) and decode_head(ent) in list(subterms(h))
    if not c.ob('head', ok, e, "isn't its stored head", p):
        return
    c.ob('status', a.get('status') == A(ent, 'status'), e, "isn't its status", p)
    c.ob('storage', a.get('storage') == SELF, e, 'uses another storage', p)
    if r.truth(e, param('minimal')) is not True:
        fields(c, r, e, a, ent, 'load_repos')
        c.ob('tree', tree_of(a.get('mst', NONE), h), e, "isn't its head's tree", p)


# ------------------------------------------------------------------ blocks
def block_read(t, cid):
    """Is it the entity of the block with this CID? None if it isn't a block lookup at all."""
    if t[0] != 'call':
        return None
    ds = entity_reads(t)
    if not ds or not (callname(t) and last(callname(t)) in ('get_by_id', 'get')):
        return None
    return any(match(b32(cid), x.get(i, NONE)) for x in ds for i in (0, 1, 'id'))


def as_block(t):
    return dict(t[2]) if t[0] == 'call' and last(t[1]) == 'to_block' else None


def ds_read(c, r, p):
    cid = param('cid')
    if p.value == NONE:
        looked = [e for e in p.events if e.kind == 'call' and e.res and block_read(e.res, cid)]
        if not looked and [e for e in p.events if e.kind == 'call' and e.res and block_read(e.res, cid) is None and calls_in(e.res, 'query', 'get_multi')]:
            raise Unk('read looks in an unrecognised way')
        c.ob('read miss', any(r.truth(p, e.res) is False or r.isnone(p, e.res) is True for e in looked), p, 'gives up on a stored block', p)
        return
    d = as_block(p.value)
    if d is None:
        raise Unk(f'read returns {show(p.value)[:60]}')
    ok = block_read(d['self'], cid)
    if ok is None:
        raise Unk(f'read returns {show(p.value)[:60]}')
    c.ob('read', ok, p, "isn't the stored block", p)
    c.ob('read found', r.truth(p, d['self']) is True or r.isnone(p, d['self']) is False, p, "fails on a block that isn't stored", p)


def ds_has(c, r, p):
    cid = param('cid')
    got = [e.res for e in evs(p, 'DatastoreStorage.read', 'Storage.read') if e.a.get('cid', e.a.get(0)) == cid]
    got += [e.res for e in p.events if e.kind == 'call' and e.res and block_read(e.res, cid)]
    if not got:
        raise Unk('has looks in an unrecognised way')
    if p.value not in (TRUE, FALSE) and p.value[0] in ('cmp', 'not', 'call', 'or', 'and') and callname(p.value) != 'builtins.bool':
        raise Unk(f'has returns {show(p.value)[:60]}')
    stored = [not_none(r.isnone(p, t)) if r.isnone(p, t) is not None else r.truth(p, t) for t in got]
    c.ob('has', p.value in (TRUE, FALSE) and cval(p.value) in stored, p, "isn't whether the block is stored", p)


def block_key(t, cid):
    return (match(C('ndb.Key', OneOf(G(BLOCKENT), ('class', BLOCKENT), K('AtpBlock')), b32(cid)), t)
            or match(A(C('AtpBlock', id=b32(cid)), 'key'), t))


def ds_many(c, r, p):
    found, lid = entries_by_cid(c, r, p, 'read_many')
    for facts, k, v in found:
        if k is None:
            c.ob('read_many', False, p, 'leaves out a requested CID', p)
            continue
        c.ob('read_many key', k[0] == 'elemof' and k[2] == lid, p, "isn't keyed by CID", p)
        at = with_facts(r, p, facts)
        if v == NONE:
            c.ob('read_many missing', any(kk[0] == 'truth' and val is False and fetched(c, r, p, kk[1], lid) or
                                          kk[0] == 'isnone' and val is True and fetched(c, r, p, kk[1], lid) for kk, val in facts), p,
                 'drops a stored block', p)
            continue
        d = as_block(v)
        if d is None:
            if v[0] == 'call' and fn_is(v[1], 'Storage.read', 'DatastoreStorage.read') and dict(v[2]).get('cid', dict(v[2]).get(0)) == k:
                continue
            raise Unk(f'read_many returns {show(v)[:60]}')
        e = d['self']
        c.ob('read_many block', fetched(c, r, p, e, lid), p, "isn't the stored block", p)
        c.ob('read_many found', r.truth(at, e) is True or r.isnone(at, e) is False, p, "fails on a block that isn't stored", p)


def fetched(c, r, p, t, lid):
    """Is it the entity that was fetched for the loop's CID?"""
    if t[0] == 'elemof' and t[2] == lid:
        cl = t[1]
        if not (cl[0] == 'call' and fn_is(cl[1], 'get_multi')):
            raise Unk(f'the blocks {show(cl)[:60]}')
        g = next(e for e in p.events if e.res == cl)
        keys = contents(r, g, g.a.get(0, g.a.get('keys', NONE)))
        if len(keys) != 1 or keys[0][0] != 'each':
            raise Unk(f'the keys of {show(cl)[:60]}')
        c.ob('read_many keys', requested(r, g, keys[0][1]), g, "doesn't fetch every requested block", p)
        for facts, segs in keys[0][3]:
            if len(segs) != 1 or facts:
                raise Unk(f'the keys of {show(cl)[:60]}')
            els = elems_of(segs[0][1])
            c.ob('read_many key', bool(els) and block_key(segs[0][1], els[0]), g, "doesn't fetch blocks by CID", p)
        return True
    els = [x for x in elems_of(t) if x[2] == lid]
    if els and block_read(t, els[0]) is not None:
        return block_read(t, els[0])
    raise Unk(f'the block {show(t)[:60]}')


def to_block(c):
    r = c.run(f'{BLOCKENT}.to_block', BLOCKENT)
    for p in r.returns:
        d = blockval(p.value)
        if d is None:
            raise Unk(f'to_block returns {show(p.value)[:60]}')
        c.ob('to_block bytes', d.get('encoded') == A(SELF, 'encoded'), p, "isn't its bytes", p)
        c.ob('to_block seq', d.get('seq') == A(SELF, 'seq'), p, "isn't its sequence number", p)
        c.ob('to_block time', has(d.get('time', NONE), Fn(lambda t: t == A(SELF, 'created'))), p, "isn't its time", p)
        own = A(SELF, 'repo')
        c.ob('to_block repo', match(C('?.id', self=own), d.get('repo', NONE)) or d.get('repo') == NONE and (
            r.truth(p, own) is False or r.isnone(p, own) is True), p, "isn't its owner's DID", p)
        cidv = d.get('cid', NONE)
        c.ob('to_block cid', cidv in (A(SELF, 'cid'), NONE) or match(C('CID.decode', C('?.id', self=A(SELF, 'key'))), cidv), p, "isn't its CID", p)


def from_block(c):
    r = c.run(f'{BLOCKENT}.from_block', BLOCKENT)
    b = param('block')
    for p in r.returns:
        v = p.value
        if v[0] != 'call' or not (fn_is(v[1], 'AtpBlock') or v[1] == '()'):
            raise Unk(f'from_block returns {show(v)[:60]}')
        d = dict(v[2])
        d.update({e.fn: e.a['value'] for e in p.events if e.kind == 'setattr' and e.a['self'] == v})
        c.ob('from_block id', match(b32(A(b, 'cid')), d.get('id', NONE)), p, "isn't keyed by its CID", p)
        c.ob('from_block bytes', d.get('encoded') == A(b, 'encoded'), p, "isn't its bytes", p)
        c.ob('from_block seq', d.get('seq') == A(b, 'seq'), p, "isn't its sequence number", p)
        t = d.get('created', NONE)
        ok = match(C('?.replace', tzinfo=NONE, self=C('?.astimezone', UTC, self=A(b, 'time'))), t)
        c.ob('from_block time', ok, p, "isn't its time, in UTC", p)
        own = A(b, 'repo')
        ok = match(C('ndb.Key', OneOf(G(ATPREPO), ('class', ATPREPO), K('AtpRepo')), own), d.get('repo', NONE)) \
            or match(A(C('AtpRepo', id=own), 'key'), d.get('repo', NONE)) \
            or d.get('repo', NONE) == NONE and (r.truth(p, own) is False or r.isnone(p, own) is True)
        c.ob('from_block repo', ok, p, "isn't its owner", p)


# ------------------------------------------------------------------ raw reads
def attr_path(t, *names):
    """x if t is x.a.b.c, where an int is an index and a 1-tuple a key."""
    for n in reversed(names):
        if isinstance(n, str):
            if t[0] != 'attr' or t[2] != n:
                return None
        elif t[0] not in ('item', 'get') or t[2] != K(n[0] if isinstance(n, tuple) else n):
            return None
        t = t[1]
    return t


def leaves(segs, outer=()):
    """Every entry of a nested result, with the facts and loops that it's under."""
    for s in segs:
        if s[0] == 'each':
            for facts, inner_ in s[3]:
                if not inner_:
                    yield None, outer + ((s[1], s[2], facts),)
                yield from leaves(inner_, outer + ((s[1], s[2], facts),))
        else:
            yield s, outer


def raw(c, r, p):
    """
    pending starts as every requested key; each time around, all of it is looked up, in slices, each response's blocks
    are kept, and its deferred keys are what's pending next.
    """
    same_database(c, r, p)
    res = [x for x in contents(r, p, p.value)]
    if len(res) == 1 and res[0][0] == 'each' and callname(res[0][1]) == 'builtins.range' and all(is_const(v) for _, v in res[0][1][2]):
        c.ob('read_many_raw ends', False, p, "may stop while there are still keys to look up", p)
        return
    if len(res) != 1 or res[0][0] != 'each' or res[0][1] not in (None, NONE):
        raise Unk('read_many_raw has another kind of loop')
    lid = res[0][2]
    lp = r.it.loops[lid]
    n = 0
    for b, after in carries(c, lp):
        pend = [k for k in after if r.truth(b, k) is True]
        if len(pend) != 1:
            raise Unk("what's still pending")
        k = pend[0]
        n += 1
        c.ob('read_many_raw ends', r.truth(p, k) is False, p, "stops while there are still keys to look up", p)
        # what's looked up first
        cidkeys = contents(r, lp.before, inits(lp)[k])
        if len(cidkeys) != 1 or cidkeys[0][0] != 'each':
            raise Unk('which keys are looked up first')
        c.ob('read_many_raw all', requested(r, p, cidkeys[0][1]), p, "doesn't look up every requested CID", p)
        names = []
        for facts, segs in cidkeys[0][3]:
            if facts or len(segs) != 1 or segs[0][0] != 'one':
                raise Unk('which keys are looked up first')
            pe = [x for x in subterms(segs[0][1]) if x[0] == 'call' and last(x[1]) == 'PathElement']
            pe = pe or [x for y in subterms(segs[0][1]) if y[0] == 'obj' for z in [r.S(p, y)]
                        for x in subterms(z) if x[0] == 'call' and last(x[1]) == 'PathElement']
            if len(pe) != 1:
                raise Unk(f'the key {show(segs[0][1])[:60]}')
            d = dict(pe[0][2])
            c.ob('read_many_raw kind', d.get('kind') in (K('AtpBlock'), ('attr', ('class', BLOCKENT), '__name__')), p, 'looks for something else than blocks', p)
            nm = unfused(r, p, d.get('name', NONE))
            el = Fn(lambda t: t[0] == 'elemof')
            ok = match(C('encode_cid', el), nm) or match(C('?.encode', K('base32'), self=C('CID.decode', el)), nm)
            c.ob('read_many_raw name', ok, p, "doesn't look blocks up by CID", p)
            names.append(nm)
        # what's asked again
        v = after[k]
        if v[0] == 'lv' and v[1] in r.it.loops and v[1] != lid:
            lost = [x for _, d in carries(c, r.it.loops[v[1]]) for y, x in d.items() if y == v and x != v and not has(x, Fn(lambda t: t == v))
                    and not (x[0] == 'obj' and has(r.S(p, x), Fn(lambda t: t == v)))]
            if lost:
                c.ob('read_many_raw deferred', False, p, "forgets the keys that all but one response deferred", p)
                continue
        defer = list(leaves(contents(r, b, v)))
        ok = len(defer) == 1 and defer[0][0] is not None and defer[0][0][0] in ('all', 'one')
        if not c.ob('read_many_raw deferred', bool(defer) and all(x is not None for x, _ in defer), p,
                    "forgets the keys that a response deferred, so that stored blocks are missing", p):
            continue
        if not ok:
            raise Unk('which keys are looked up again')
        t = defer[0][0][1]
        if defer[0][0][0] == 'one':
            t = t[1] if t[0] == 'elemof' else NONE
        x = attr_path(inner(t), 'deferred')
        if x is None:
            raise Unk(f'what is looked up again, {show(t)[:60]}')
        c.ob('read_many_raw deferred', not any(f for _, _, f in defer[0][1]), p, "forgets some of the keys that a response deferred", p)
        sliced(c, r, p, k, x, defer[0][1][0] if defer[0][1] else None)
        found(c, r, p, res[0], k, x, names)
    if not n:
        raise Unk('read_many_raw has another kind of loop')


def same_database(c, r, p):
    """Are the keys, and the requests, of the database that blocks are stored in?"""
    for e in flat(p.events):
        if e.kind != 'call' or last(e.fn or '') not in ('LookupRequest', 'PartitionId'):
            continue
        what = last(e.fn)
        if not all(isinstance(k, str) and k.isidentifier() for k in e.a):
            continue
        project, db = e.a.get('project_id', NONE), e.a.get('database_id', NONE)
        c.ob(f'read_many_raw {what} project', project != NONE, p, "doesn't say which project's blocks it looks up", p)
        if db not in (NONE, K('')):
            c.ob(f'read_many_raw {what} database', any(x[0] == 'attr' and x[2] == 'database' for x in subterms(db)), p,
                 'looks blocks up in another database', p)
            continue
        dbs = [k[1] for k in p.facts.d if k[0] == 'truth' and k[1][0] == 'attr' and k[1][2] == 'database'] + [
            k[1] for k in p.facts.d if k[0] == 'isnone' and k[1][0] == 'attr' and k[1][2] == 'database']
        none = any(r.truth(p, t) is False or r.isnone(p, t) is True for t in dbs)
        c.ob(f'read_many_raw {what} database', none, p, "looks blocks up in the default database, even when they're in another one", p)


def unfused(r, p, t):
    """An element of a collection that's made of another one's, in terms of that one's."""
    if t[0] in ('elemof', 'keyof') and t[1][0] in ('obj', 'dict', 'list'):
        try:
            got = contents(r, p, t[1])
        except Unk:
            return t
        if len(got) == 1 and got[0][0] == 'each' and len(got[0][3]) == 1 and not got[0][3][0][0] and len(got[0][3][0][1]) == 1:
            return got[0][3][0][1][0][1]
    return t


def sliced(c, r, p, k, resp, outer):
    """Does the request of this response look up a slice of what's pending, and are the slices all of it?"""
    reqs = [x for x in subterms(resp) if x[0] == 'call' and last(x[1]) == 'LookupRequest']
    if len(reqs) != 1:
        raise Unk('what is looked up')
    keys = dict(reqs[0][2]).get('keys', NONE)
    if keys[0] == 'elemof' and callname(keys[1]) and fn_is(callname(keys[1]), 'itertools.batched'):
        d = dict(keys[1][2])
        c.ob('read_many_raw slices', d.get(0) == k and is_const(d.get(1, NONE)) and cval(d[1]) <= 1000, p, "doesn't look up every key", p)
        return
    if keys == k:
        c.ob('read_many_raw slices', False, p, 'looks up more than 1000 keys at once', p)
        return
    if not whole_slice_of(keys, k):
        raise Unk(f'what is looked up, {show(keys)[:60]}')
    lo, hi = keys[2][1], keys[2][2]
    if lo[0] != 'elemof' or callname(lo[1]) != 'builtins.range':
        raise Unk(f'what is looked up, {show(keys)[:60]}')
    a = dict(lo[1][2])
    a = [a[i] for i in sorted(i for i in a if isinstance(i, int))]
    if len(a) != 3 or not is_const(a[2]):
        raise Unk(f'the slices {show(lo[1])[:60]}')
    step = cval(a[2])
    (vh, ch), (vl, cl) = linear(hi), linear(lo)
    if vh != vl:
        raise Unk(f'the slices {show(keys[2])[:60]}')
    size = (None, ch - cl)
    c.ob('read_many_raw slices', a[0] == K(0) and a[1] == ('call', 'builtins.len', ((0, k),), None) and size[1] >= step and 0 < step <= 1000 and size[1] <= 1000,
         p, "doesn't look up every key, or looks up more than 1000 at once", p)


def whole_slice_of(t, k):
    return t[0] == 'item' and t[1] == k and isinstance(t[2], tuple) and t[2][0] == 'slice' and t[2][3] in (NONE, None, K(1))


def found(c, r, p, res, k, resp, names):
    for x, outer in leaves(res[3][0][1]) if len(res[3]) == 1 else leaves((res,)):
        if x is None:
            facts = outer[-1][2]
            if facts:
                raise Unk('which blocks are left out')
            c.ob('read_many_raw found', False, p, 'leaves out blocks that were found', p)
            continue
        if x[0] != 'kv':
            raise Unk(f'the result {show(x)[:60]}')
        key, v = x[1], x[2]
        if v[0] != 'tuple' or len(v[1]) != 2:
            raise Unk(f'the result {show(v)[:60]}')
        e = attr_path(unwrap(v[1][0], 'bytes'), 'properties', ('encoded',), 'blob_value')
        s = attr_path(v[1][1], 'properties', ('seq',), 'integer_value')
        c.ob('read_many_raw bytes', e is not None, p, "isn't the block's bytes", p)
        c.ob('read_many_raw seq', s is not None and s == e, p, "isn't the block's sequence number", p)
        if e is None:
            continue
        if any(f for _, _, f in outer if any(kk[0] != 'truth' or kk[1] != k for kk, _ in f)):
            raise Unk('which blocks are kept')
        src = attr_path(e, 'entity')
        ok = src is not None and src[0] == 'elemof' and attr_path(inner(src[1]), 'found') is not None
        if not ok:
            raise Unk(f'the entity {show(e)[:60]}')
        names_ = [y for y in subterms(key) if y[0] == 'attr' and y[2] == 'name']
        own = [y for y in names_ if (attr_path(y, 'key', 'path', -1, 'name') or attr_path(y, 'key', 'path', 0, 'name')) == e]
        c.ob('read_many_raw key', bool(own), p, "isn't filed under its own CID", p)
        if not own:
            continue
        if key[0] in ('item', 'get'):
            m = contents(r, p, key[1])
            ok = key[2] == own[0] and len(m) == 1 and m[0][0] == 'each' and requested(r, p, m[0][1]) and all(
                not facts and len(segs) == 1 and segs[0][0] == 'kv' and segs[0][1] in names and segs[0][2][0] == 'elemof' and segs[0][2][2] == m[0][2]
                for facts, segs in [(f, subst_lid(s, m[0], names)) for f, s in m[0][3]])
            c.ob('read_many_raw key', ok, p, "isn't filed under its own CID, as bytes", p)
        elif key == own[0] or key[0] == 'call' and callname(key) and last(callname(key)) in ('str', 'encode_cid'):
            c.ob('read_many_raw key', False, p, "isn't filed under its CID's bytes", p)
        elif not calls_in(key, 'CID.decode', 'decode_cid', 'bytes'):
            raise Unk(f'the key {show(key)[:60]}')


def subst_lid(segs, each, names):
    """The map's own entries, with its loop's element named as the keys' is."""
    others = [y for n in names for y in elems_of(n)]
    if len(segs) == 1 and segs[0][0] == 'kv' and others and segs[0][1] not in names:
        return (('kv', replace_elem(segs[0][1], each[2], others[0]), segs[0][2]),)
    return segs


def replace_elem(t, lid, b):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('elemof',) and t[2] == lid:
        return b
    return tuple(replace_elem(x, lid, b) for x in t)


# ------------------------------------------------------------------ writes
def written(c, r, p):
    obj, did = param('obj'), param('repo_did')
    made = [e for e in flat(p.events) if e.kind == 'call' and (blockval(e.res or NONE) is not None or fn_is(e.fn, 'AtpBlock.create', 'AtpBlock.get_or_insert'))]
    if not made:
        raise Unk('write stores in an unrecognised way')
    for e in made:
        a = e.a
        data = a.get('decoded', a.get('data'))
        if data is not None:
            c.ob('write object', data == obj, e, "isn't the given object", p)
        c.ob('write owner', owned(a.get('repo', a.get('repo_did', NONE)), did), e, "doesn't record its owner", p)


def owned(t, did):
    return did in list(subterms(t)) if t[0] in ('call', 'attr') else t == did


def created(c):
    r = c.run(f'{BLOCKENT}.create', BLOCKENT)
    for p in r.returns:
        made = [e for e in flat(p.events) if e.kind == 'call' and fn_is(e.fn, 'get_or_insert', 'AtpBlock')
                and 'encoded' in e.a]
        if not made:
            raise Unk('create stores in an unrecognised way')
        for e in made:
            c.ob('create owner', owned(e.a.get('repo', NONE), param('repo_did')), e, "doesn't record its owner", p)
            c.ob('create seq', e.a.get('seq') == param('seq'), e, "doesn't record its sequence number", p)
