"""Repos read back from storage: their trees and records."""
from .stored import *

REPOC = 'arroba.repo.Repo'
ATTRS = ('handle', 'status', 'callback', 'signing_key', 'rotation_key', 'created')


@rules('C12', explanation='''Dataflow of Repo.load, get_record and get_contents: which blocks they read, and
under which collection and key each record is returned.''')
def repo_load(c):
    c.rule('C12.load', "a loaded repo has the block of the given commit as its head, that commit's tree, and every attribute it's given")
    r = c.run(f'{REPOC}.load', REPOC)
    for p in r.returns:
        attempt(c, 'load', load, c, r, p)
    c.rule('C12.create', "a new repo has every attribute that it's created with, in the given storage")
    r = c.run(f'{REPOC}.create', REPOC)
    for p in r.returns:
        attempt(c, 'create', created_with, c, r, p)
    c.rule('C12.own', "a repo's DID and version are its head commit's")
    for name in ('did', 'version'):
        r = c.run(f'{REPOC}.{name}', REPOC)
        head = A(SELF, 'head')
        for p in r.returns:
            if p.value == NONE:
                c.ob(f'{name} None', r.truth(p, head) is False or r.isnone(p, head) is True, p, "isn't its head's", p)
            elif p.value[0] in ('item', 'get', 'const', 'attr', 'param') or callname(p.value) == '?.get':
                c.ob(name, is_get(p.value, A(head, 'decoded'), name), p, "isn't its head's", p)
            else:
                c.unsure(f'{name} is {show(p.value)[:60]}')
    c.rule('C12.record', "a record is the block that the repo's own tree has at its collection and key, or None if there's nothing there")
    r = c.run(f'{REPOC}.get_record', REPOC)
    attempt(c, 'get_record', record, c, r)
    c.rule('C12.contents', "a repo's contents are each entry of its tree, under its own collection and key, with its own record")
    r = c.run(f'{REPOC}.get_contents', REPOC)
    for p in r.returns:
        attempt(c, 'get_contents', repo_contents, c, r, p)


def load(c, r, p):
    made = [(e, a) for e, a in new_repos(c, r, p) if e.res == p.value]
    made += [(e, {**{k: ('kwget', e.a['**'], k, NONE) for k in ATTRS if '**' in e.a}, **e.a}) for e in p.events
             if e.kind == 'call' and e.fn == '()' and e.a.get('self') == param('cls') and e.res == p.value]
    if len(made) != 1:
        raise Unk(f'load returns {show(p.value)[:60]}')
    e, a = made[0]
    a = {**a, **{k[1]: v for k, v in p.st.attrs.items() if k[0] == p.value}}
    storage, given = param('storage'), param('cid')
    head = a.get('head', NONE)
    if not (head[0] == 'call' and fn_is(head[1], 'Storage.read')):
        raise Unk(f'the head {show(head)[:60]}')
    d = dict(head[2])
    want = storage_head(r, p, given, storage)
    cidv = d.get('cid', d.get(0, NONE))
    c.ob('load head', d.get('self') == storage and (cidv in want if want else has(cidv, Fn(lambda t: t == given))), e, "isn't the given commit", p)
    c.ob('load storage', a.get('storage') == storage, e, "isn't in its storage", p)
    m = a.get('mst', NONE)
    c.ob('load tree', tree_of(m, head) and dict(m[2]).get('storage') == storage, e, "isn't its head commit's tree", p)
    args_ = r.func.node.args
    own = {x.arg for x in args_.args + args_.kwonlyargs}
    for k in ATTRS:
        v = a.get(k, NONE)
        ok = v == param(k) if k in own else v[0] == 'kwget' and v[1] == ('param', '**kwargs') and v[2] in (k, K(k))
        if not ok and v[0] not in ('const', 'kwget', 'param'):
            raise Unk(f'the {k} {show(v)[:60]}')
        c.ob(f'load {k}', ok, e, "isn't what was given", p)


def created_with(c, r, p):
    made = [(e, a) for e, a in new_repos(c, r, p) if e.res == p.value]
    made += [(e, {**{k: ('kwget', e.a['**'], k, NONE) for k in ATTRS if '**' in e.a}, **e.a}) for e in p.events
             if e.kind == 'call' and e.fn == '()' and e.a.get('self') == param('cls') and e.res == p.value]
    if len(made) != 1:
        raise Unk(f'create returns {show(p.value)[:60]}')
    e, a = made[0]
    a = {**a, **{k[1]: v for k, v in p.st.attrs.items() if k[0] == p.value}}
    c.ob('create storage', a.get('storage') == param('storage'), e, "isn't in its storage", p)
    args_ = r.func.node.args
    own = {x.arg for x in args_.args + args_.kwonlyargs}
    for k in ATTRS:
        v = a.get(k, NONE)
        ok = v == param(k) if k in own else v[0] == 'kwget' and v[1] == ('param', '**kwargs') and v[2] in (k, K(k))
        if not ok and v[0] not in ('const', 'kwget', 'param'):
            raise Unk(f'the {k} {show(v)[:60]}')
        c.ob(f'create {k}', ok, e, "isn't what was given", p)


def storage_head(r, p, given, storage):
    if r.truth(p, given) is True or r.isnone(p, given) is False:
        return [given]
    if r.truth(p, given) is False or r.isnone(p, given) is True:
        return [A(storage, 'head')]
    return None


def record(c, r):
    path = mk_fmt([param('collection'), K('/'), param('rkey')])
    hit = 0
    for p in r.returns:
        gets = [e for e in p.events if mstcall('get')(e)]
        if not gets:
            for e in flat(p.events):
                if mstcall('list_with_prefix', 'walk_leaves_from')(e):
                    for x in subterms(p.value) if p.value != NONE else ():
                        if x[0] in ('elemof', 'item') and x[1] == e.res:
                            c.ob('get_record key', r.cmp(p, '==', A(x, 'key'), path) is True, e, "takes a record whose key isn't the one given", p)
                            return
            raise Unk('get_record looks in an unrecognised way')
        for e in gets:
            c.ob('get_record key', e.a.get('self') == A(SELF, 'mst') and e.a.get('key', e.a.get(0)) == path, e, "doesn't look for the given collection and key", p)
        g = gets[-1].res
        if p.value == NONE:
            c.ob('get_record miss', r.truth(p, g) is False or r.isnone(p, g) is True, p, 'leaves out a stored record', p)
            continue
        hit += 1
        rec(c, r, p, p.value, g, 'get_record')
        c.ob('get_record found', r.truth(p, g) is True or r.isnone(p, g) is False, p, "fails on a record that doesn't exist", p)
    c.ob('get_record', hit > 0, r, 'never finds anything')


def rec(c, r, p, v, cidv, inst):
    """Is it the record of the block with this CID?"""
    if v[0] == 'attr' and v[2] == 'decoded':
        b = v[1]
        if b[0] == 'call' and fn_is(b[1], 'Storage.read'):
            d = dict(b[2])
            c.ob(inst, d.get('self') == A(SELF, 'storage') and d.get('cid', d.get(0)) == cidv, p, "isn't its own record", p)
            return
        if b[0] in ('item', 'get') or callname(b) == '?.get':
            base = b[1] if b[0] != 'call' else dict(b[2])['self']
            key = b[2] if b[0] != 'call' else dict(b[2])[0]
            if base[0] == 'call' and fn_is(base[1], 'read_many'):
                c.ob(inst, key == cidv, p, "isn't its own record", p)
                every(c, r, p, dict(base[2]).get('cids', NONE), inst)
                return
        if b[0] in ('elemof', 'param', 'attr', 'const'):
            c.ob(inst, False, p, "isn't its own record", p)
            return
    elif v[0] == 'call' and fn_is(v[1], 'Storage.read', 'read_many') or v[0] in ('attr', 'const', 'param'):
        c.ob(inst, False, p, "isn't its own record", p)
        return
    raise Unk(f'the record {show(v)[:60]}')


def every(c, r, p, cids, inst):
    """Reads every entry's CID."""
    got = contents(r, p, cids)
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk(f'what {inst} reads')
    it = inner(got[0][1])
    if not (it[0] == 'call' and fn_is(it[1], 'MST.list', 'leaves', 'walk_leaves_from_key')):
        raise Unk(f'what {inst} reads')
    for facts, segs in got[0][3]:
        ok = len(segs) == 1 and not facts and segs[0][0] == 'one' and segs[0][1][0] == 'attr' and segs[0][1][2] == 'value'
        c.ob(f'{inst} reads', ok, p, "doesn't read every entry", p)


def repo_contents(c, r, p):
    n = 0
    for lp in all_loops(p):
        it = inner(lp.iter) if lp.iter is not None else NONE
        if it[0] == 'item' and it[2][0] == 'slice' and calls_in(it[1], 'MST.list'):
            c.ob('get_contents tree', False, p, "doesn't list the whole tree", p)
            return
        if not (callname(it) and fn_is(callname(it), 'MST.list')):
            continue
        d = dict(it[2])
        c.ob('get_contents tree', d.get('self') == A(SELF, 'mst') and all(v in (NONE, FALSE) for k, v in d.items() if k != 'self'), p,
             "doesn't list the whole tree", p)
        el = ('elemof', lp.iter, lp.lid)
        sets = [[e for e in b.events if stored_as(e) and any(x[0] == 'attr' and x[2] == 'decoded' for x in subterms(stored_as(e)[1]))]
                for b in lp.bodies]
        if not any(sets):
            continue
        for b, ss in zip(lp.bodies, sets):
            n += 1
            c.ob('get_contents each', b.exit == 'back', p, "stops before the tree's end", p)
            if not c.ob('get_contents each', len(ss) == 1, p, 'leaves out an entry', p):
                continue
            e = ss[0]
            key, value = stored_as(e)
            el = next((x for t in (value, key) for x in subterms(t) if x[0] == 'elemof' and x[2] == lp.lid), el)
            rec(c, r, p, value, A(el, 'value'), 'get_contents record')
            c.ob('get_contents rkey', part(key, el, 1), e, "isn't under its own key", p)
            coll = e.a['self']
            k = coll[2] if coll[0] in ('item', 'get', 'setdefault') else dict(coll[2]).get(0) if callname(coll) in ('?.setdefault', '?.get') else None
            if k is None:
                raise Unk(f'the collection {show(coll)[:60]}')
            c.ob('get_contents collection', part(k, el, 0), e, "isn't under its own collection", p)
    if not n:
        for lp in all_loops(p):
            it = inner(lp.iter) if lp.iter is not None else NONE
            for x in [v for _, v in it[2]] if callname(it) == 'builtins.zip' else [it]:
                x = dict(x[2])['self'] if callname(x) in ('?.values', '?.items', '?.keys') else x
                if callname(x) and fn_is(callname(x), 'read_many', 'read_many_raw'):
                    c.ob('get_contents each', False, p, 'leaves out entries whose records are the same', p)
                    return
            if callname(it) in ('?.values', '?.items') and dict(it[2])['self'][0] == 'obj':
                o = one_loop(r.S(p, dict(it[2])['self']))
                if o and callname(inner(o[0])) and fn_is(callname(inner(o[0])), 'MST.list'):
                    for facts, segs in o[1]:
                        for x in segs:
                            if x[0] == 'kv' and x[1][0] == 'attr' and x[1][1][0] == 'elemof' and x[1][2] == 'value':
                                c.ob('get_contents each', False, p, 'leaves out entries whose records are the same', p)
                                return
        raise Unk('get_contents collects records in an unrecognised way')


def stored_as(e):
    """The key and value that an event stores."""
    if e.kind == 'setitem':
        return e.a['key'], e.a['value']
    if call('?.setdefault')(e) and 1 in e.a:
        return e.a[0], e.a[1]


def part(t, el, i):
    """Is it the collection (0) or record key (1) of an entry?"""
    if t[0] == 'item' and t[2] == K(i) or t[0] == 'item' and t[2] == K(i - 2):
        b = t[1]
        if callname(b) in ('?.split', '?.rsplit'):
            d = dict(b[2])
            return d['self'] == A(el, 'key') and d.get(0) == K('/')
    if t[0] == 'item' and callname(t[1]) in ('?.partition', '?.rpartition'):
        d = dict(t[1][2])
        return d['self'] == A(el, 'key') and d.get(0) == K('/') and t[2] in (K(2 * i), K(-1) if i else K(-3))
    if has(t, Fn(lambda x: x == A(el, 'key'))) and not (t[0] == 'item' or callname(t) in ('?.lower', '?.upper', '?.strip')):
        raise Unk(f'the key {show(t)[:60]}')
    return False
