"""Commits: admission, atomicity, contents, operations and sequence numbers."""
from .common import *
from .trees import Unk, mcall
from .trees_walk import attempt, contents, copied
from .contexts import modes

FIELDS = {'did', 'version', 'rev', 'prev', 'data', 'sig'}
MAX_RECORD = 1_000_000
MAX_OPS = 200
MAX_COMMIT_CALLS = ('MST.get', 'MST.add', 'MST.update', 'MST.delete')


def commit_runs(c):
    """Storage._commit as each storage class runs it."""
    for cls in STORAGES:
        yield cls, c.run(f'{cls}._commit', cls) if cls != DS else c.run(
            f'{DS}._commit', DS, inline=(f'{ST}._commit',))


def repos_of(run, path):
    """(caller's repo, repo loaded from storage or None)."""
    p = param('repo')
    if run.cls.full == DS and run.func.full == f'{DS}._commit':
        # *args
        reps = {x for e in path.events for t in e.a.values() if isinstance(t, tuple)
                for x in subterms(t) if x[0] == 'item' and x[1] == ('param', '*args')}
    return p


PERSIST = call('write_blocks', 'store_repo', 'create_repo')


def loaded(path):
    return [e for e in path.events if call('load_repo')(e)]


def repo_param(run):
    """The term of commit's repo argument in this run."""
    f = run.func.node.args
    names = [a.arg for a in f.args]
    if 'repo' in names:
        return param('repo')
    return None


@rules('C01', explanation='''Trace-partitioned dataflow of Storage._commit as each storage class
inherits it: every effect that persists or publishes a commit must be dominated by tests that
both the caller's and the stored repo are active.''')
def inactive(c):
    c.rule('C01.guard', "every effect that stores or publishes a commit happens only after the caller's repo and the repo loaded from storage were both tested to have no status")
    run = c.run(f'{ST}._commit', ST)
    stat = A(REPO, 'status')
    n = 0
    for o in run.events(lambda e: PERSIST(e) or (
            e.kind == 'setattr' and e.fn in ('head', 'mst') and not (e.fn == 'head' and e.a['value'] == NONE))):
        n += 1
        ev = o.ev
        inst = f'{run.func.full}:{ev.fn.rsplit(".", 1)[-1] if ev.kind == "call" else "set " + ev.fn}'
        c.ob(inst, run.truth(ev, stat) is False, ev,
             "can be reached while the caller's repo is deactivated or tombstoned", o.path)
        lds = o.must_before(call('load_repo'))
        for ld in lds:
            c.ob(inst + ' (stored repo)', run.truth(ev, A(ld.res, 'status')) is False, ev,
                 "can be reached while the stored repo is deactivated or tombstoned", o.path)
        if run.truth(ev, param('repo_did')) is not True:
            c.ob(inst + ' (reload)', bool(lds), ev, "the stored repo's status isn't consulted", o.path)
    c.anchor(n >= 3, f'{run.func.full} stores and publishes commits')
    c.rule('C01.reject', 'writing to an inactive repo raises InactiveRepo')
    found = False
    for p in run.raises:
        if run.truth(p, stat) is True:
            found = True
            c.ob(f'{run.func.full}:inactive', run.exc_is(p, 'InactiveRepo'), p,
                 "an inactive repo isn't reported as InactiveRepo", p)
    c.ob(f'{run.func.full}:reject', found, run, "an inactive repo doesn't make the commit fail")
    for p in run.returns:
        c.ob(f'{run.func.full}:return', run.truth(p, stat) is False, p, 'an inactive repo can commit', p)
    c.rule('C01.override', "subclasses' commit paths are Storage's own: they add a transaction, nothing else")
    base = c.prog.cls(ST)
    subs = c.prog.subclasses(base)
    c.anchor(len(subs) >= 2, 'storage implementations')
    for s in subs:
        for m in ('commit', '_commit'):
            if m not in s.methods:
                c.ob(f'{s.name}.{m}', True)
                continue
            r = c.run(f'{s.full}.{m}', s.full)
            for p in r.returns:
                sup = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, f'Storage.{m}')]
                c.ob(f'{s.name}.{m}', len(sup) == 1 and p.value == sup[0].res, p,
                     f"doesn't delegate to Storage.{m} and return its result", p)
                others = [e for e in flat(p.events) if PERSIST(e)]
                c.ob(f'{s.name}.{m} (effects)', not others, others[0] if others else p,
                     'persists outside Storage._commit', p)
    c.rule('C01.writers', 'only commits and repo creation or import publish a head, and only storage classes write repos')
    allowed = {
        'store_repo': {f'{ST}._commit'},
        'create_repo': {'arroba.repo.Repo.create', 'arroba.xrpc_repo.import_repo'},
    }
    who_calls(c, allowed)
    c.rule('C01.status', "status changes are stored, and a tombstone isn't undone")
    for cls in (MEM, DS):
        r = c.run(f'{cls}._set_repo_status', cls)
        for p in r.returns:
            sets = [e for e in p.events if e.kind == 'setattr' and e.fn == 'status']
            c.ob(f'{cls}._set_repo_status', any(e.a['self'] == REPO and e.a['value'] == param('status') for e in sets),
                 p, "the repo object's status isn't set", p)
            if cls == DS:
                st = [e for e in sets if e.a['self'] != REPO]
                puts = [e for e in p.events if call('?.put', 'put')(e)]
                ok = bool(st and puts) and st[-1].a['value'] == param('status') and any(
                    q.a.get('self') == st[-1].a['self'] and p.events.index(q) > p.events.index(st[-1]) for q in puts)
                ok = ok and has(st[-1].a['self'], C('get_by_id', 0, )) if False else ok
                c.ob(f'{cls}._set_repo_status (stored)', ok, p, "the stored repo's status isn't written", p)
                if st:
                    g = calls_in(st[-1].a['self'], 'get_by_id')
                    c.ob(f'{cls}._set_repo_status (key)', bool(g) and A(REPO, 'did') in [v for _, v in g[0][2]],
                         st[-1], "writes a different repo's status", p)
    for m, val in (('deactivate_repo', 'deactivated'), ('tombstone_repo', 'tombstoned'), ('activate_repo', None)):
        r = c.run(f'{ST}.{m}', MEM)
        for p in r.returns:
            calls = [e for e in p.events if call('_set_repo_status')(e)]
            if m == 'activate_repo':
                tomb = r.cmp(p, '==', stat, K('tombstoned'))
                if tomb is True:
                    c.ob(f'{ST}.{m}', not calls and not [e for e in p.events if call('write_event')(e)], p,
                         'a tombstoned repo is reactivated', p)
                    continue
                c.ob(f'{ST}.{m}', tomb is False, p, "doesn't test for a tombstone", p)
            c.ob(f'{ST}.{m}', len(calls) == 1 and calls[0].a.get('status') == K(val)
                 and calls[0].a.get('repo') == REPO, p, f"doesn't set the status to {val!r}", p)


def who_calls(c, allowed):
    """Syntactic call sites of methods, resolved by method name."""
    import ast
    for meth, ok in allowed.items():
        n = 0
        for f in c.prog.all_funcs():
            if f.mod.name.startswith('arroba.tests'):
                continue
            for node in ast.walk(f.node):
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == meth:
                    n += 1
                    okf = f.full in ok or f.full not in KNOWN_FUNCS and _only_called_by(c.prog, f, ok)
                    c.ob(f'{meth} called by {f.full}', okf, f'{f.mod.rel}:{node.lineno} ({f.full})',
                         f'{f.full} must not call {meth}')
        c.anchor(n, f'calls of {meth}')


def _only_called_by(prog, f, ok, depth=0):
    """A helper that only allowed functions use."""
    import ast
    name = f.node.name
    callers = []
    for g in prog.all_funcs():
        if g is f:
            continue
        for node in ast.walk(g.node):
            if isinstance(node, (ast.Name, ast.Attribute)) and (
                    getattr(node, 'id', None) == name or getattr(node, 'attr', None) == name):
                callers.append(g)
                break
    return bool(callers) and depth < 4 and all(
        g.full in ok or _only_called_by(prog, g, ok, depth + 1) for g in callers)


from ..known import KNOWN as KNOWN_FUNCS   # noqa: E402


def blocks_in(r, at, t):
    """What a collection of blocks has: ('one', block, key or None), ('all', collection) and ('each', iterable, lid, alternatives)."""
    t = inner(t)
    d = mcall(t, 'values')
    if d is not None:
        t = inner(d['self'])
    out = []

    def add(segs, out):
        for s in segs:
            if s[0] == 'one':
                out.append(('one', s[1], None))
            elif s[0] == 'kv':
                out.append(('one', s[2], s[1]))
            elif s[0] == 'all':
                x = inner(s[1])
                d = mcall(x, 'values')
                x = inner(d['self']) if d else x
                if x[0] in ('obj', 'dict', 'list'):
                    out += blocks_in(r, at, x)
                else:
                    out.append(('all', x))
            elif s[0] == 'each':
                x = copied(s)
                if x is not None:
                    out.append(('all', x))
                    continue
                alts = []
                for facts, segs2 in s[3]:
                    sub = []
                    add(segs2, sub)
                    alts.append((facts, tuple(sub)))
                out.append(('each', s[1], s[2], tuple(alts)))
            else:
                raise Unk(f'which blocks {show(t)[:60]} has')
    add(contents(r, at, t), out)
    return out


def finally_is(p, obj, attr):
    """What an attribute has when a partition ends, if this function set it."""
    return p.st.attrs.get((obj, attr))


def new_tree(p):
    roots = [e for e in p.events if mstcall('get_unstored_blocks')(e)]
    return roots[-1] if roots else None


# ------------------------------------------------------------------ C02
@rules('C02')
def atomic(c):
    run = c.run(f'{ST}._commit', ST)
    fn = run.func.full
    c.rule('C02.order', 'a head is published, in storage and in memory, only after all of the commit\'s blocks were written')
    n = 0
    for o in run.events(lambda e: call('store_repo')(e) or (
            e.kind == 'setattr' and e.fn in ('head', 'mst') and e.a['value'] != NONE)):
        n += 1
        wb = o.must_before(call('write_blocks'))
        c.ob(f'{fn}:{o.ev.fn.rsplit(".", 1)[-1]}', bool(wb), o.ev,
             'the new head or tree is visible before its blocks are stored', o.path)
    c.anchor(n >= 2, f'{fn} publishes the head')
    for p in run.paths:
        evs_ = list(flat(p.events))
        for i, e in enumerate(evs_):
            if e.kind == 'setattr' and e.fn in ('head', 'mst') and e.a['value'] != NONE and e.a.get('self') == REPO:
                late = [x for x in evs_[i + 1:] if PERSIST(x)]
                c.ob(f'{fn}:caller', not late, e, "the caller's repo is changed before everything that may fail is done", p)
    c.rule('C02.validate-first', 'nothing is written for a commit that is then rejected')
    for p in run.raises:
        w = [e for e in flat(p.events) if PERSIST(e)]
        c.ob(f'{fn}:raise', not (w and p.exc.cls is not None), p,
             f'{w[0].fn if w else ""} has already happened when this commit is rejected', p)
    c.rule('C02.publish', 'a successful commit publishes exactly the commit it wrote, in storage, on the loaded repo, and on the caller\'s repo')
    for p in run.returns:
        attempt(c, fn, published, c, run, p)
    c.rule('C02.heads', "only commits, and code that makes or loads repos, change a repo's head and tree")
    import ast
    ok = {f'{ST}._commit', 'arroba.repo.Repo.__init__'}
    n = 0
    for f in ast_funcs(c):
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in ('head', 'mst') and not isinstance(node.ctx, ast.Load):
                n += 1
                # AtpRepo entities aren't Repos
                ent = node.attr == 'head' and f.mod.name == DSM
                c.ob(f'{node.attr} set in {f.full}', ent or f.full in ok or _only_called_by(c.prog, f, ok), at_node(f, node),
                     "changes a repo's head or tree outside a commit")
    c.anchor(n >= 4, 'heads and trees are set')
    c.rule('C02.create', 'a new repo is registered only after its first commit and events were stored')
    r = c.run('arroba.repo.Repo.create')
    for p in r.returns:
        cr = [i for i, e in enumerate(p.events) if call('create_repo')(e)]
        cm = [i for i, e in enumerate(p.events) if call('Storage.commit')(e)]
        c.ob('Repo.create', len(cr) == 1 and len(cm) == 1 and cm[0] < cr[0], p,
             'create_repo must follow the initial commit', p)
    c.rule('C02.first', "a first commit doesn't register its repo, and one whose transaction is tried again starts over")
    n = 0
    head = A(REPO, 'head')
    for p in run.returns:
        if run.truth(p, param('repo_did')) is not True:
            continue
        reg = [e for e in flat(p.events) if call('store_repo', 'create_repo')(e)]
        c.ob(f'{fn}: unregistered', not reg, reg[0] if reg else p, "registers a new repo before its events are stored", p)
        had = [e for e in p.events if e.kind == 'setattr' and e.fn == 'head' and e.a['self'] == REPO and e.a['value'] != NONE]
        at = had[0] if had else p       # before the new head is set
        facts = getattr(at, 'facts', None) or p.facts
        if run.truth(at, head) is False and not any(
                e.kind == 'setattr' and e.fn == 'head' and e.a['self'] == REPO and e.a['value'] == NONE for e in p.events):
            continue        # a first attempt
        own = any(f[0] == 'lin' and v[4] and any(is_get(t, A(head, 'decoded'), 'did') for t, _ in f[1]) for f, v in facts)
        prev = any(f[0] == 'truth' and v and is_get(f[1], A(head, 'decoded'), 'prev') for f, v in facts)
        if own or prev:
            continue
        n += 1
        c.ob(f'{fn}: retried', any(e.kind == 'setattr' and e.fn == 'head' and e.a['self'] == REPO and e.a['value'] == NONE
                                   for e in p.events), p, "an earlier attempt's commit is still the repo's head", p)
    c.ob(f'{fn}: retry', n > 0, f'{fn}', "a first commit can't be tried again after its transaction failed")


def published(c, run, p):
    fn = run.func.full
    wb = [e for e in p.events if call('write_blocks')(e)]
    if not c.ob(f'{fn}:write_blocks', len(wb) == 1, p, 'blocks aren\'t written exactly once', p):
        return
    head = finally_is(p, REPO, 'head')
    if not c.ob(f'{fn}:head', head not in (None, NONE), p, "the caller's repo isn't left at the new commit", p):
        return
    root = new_tree(p)
    if root is None:
        raise Unk('how the new tree\'s blocks are found')
    tree = root.a['self']
    c.ob(f'{fn}:mst', finally_is(p, REPO, 'mst') == tree, p, "the caller's repo isn't left with the new tree", p)
    for ld in loaded(p):
        L = ld.res
        if run.truth(p, A(L, 'did')) is False or run.truth(p, A(L, 'head', 'cid')) is False:
            continue        # every stored repo has a DID and a head
        c.ob(f'{fn}:stored head', finally_is(p, L, 'head') == head, p, "the stored repo isn't left at the new commit", p)
        c.ob(f'{fn}:stored mst', finally_is(p, L, 'mst') == tree, p, "the stored repo isn't left with the new tree", p)
        sr = [e for e in p.events if call('store_repo')(e)]
        if c.ob(f'{fn}:store_repo', len(sr) == 1 and sr[0].a.get('repo') == L, p,
                "the stored repo's head isn't updated", p):
            c.ob(f'{fn}:store_repo head', sr[0].attrs.get((L, 'head')) == head, sr[0],
                 "the stored repo's head isn't set before it's stored", p)
    batch(c, run, p, wb[0], head, root)


def iterator(run, ev, t):
    """Can t only be iterated over once?"""
    t = run.S(ev, t)
    return t[0] == 'call' and t[1].rsplit('.', 1)[-1] in ('iter', 'map', 'filter', 'chain', 'from_iterable', 'islice', 'reversed', 'zip', 'enumerate',
                                                         'takewhile', 'dropwhile', 'starmap', 'filterfalse') and (
        t[1].startswith(('builtins.', 'itertools.')) or '.' not in t[1])


def batch(c, run, p, ev, head, root):
    """Everything that the commit refers to is in the one batch."""
    fn = run.func.full
    t = ev.a['blocks']
    got = blocks_in(run, ev, t)
    if run.shape(ev, inner(t))[0] == 'gen' or iterator(run, ev, t):
        for cls in (MEM, DS):
            r = c.run(f'{cls}.write_blocks', cls)
            for q in r.returns:
                n = len({lp.lid for lp, _ in any_loops(q.events) if base_of(lp.iter) == param('blocks')})
                c.ob(f'{fn}:iterator', n <= 1, ev, f"{cls} reads the blocks more than once, so it can't be given an iterator", p)
    ones = [x[1] for x in got if x[0] == 'one']
    c.ob(f'{fn}:batch has commit', head in ones or run.S(ev, head) in ones, ev, "the commit block isn't written", p)
    un = I(root.res, 1)
    some = [x for x in got if x[0] == 'each' and un in (inner(x[1]), (mcall(inner(x[1]), 'values') or {}).get('self'),
                                                      (mcall(inner(x[1]), 'items') or {}).get('self'))]
    if ('all', un) not in got and some:
        raise Unk('which of the new tree nodes are written')
    c.ob(f'{fn}:batch has tree', ('all', un) in got, ev, "the new tree nodes aren't written", p)
    # each record that the loop over the writes puts in the tree
    lps = [lp for lp in all_loops(p) if any(mstcall('add', 'update')(e) for b in back_bodies(lp) for e in b.events)]
    if not lps:
        return
    eachs = [x for x in got if x[0] == 'each' and blockish(x)]
    if not c.ob(f'{fn}:batch has records', bool(eachs), ev, "the new records' blocks aren't written", p):
        return
    for x in eachs:
        for facts, segs in x[3]:
            if segs:
                continue
            acts = {k[1] for k, _ in facts if k[0] == 'eqc' and k[1][0] == 'attr' and k[1][2] == 'action'} | {
                y for k, _ in facts for y in subterms(k) if y[0] == 'attr' and y[2] == 'action'}
            at = with_facts(run, ev, facts)
            if not acts:
                raise Unk('which records are written')
            c.ob(f'{fn}:batch has every record', any(run.cmp(at, '==', a, ACTION('DELETE')) is True or (
                run.cmp(at, '==', a, ACTION('CREATE')) is False and run.cmp(at, '==', a, ACTION('UPDATE')) is False) for a in acts), ev,
                "a new record's block isn't written", p)


def blockish(x):
    return any(y[0] == 'one' and blockval(y[1]) is not None for _, segs in x[3] for y in segs)


@rules('C02')
def atomic_datastore(c):
    c.rule('C02.tx', "the Datastore commit's reads and head update happen in one transaction; sequence numbers don't")
    run = c.run(f'{DS}._commit', DS, inline=(f'{ST}._commit', 'arroba.storage.Storage._commit'))
    n = 0
    for o in run.events(call('load_repo', 'store_repo', 'write_blocks')):
        n += 1
        mode = modes(o.ev)[1]
        c.ob(f'{DS}._commit:{o.ev.fn.rsplit(".", 1)[-1]}', mode in ('own', 'join'), o.ev, "isn't in the commit's transaction", o.path)
    c.anchor(n >= 3, 'DatastoreStorage._commit runs Storage._commit')
    for m in ('store_repo',):
        r = c.run(f'{DS}.{m}', DS)
        c.some(f'{DS}.{m}:put', r.events(call('?.put')), 'the head is never put')
        for o in r.events(call('?.put')):
            c.ob(f'{DS}.{m}', modes(o.ev)[1] == 'join', o.ev,
                 "the head update doesn't join the commit's transaction", o.path)
            g = entity_reads(o.ev.a['self'])
            c.ob(f'{DS}.{m} (read-modify-write)', bool(g), o.ev,
                 "doesn't update the entity it read in this transaction", o.path)
    r = c.run(f'{DS}.write_blocks', DS)
    puts = r.events(call('ndb.put_multi', '?.put', 'ndb.put_multi_async', '?.put_async'))
    c.some(f'{DS}.write_blocks:put', puts, 'blocks are never put')
    for o in puts:
        tx = [d for d in decos(o.ev) if d[0] == 'call' and fn_is(d[1], 'ndb.transaction', 'ndb.transactional')]
        c.ob(f'{DS}.write_blocks (batch)', bool(tx), o.ev,
             "a commit's blocks aren't put in one transaction", o.path)
    for p in r.returns:
        if any(call('ndb.put_multi', '?.put', 'ndb.put_multi_async', '?.put_async')(e) for e in flat(p.events)):
            continue
        empty = [st for st in r.cases(p) if not nothing(st)]
        c.ob(f'{DS}.write_blocks:every', not empty, p, "returns without having put its blocks", p)
    c.rule('C02.tx-blocks', "a Datastore commit's blocks are put in the same transaction as its head update")
    for o in puts:
        non = deco_calls(o.ev, 'ndb.non_transactional')
        c.ob(f'{DS}.write_blocks', not non, o.ev,
             "blocks are committed in a transaction of their own, so they stay if the head update's fails", o.path)


def nothing(st):
    """Do a path's facts say that something, eg the list of blocks to put, is empty?"""
    for k, v in st.facts.d.items():
        if k[0] == 'truth' and v is False or k[0] == 'eqc' and v is True and K(0) in k[1:]:
            return True
        if k[0] == 'lin' and isinstance(v, tuple) and len(k[1]) == 1:
            (t, n), (lo, ls, hi, hs) = k[1][0], v[:4]
            top = hi if n > 0 else (-lo if lo is not None else None)
            strict = hs if n > 0 else ls
            if top is not None and (top <= 0 or top <= abs(n) and strict):
                return True
        if k[0] == 'lin' and len(k[1]) == 2:
            return True     # eg as many are stored as there are
    return False


def entity_reads(t):
    """Lookups by key in a term: [{argument: value}]."""
    out = [dict(x[2]) for x in calls_in(t, 'get_by_id', 'get_by_id_async')]
    for x in subterms(t):
        d = mcall(x, 'get') if x[0] == 'call' else None
        if d is not None and callname(d.get('self', ())) and fn_is(callname(d['self']), 'ndb.Key', 'key.Key', 'Key'):
            out.append(dict(d['self'][2]))
    return out


# ------------------------------------------------------------------ C03
@rules('C03')
def wellformed(c):
    run = c.run(f'{ST}._commit', ST)
    fn = run.func.full
    c.rule('C03.record', "the signed commit is {did, version 3, rev = TID of its own sequence number, prev = the stored head, data = the new tree's root}")
    c.rule('C03.key', "commits are signed with the committing repo's own signing key")
    for p in run.returns:
        signs = [e for e in p.events if call('util.sign')(e)]
        c.rule('C03.record', c.rules['C03.record'])
        c.ob(f'{fn}:sign', len(signs) == 1, p, "the commit isn't signed exactly once", p)
        if len(signs) != 1:
            continue
        sg = signs[0]
        obj = run.S(sg, sg.a['obj'])
        d = dict_entries(obj)
        if d is None:
            c.note(f'{sg.loc}: commit has an unrecognised shape')
            continue
        d = {cval(k): v for k, v in d.items()}
        i = p.events.index(sg)
        for e in flat(p.events[i + 1:]):
            x = e.a.get('self')
            if x in (sg.res, sg.a['obj']) or isinstance(x, tuple) and x[0] == 'attr' and x[2] == 'decoded' and (
                    blockval(x[1]) or {}).get('decoded') == sg.res:
                bad = e.kind in ('setitem', 'delitem', 'mutate') or e.kind == 'call' and e.fn.rsplit('.', 1)[-1] in (
                    'update', 'pop', 'popitem', 'clear', 'setdefault')
                c.ob(f'{fn}:signed', not bad, e, 'changes a commit that was already signed', p)
        c.ob(f'{fn}:fields', set(d) == FIELDS - {'sig'}, sg, f'commit fields are {sorted(d)}', p)
        lds = loaded(p)
        L = lds[0].res if lds else None
        if L is not None:
            c.ob(f'{fn}:did', d.get('did') == A(REPO, 'did') or d.get('did') == A(L, 'did'), sg, "did isn't the repo's", p)
            c.ob(f'{fn}:prev', d.get('prev') == A(L, 'head', 'cid'), sg, "prev isn't the stored head's CID", p)
            c.ob(f'{fn}:load', lds[0].a.get('did_or_handle') == A(REPO, 'did'), lds[0], 'loads a different repo', p)
        else:
            c.ob(f'{fn}:did (new)', d.get('did') == param('repo_did'), sg, "did isn't the new repo's", p)
            c.ob(f'{fn}:prev (new)', d.get('prev') == NONE, sg, "a first commit has no prev", p)
        c.ob(f'{fn}:version', d.get('version') == K(3), sg, "version isn't 3", p)
        rev = d.get('rev', NONE)
        c.ob(f'{fn}:rev', match(C('util.int_to_tid', num=param('seq')), rev) and
             kwarg(rev, 'clock_id') is not None and is_const(kwarg(rev, 'clock_id')), sg,
             "rev isn't the deterministic TID of the commit's sequence number", p)
        roots = [e for e in p.events if mstcall('get_unstored_blocks')(e)]
        c.ob(f'{fn}:data', bool(roots) and d.get('data') == I(roots[-1].res, 0), sg,
             "data isn't the root of the tree whose blocks are written", p)
        base = L if L is not None else REPO
        if roots:
            t0 = roots[-1].a['self']
            if t0[0] == 'lv':
                init = [v[0] for lp in all_loops(p) if lp.lid == t0[1]
                        for k, v in lp.changed.items() if k[0] == 'var' and k[2] == t0[2]]
                start = init[0] if init else None
            else:
                start = t0
            c.ob(f'{fn}:tree', start == A(base, 'mst'), roots[-1],
                 "the new tree isn't derived from the stored repo's tree", p)
        c.rule('C03.key', c.rules['C03.key'])
        ok = sg.a.get('private_key') in (A(base, 'signing_key'), A(REPO, 'signing_key'))
        c.ob(f'{fn}:signing_key', ok, sg, "signed with a key other than the repo's signing key", p)
        c.rule('C03.block', "the commit block holds the signed commit, its ops, its sequence number and its repo, and is what the commit returns")
        hb = finally_is(p, REPO, 'head')
        b = blockval(hb) if hb else None
        if c.ob(f'{fn}:commit block', b is not None and b['decoded'] == sg.res and b['seq'] == param('seq') and b.get('encoded') in (None, NONE)
                and b.get('cid') in (None, NONE), p, "the head isn't a block of the signed commit with its sequence number", p):
            c.ob(f'{fn}:commit block repo', b['repo'] in (d.get('did'), A(L, 'did') if L else None), p, "the commit block's repo is wrong", p)
            c.ob(f'{fn}:commit block ops', b['ops'] != NONE, p, "the commit block has no ops", p)
        attempt(c, f'{fn}:result', result, c, run, p, hb, d.get('prev'))
    c.rule('C03.blocks', "every tree node and record written with a commit carries the commit's sequence number and repo")
    for p in run.returns:
        root = new_tree(p)
        did = (A(REPO, 'did'),) if loaded(p) else (param('repo_did'),)
        un = I(root.res, 1) if root else None
        lps = [lp for lp in all_loops(p) if lp.iter is not None and has(lp.iter, Fn(lambda t: t == un))]
        for f, want in (('seq', (param('seq'),)), ('repo', did)):
            sets = [[e for e in flat(b.events) if e.kind == 'setattr' and e.fn == f and has(e.a['self'], Fn(lambda t: t == un))]
                    for lp in lps for b in lp.bodies if b.exit == 'back']
            ok = bool(sets) and all(x and x[-1].a['value'] in want for x in sets) and any(
                lp.bodies and all(b.exit in ('back', 'raise') and (b.exit == 'raise' or any(
                    e.kind == 'setattr' and e.fn == f for e in flat(b.events))) for b in lp.bodies) for lp in lps)
            c.ob(f'{fn}:tree nodes {f}', ok, p, f"new tree nodes' {f} isn't set to the commit's", p)
        for o in occs(p, call('arroba.storage.Block')):
            if o.loops:
                c.ob(f'{fn}:records seq', o.ev.a['seq'] == param('seq'), o.ev, "a record's seq isn't the commit's", p)
                c.ob(f'{fn}:records repo', o.ev.a['repo'] in did, o.ev, "a record's repo isn't the commit's", p)
    c.rule('C03.fields', 'COMMIT_FIELDS, which tells commits from records, is exactly the fields of a signed commit')
    m = c.prog.modules['arroba.storage']
    if 'COMMIT_FIELDS' in m.assigns:
        from ..interp import Interp
        v = run.it.alias_of(m, m.assigns['COMMIT_FIELDS'][0])
        if v is not None:
            got = {x[2] for x in v[2][0][1][1]}
            c.ob('COMMIT_FIELDS', got == FIELDS, f'{m.rel} (COMMIT_FIELDS)', f'is {sorted(got)}')


def result(c, run, p, hb, prev):
    """What a commit returns is what it wrote."""
    fn = run.func.full
    msg = "doesn't return the commit that was written, its prev and its blocks"
    v = p.value
    if v[0] != 'nt' or not fn_is(v[1], 'CommitData'):
        if v in (NONE, hb):
            c.ob(f'{fn}:result', False, p, msg, p)
            return
        raise Unk(f'what it returns: {show(v)[:60]}')
    f = dict(v[2])
    c.ob(f'{fn}:result commit', f['commit'] == hb, p, msg, p)
    c.ob(f'{fn}:result prev', f['prev'] == prev, p, msg, p)
    wb = [e for e in p.events if call('write_blocks')(e)]
    if len(wb) != 1:
        return
    got, wrote = blocks_in(run, p, f['blocks']), blocks_in(run, wb[0], wb[0].a['blocks'])
    c.ob(f'{fn}:result blocks', unkeyed(got) == unkeyed(wrote), p, msg, p)
    for x in keyed(got):
        c.ob(f'{fn}:result keys', x[2] is not None and (x[2] == A(x[1], 'cid') or x[1][0] == 'valof'
             and x[2] == ('keyof', x[1][1], x[1][2])), p, "its blocks aren't under their own CIDs", p)


def unkeyed(got):
    return frozenset((x[0], x[1]) if x[0] != 'each' else ('each', x[2]) for x in got)


def keyed(got):
    for x in got:
        if x[0] == 'one':
            yield x
        elif x[0] == 'each':
            for _, segs in x[3]:
                yield from keyed(segs)


# ------------------------------------------------------------------ C04
def write_loop(c, run):
    """(path, loop, body) for every completed iteration over the writes."""
    for p in run.returns:
        for lp in all_loops(p):
            for b in back_bodies(lp):
                if any(mstcall('add', 'update', 'delete')(e) for e in b.events):
                    yield p, lp, b


def body_write(b, lp):
    for e in b.events:
        for t in e.a.values():
            if isinstance(t, tuple):
                for x in subterms(t):
                    if x[0] == 'attr' and x[2] in ('rkey', 'collection'):
                        return x[1]
    return None


def mst_op(b):
    ops = [e for e in b.events if mstcall('add', 'update', 'delete')(e)]
    return ops[0] if len(ops) == 1 else None


@rules('C04')
def validating_server(c):
    import ast
    c.rule('C04.server', 'the server that validates records is told to validate')
    n = 0
    for v in c.prog.modules['arroba.server'].assigns.get('server', ()):
        if not isinstance(v, ast.Call) or ast.unparse(v.func).rsplit('.', 1)[-1] != 'Server':
            c.unsure(f'server.server is {ast.unparse(v)[:60]}')
            continue
        n += 1
        k = {x.arg: x.value for x in v.keywords}
        val = k.get('validate', v.args[1] if len(v.args) > 1 else None)
        if val is not None and not isinstance(val, ast.Constant) or None in k:
            c.unsure('whether the server validates')
        else:
            c.ob('server validates', val is None or bool(val.value), f'arroba/server.py:{v.lineno}', "doesn't validate anything")
    c.anchor(n, 'the XRPC server')


@rules('C04')
def validation(c):
    run = c.run(f'{ST}._commit', ST)
    fn = run.func.full
    seen = set()
    for p, lp, b in write_loop(c, run):
        op = mst_op(b)
        c.rule('C04.one', 'each write makes exactly one change to the tree')
        if not c.ob(f'{fn}:one', op is not None, b.events[0] if b.events else p, 'a write changes the tree more than once', p):
            continue
        w = body_write(b, lp)
        act = op.fn.rsplit('.', 1)[-1]
        seen.add(act)
        path = mk_fmt([A(w, 'collection'), K('/'), A(w, 'rkey')]) if w else None
        c.rule('C04.path', "the tree is changed at the write's own path")
        c.ob(f'{fn}:{act} path', op.a.get('key') == path, op, "the tree key isn't collection/rkey", p)
        c.rule('C04.exists', 'updates and deletes need an existing record')
        if act in ('update', 'delete'):
            gets = [e for e in b.events if mstcall('get')(e) and e.a.get('key') == path
                    and e.a.get('self') == op.a.get('self')]
            ok = any(run.truth(op, g.res) is True or run.isnone(op, g.res) is False for g in gets)
            c.ob(f'{fn}:{act} exists', ok, op, "a nonexistent record can be updated or deleted", p)
        c.rule('C04.action', "the tree change matches the write's action")
        want = {'add': 'CREATE', 'update': 'UPDATE', 'delete': 'DELETE'}[act]
        if w:
            c.ob(f'{fn}:{act} action', run.cmp(op, '==', A(w, 'action'), ACTION(want)) is True, op,
                 f"MST.{act} isn't limited to {want} writes", p)
        if act == 'delete':
            continue
        rec = A(w, 'record') if w else None
        c.rule('C04.schema', "records are validated against their type's lexicon before they change the tree")
        before = b.events[:b.events.index(op)]
        val = [e for e in before if e.kind == 'call' and e.fn.endswith('.validate')]
        ok = any(v.a.get(2) == rec and v.a.get(1) == K('record')
                 and v.a.get(0) in (('get', rec, K('$type'), NONE), I(rec, '$type')) and
                 gname(v.a.get('self')) == 'arroba.server.server' for v in val)
        c.ob(f'{fn}:{act} schema', ok, op, 'the record isn\'t validated as its own $type', p)
        c.rule('C04.size', f'records are at most {MAX_RECORD} encoded bytes')
        blk = blockval(_base(op.a.get('value')))
        c.ob(f'{fn}:{act} block', blk is not None and blk['decoded'] == rec and op.a.get('value')[0] == 'attr'
             and op.a['value'][2] == 'cid', op, "the tree value isn't the CID of the record's block", p)
        if blk is not None:
            ln = ('call', 'builtins.len', ((0, A(_base(op.a['value']), 'encoded')),), None)
            ok = run.cmp(b, '<=', ln, K(MAX_RECORD)) is True
            c.ob(f'{fn}:{act} size', ok, op, f'a record over {MAX_RECORD} bytes can be committed', p)
        c.rule('C04.disguise', "records that would be replayed as commits or events are rejected")
        typ = ('get', rec, K('$type'), NONE)
        ok = all(any(k[0] in ('lin', 'eqc', 'eq') and v is not True and _keys_of(k, rec) for k, v in st.facts)
                 for st in run.cases(b))
        c.ob(f'{fn}:{act} not a commit', ok, op, "a record with exactly a commit's fields can be written", p)
        pref = K(NSID + '#')

        def not_event(st):
            if run.it.decide(st, ('truth', typ)) is False:
                return True
            return any(k[0] == 'truth' and k[1][0] == 'call' and k[1][1] == '?.startswith'
                       and pref in subterms(k[1]) and v is False for k, v in st.facts)
        ok = all(not_event(st) for st in run.cases(b))
        c.ob(f'{fn}:{act} not an event', ok, op, "a record typed as a subscribeRepos message can be written", p)
    c.anchor(seen == {'add', 'update', 'delete'}, f'{fn} adds, updates and deletes records (found {sorted(seen)})')
    c.rule('C04.every', 'every given write is applied, in the order given')
    for p in run.returns:
        for lp in all_loops(p):
            if lp.bodies and any(mstcall('add', 'update', 'delete')(e) for b in back_bodies(lp) for e in b.events):
                attempt(c, f'{fn}:writes', every_write, c, run, p, lp)
    c.rule('C04.limit', f'a commit has at most {MAX_OPS} operations')
    W = param('writes')
    for p in run.returns:
        single = run.decide(p, ('isinst', W, WRITE)) is True
        lens = {t for k, _ in run._st(p).facts.d.items() for t in subterms(k) if t[0] == 'call' and t[1] == 'builtins.len'
                and W in subterms(run.S(p, t[2][0][1]))} | {('call', 'builtins.len', ((0, W),), None)}
        lens = [t for t in lens if whole(run, p, t[2][0][1])]
        ok = single or any(run.cmp(p, '<=', t, K(MAX_OPS)) is True for t in lens)
        if not ok and any(K(MAX_OPS) in subterms(k) or MAX_OPS in k for k, _ in run._st(p).facts.d.items()):
            c.unsure(f'{fn} limits something else to {MAX_OPS}')
            continue
        c.ob(f'{fn}:limit', ok, p, f'a commit can have over {MAX_OPS} operations', p)


WRITE = 'arroba.repo.Write'


def writes_in(run, p, t):
    """'all' if a collection has every given write, in order; 'one' if it's the only one given; or the call that changes it."""
    W = param('writes')
    for _ in range(6):
        t = inner(t)
        if t == W:
            return 'all'
        if t[0] == 'call' and t[1] == 'builtins.enumerate':
            t = dict(t[2])[0]
            continue
        s = run.S(p, t)
        if s[0] in ('list', 'tuple'):
            segs = s[1]
            if segs in ((('one', W),), (W,)):
                return 'one'
            if len(segs) == 1 and segs[0][0] == 'spread':
                t = segs[0][1]
                continue
            ol = one_loop(s)
            if ol is not None:
                whole_ = all(len(x) == 1 and x[0][0] == 'one' and x[0][1][0] == 'elemof' for _, x in ol[1])
                if not whole_:
                    return s
                t = ol[0]
                continue
        if s != t and s[0] == 'call':
            t = s
            continue
        return s
    return t


def whole(run, p, t):
    return writes_in(run, p, t) == 'all'


def every_write(c, run, p, lp):
    fn = run.func.full
    t = writes_in(run, p, lp.iter)
    if t == 'one':
        c.ob(f'{fn}:one write', run.decide(p, ('isinst', param('writes'), WRITE)) is True, p, 'applies something else', p)
        return
    if t != 'all':
        wrong = t[0] == 'item' or t[0] in ('list', 'set', 'dict') or t[0] == 'call' and t[1].rsplit('.', 1)[-1] in (
            'set', 'frozenset', 'sorted', 'reversed', 'islice', 'filter', 'takewhile', 'dropwhile', 'fromkeys')
        if wrong:
            c.ob(f'{fn}:every write', False, lp.bodies[0].events[0] if lp.bodies[0].events else p,
                 f'applies {show(t)[:60]}, which may not be every write, in order', p)
            return
        raise Unk(f'which writes are applied: {show(t)[:60]}')
    c.ob(f'{fn}:every write', all(b.exit in ('back', 'raise') for b in lp.bodies), p, "doesn't apply every write", p)
    for b in back_bodies(lp):
        c.ob(f'{fn}:apply', any(mstcall('add', 'update', 'delete')(e) for e in b.events), b.events[0] if b.events else p,
             'a write is left out', p)


def _base(t):
    return t[1] if t and t[0] == 'attr' else t


def _keys_of(k, rec):
    s = list(subterms(k))
    return any(x[0] == 'call' and x[1] == '?.keys' and dict(x[2]).get('self') == rec for x in s)


# ------------------------------------------------------------------ C05
@rules('C05')
def ops(c):
    run = c.run(f'{ST}._commit', ST)
    fn = run.func.full
    seen = set()
    for p, lp, b in write_loop(c, run):
        op = mst_op(b)
        if op is None:
            continue
        w = body_write(b, lp)
        act = op.fn.rsplit('.', 1)[-1]
        path = mk_fmt([A(w, 'collection'), K('/'), A(w, 'rkey')]) if w else None
        apps = [e for e in b.events if e.kind == 'mutate' and e.fn in ('list.append', 'list.extend')
                and has(e.a.get(0, NONE), Fn(lambda t: t[0] == 'nt' and fn_is(t[1], 'CommitOp')))]
        c.rule('C05.emit', 'every write that changes the tree is listed exactly once; an update that changes nothing is not listed')
        if act == 'update' and not apps:
            ptrs = [e for e in b.events if mstcall('get_pointer')(e)]
            same = len(ptrs) >= 2 and any(
                run.cmp(b, '==', x.res, y.res) is True for x in ptrs for y in ptrs
                if x.a['self'] == op.a['self'] and y.a['self'] == op.res)
            gets = [e for e in b.events if mstcall('get')(e)]
            same = same or any(run.cmp(b, '==', g.res, op.a['value']) is True for g in gets)
            c.ob(f'{fn}:no-op update', same, op, 'an update that changes the tree is left out of ops', p)
            seen.add('noop')
            continue
        c.ob(f'{fn}:{act} listed', len(apps) == 1, op, f'{len(apps)} ops listed for one write', p)
        if len(apps) != 1:
            continue
        if act == 'update':
            ptrs = [e for e in b.events if mstcall('get_pointer')(e)]
            gets = [e for e in b.events if mstcall('get')(e)]
            diff = any(run.cmp(b, '==', x.res, y.res) is False for x in ptrs for y in ptrs if x is not y)
            diff = diff or any(run.cmp(b, '==', g.res, op.a['value']) is False for g in gets)
            c.ob(f'{fn}:changed update', diff, op, 'a no-op update is listed in ops', p)
        seen.add(act)
        t = [x for x in subterms(apps[0].a[0]) if x[0] == 'nt' and fn_is(x[1], 'CommitOp')][0]
        f = dict(t[2])
        want = {'add': 'CREATE', 'update': 'UPDATE', 'delete': 'DELETE'}[act]
        c.rule('C05.action', "an op's action is the write's")
        c.ob(f'{fn}:{act} op action', f['action'] == ACTION(want) or w and f['action'] == A(w, 'action'),
             apps[0], "the op's action is wrong", p)
        c.rule('C05.path', "an op's path is the write's")
        c.ob(f'{fn}:{act} op path', f['path'] == path and path == op.a.get('key'), apps[0], "the op's path is wrong", p)
        c.rule('C05.cid', "an op's cid is the record's that the tree now has, or None for a delete")
        c.ob(f'{fn}:{act} op cid', f['cid'] == (NONE if act == 'delete' else op.a.get('value')), apps[0],
             "the op's cid is wrong", p)
        c.rule('C05.prev', "an op's prev is the record's CID before this write, or None for a create")
        if act == 'add':
            c.ob(f'{fn}:{act} op prev', f['prev_cid'] == NONE, apps[0], "a create's prev is wrong", p)
        else:
            g = [e for e in b.events if mstcall('get')(e) and e.res == f['prev_cid']]
            ok = bool(g) and g[0].a.get('key') == path and g[0].a.get('self') == op.a.get('self')
            c.ob(f'{fn}:{act} op prev', ok, apps[0], "prev isn't the tree's value before this write", p)
        c.rule('C05.thread', 'each write applies to the tree that the previous one returned')
        recv = op.a.get('self')
        ok = recv[0] == 'lv'
        if ok:
            ch = [v for k, v in lp.changed.items() if k[0] == 'var' and k[2] == recv[2]]
            ok = any(op.res in v[1] for v in ch)
        c.ob(f'{fn}:{act} threads', ok, op, "the tree change is lost", p)
    c.anchor(seen >= {'add', 'update', 'delete'}, f'{fn} lists ops (found {sorted(seen)})')
    c.rule('C05.block', "the commit block has exactly the ops that were listed")
    for p in run.returns:
        attempt(c, f'{fn}:block ops', block_ops, c, run, p)
    c.rule('C05.stored', "a stored commit's ops keep their action, path, CIDs and order")
    conv(c)


def block_ops(c, run, p):
    b = blockval(finally_is(p, REPO, 'head') or NONE)
    lps = [lp for lp in all_loops(p) if any(mstcall('add', 'update', 'delete')(e) for b in back_bodies(lp) for e in b.events)]
    if b is None or not lps:
        return
    if not c.ob(f'{run.func.full}:block ops', b['ops'] != NONE, p, 'the commit block has no ops', p):
        return
    got = contents(run, p, b['ops'])
    for lp in lps:
        mine = [x for x in got if x[0] == 'each' and x[2] == lp.lid]
        c.ob(f'{run.func.full}:block ops', len(mine) == len(got) == 1, p, "the commit block's ops aren't the writes' ops", p)


def conv(c):
    """AtpBlock.from_block and to_block are inverse, field by field."""
    r = c.run(f'{DSM}.AtpBlock.from_block', f'{DSM}.AtpBlock')
    for p in r.returns:
        attempt(c, 'AtpBlock.from_block', stored_ops, c, r, p)
    r = c.run(f'{DSM}.AtpBlock.to_block', f'{DSM}.AtpBlock')
    for p in r.returns:
        attempt(c, 'AtpBlock.to_block', restored_ops, c, r, p)


def one_each(c, r, p, inst, t, src):
    """(facts, element, value) for a list that has exactly one value for each element of src, in order."""
    if t is None or t == NONE:
        c.ob(f'{inst}:ops', False, p, "drops the commit's ops", p)
        return
    got = contents(r, p, t)
    if not got and (r.truth(p, src) is False or r.isnone(p, src) is True):
        return
    if not c.ob(f'{inst}:ops', bool(got), p, "drops the commit's ops", p):
        return
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk(f'the ops {show(t)[:60]}')
    _, it, lid, alts = got[0]
    base = inner(it)
    if r.shape(p, base) in (('list', ()), ('tuple', ())) and (r.truth(p, src) is False or r.isnone(p, src) is True):
        return
    if base != src:
        if src not in subterms(r.S(p, base)):
            raise Unk(f'what the ops are made of: {show(base)[:60]}')
        if base[0] == 'item' or base[0] == 'call' and base[1].rsplit('.', 1)[-1] in ('reversed', 'sorted', 'set', 'islice', 'filter'):
            c.ob(f'{inst}:ops order', False, p, "doesn't keep every op, in order", p)
            return
        if base[0] not in ('call', 'list', 'tuple', 'or'):
            raise Unk(f'what the ops are made of: {show(base)[:60]}')
    el = ('elemof', it, lid)
    for facts, segs in alts:
        if c.ob(f'{inst}:every op', len(segs) == 1, p, 'drops or repeats an op', p):
            if segs[0][0] != 'one':
                raise Unk('an op')
            yield with_facts(r, p, facts), el, segs[0][1]


def stored_ops(c, r, p):
    blk = param('block')
    t = p.value
    if callname(t) != f'{DSM}.AtpBlock':
        raise Unk(f'what it returns: {show(t)[:60]}')
    for at, x, v in one_each(c, r, p, 'AtpBlock.from_block', dict(t[2]).get('ops'), A(blk, 'ops')):
        if callname(v) != f'{DSM}.CommitOp':
            raise Unk(f'an op {show(v)[:60]}')
        a = dict(v[2])
        name = ('call', '?.lower', (('self', A(x, 'action', 'name')),), None)
        c.ob('AtpBlock.from_block:action', a.get('action') == name, p, "the op's action isn't stored", p)
        c.ob('AtpBlock.from_block:path', a.get('path') == A(x, 'path'), p, "the op's path isn't stored", p)
        for f in ('cid', 'prev_cid'):
            t = A(x, f)
            g = a.get(f, NONE)
            if r.truth(at, t) is False or r.isnone(at, t) is True:
                c.ob(f'AtpBlock.from_block:no {f}', g in (NONE, t), p, f"a missing {f} isn't stored as None", p)
            else:
                c.ob(f'AtpBlock.from_block:{f}', match(C('?.encode', K('base32'), self=t), g), p, f"the op's {f} isn't stored", p)


def restored_ops(c, r, p):
    b = blockval(p.value)
    if b is None:
        raise Unk(f'what it returns: {show(p.value)[:60]}')
    src = A(SELF, 'ops')
    for at, x, v in one_each(c, r, p, 'AtpBlock.to_block', b.get('ops'), src):
        v = r.S(p, v)
        if v[0] != 'nt' or not fn_is(v[1], 'CommitOp'):
            raise Unk(f'an op {show(v)[:60]}')
        f = dict(v[2])
        up = ('call', '?.upper', (('self', A(x, 'action')),), None)
        act = f['action']
        ok = act == I(G('arroba.storage.Action'), up) or match(C('builtins.getattr', G('arroba.storage.Action'), up), act) \
            or act == ('dynattr', G('arroba.storage.Action'), up)
        c.ob('AtpBlock.to_block:action', ok, p, "the op's action isn't restored", p)
        c.ob('AtpBlock.to_block:path', f['path'] == A(x, 'path'), p, "the op's path isn't restored", p)
        for k in ('cid', 'prev_cid'):
            t, g = A(x, k), f[k]
            if r.truth(at, t) is False or r.isnone(at, t) is True:
                c.ob(f'AtpBlock.to_block:no {k}', g in (NONE, t), p, f"a missing {k} isn't restored as None", p)
            else:
                c.ob(f'AtpBlock.to_block:{k}', match(C('CID.decode', t), g), p, f"the op's {k} isn't restored", p)


# ------------------------------------------------------------------ C06
@rules('C06')
def sequence(c):
    run = c.run(f'{ST}.commit', ST)
    fn = run.func.full
    cb = A(REPO, 'callback')
    c.rule('C06.allocate', 'each commit allocates one sequence number, for subscribeRepos, and commits with it')
    for p in run.paths:
        al = [e for e in p.events if call('allocate')(e)]
        cm = [e for e in p.events if call('Storage._commit')(e)]
        if p.kind == 'return' or cm:
            ok = len(al) == 1 and al[0].a.get('nsid') == K(NSID) and al[0].a.get('self') == A(SELF, 'sequences')
            c.ob(f'{fn}:allocate', ok, p, 'not exactly one allocation', p)
            ok = len(cm) == 1 and al and cm[0].a.get('seq') == al[0].res and p.events.index(al[0]) < p.events.index(cm[0])
            c.ob(f'{fn}:use', ok, p, "the commit doesn't use the allocated number", p)
            if cm:
                a = cm[0].a
                c.ob(f'{fn}:args', a.get('repo') == REPO and a.get('writes') == param('writes')
                     and a.get('repo_did') == param('repo_did'), cm[0], "the commit isn't the caller's", p)

    def cbs(p, kw):
        return [e for e in p.events if e.kind == 'call' and e.fn == '()' and e.a.get('self') == cb and kw in e.a]
    c.rule('C06.notify', 'a successful commit notifies the callback once, with the commit, after it was stored')
    for p in run.returns:
        cm = [e for e in p.events if call('Storage._commit')(e)]
        d = cbs(p, 'data')
        c.ob(f'{fn}:result', bool(cm) and p.value == cm[0].res, p, "doesn't return the commit", p)
        c.ob(f'{fn}:no lost_seq', not cbs(p, 'lost_seq'), p, "a used sequence number is reported lost", p)
        if run.truth(p, cb) is False:
            continue
        ok = len(d) == 1 and cm and d[0].a['data'] == cm[0].res and p.events.index(d[0]) > p.events.index(cm[0])
        c.ob(f'{fn}:notify', ok and run.truth(p, cb) is True, p, "the callback isn't notified of the commit", p)
    c.rule('C06.lost', 'every way out of a failed commit reports its sequence number lost, then re-raises')
    for e in {id(e): e for p in run.paths for e in p.events if call('Storage._commit')(e)}.values():
        kinds = {x[0] for x in e.ctx}
        if not kinds & {'try', 'handler', 'finally'} and kinds & {'with', 'deco'}:
            c.unsure(f'{fn}: whether a failure of {e.fn} is caught')
        else:
            c.ob(f'{fn}:guarded', 'try' in kinds, e,
                 "a commit that fails isn't caught, so its sequence number is dropped without being reported lost")
    for p in run.raises:
        al = [e for e in p.events if call('allocate')(e)]
        if not al:
            continue
        if run.truth(p, cb) is False:
            continue
        ls = cbs(p, 'lost_seq')
        c.ob(f'{fn}:lost', len(ls) == 1 and ls[0].a['lost_seq'] == al[0].res, p,
             "an allocated sequence number is dropped without being reported lost", p)
    for p in run.returns:
        caught = [e for e in p.events if e.kind == 'catch']
        c.ob(f'{fn}:re-raise', not caught, caught[0] if caught else p, 'a failed commit is swallowed', p)
    c.rule('C06.event', "other events allocate one number, are stored with it and say it, and are sent to the callback once stored")
    run = c.run(f'{ST}.write_event', ST)
    fn = run.func.full
    for p in run.returns:
        al = [e for e in p.events if call('allocate')(e)]
        wr = [e for e in p.events if call('Storage.write')(e)]
        ok = len(al) == 1 and len(wr) == 1 and al[0].a.get('nsid') == K(NSID)
        c.ob(f'{fn}:once', ok, p, 'not exactly one allocation and write', p)
        if not ok:
            continue
        w = wr[0]
        c.ob(f'{fn}:seq', w.a.get('seq') == al[0].res, w, "isn't stored with its sequence number", p)
        obj = run.S(w, w.a['obj'])
        c.ob(f'{fn}:payload seq', _dget(obj, 'seq') == al[0].res, w, "doesn't carry its sequence number", p)
        c.ob(f'{fn}:payload did', _dget(obj, 'did') == A(REPO, 'did') and w.a.get('repo_did') == A(REPO, 'did'), w,
             "doesn't carry its repo's DID", p)
        typ = _dget(obj, '$type')
        c.ob(f'{fn}:payload type', typ == mk_fmt([K(NSID + '#'), param('type')]), w, "has the wrong $type", p)
        c.ob(f'{fn}:payload time', _dget(obj, 'time') not in (None, ...), w, "has no time", p)
        c.ob(f'{fn}:payload kwargs', any(e[0] == 'spread' and e[1] == ('param', '**kwargs') for e in obj[1]) if obj[0] == 'dict' else True,
             w, "drops the event's own fields", p)
        d = [e for e in p.events if e.kind == 'call' and e.fn == '()' and e.a.get('self') == cb]
        if run.truth(p, cb) is False:
            c.ob(f'{fn}:no callback', not d, p, 'calls a missing callback', p)
        else:
            ok = len(d) == 1 and d[0].a.get('data') in (A(w.res, 'decoded'), w.a['obj']) and p.events.index(d[0]) > p.events.index(w)
            c.ob(f'{fn}:notify', ok, p, "the callback isn't notified with the stored event", p)
    c.rule('C06.callers', "only commits and events that were stored are sent to a repo's callback")
    import ast
    ok = {f'{ST}.commit', f'{ST}.write_event'}
    n = 0
    for f in ast_funcs(c):
        names = {t.id for node in ast.walk(f.node) if isinstance(node, ast.Assign) and isinstance(node.value, ast.Attribute)
                 and node.value.attr == 'callback' for t in node.targets if isinstance(t, ast.Name)}
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and (getattr(node.func, 'attr', '') == 'callback' or getattr(node.func, 'id', '') in names):
                n += 1
                c.ob(f'callback called in {f.full}', f.full in ok or f.full not in KNOWN_FUNCS and _only_called_by(c.prog, f, ok),
                     at_node(f, node), 'announces something outside of commit and write_event')
    c.anchor(n >= 2, 'callbacks are called')
    c.rule('C06.write', 'a block written without a sequence number gets a newly allocated one; one with a number keeps it')
    for cls in (MEM, DS):
        r = c.run(f'{cls}.write', cls)
        for p in r.returns:
            al = [e for e in p.events if call('allocate')(e)]
            none = r.isnone(p, param('seq'))
            if al:
                ok = (none is True or none is None and r.truth(p, param('seq')) is False) and len(al) == 1 and al[0].a.get('nsid') == K(NSID)
                seq = al[0].res
            else:
                ok = none is False or r.truth(p, param('seq')) is True
                seq = param('seq')
            c.ob(f'{cls}.write:allocate', ok, p, 'allocates when it must not, or the reverse', p)
            used = [e for e in p.events if e.kind == 'call' and (call('arroba.storage.Block')(e) or call('AtpBlock.create')(e))]
            c.ob(f'{cls}.write:seq', bool(used) and used[0].a.get('seq') == seq, p, "isn't written with its sequence number", p)
            if used:
                u = used[0].a
                c.ob(f'{cls}.write:obj', param('obj') in (u.get('decoded'), u.get('data')) and
                     param('repo_did') in (u.get('repo'), u.get('repo_did')), used[0], "writes something else", p)


def _dget(s, key):
    """Like dget, but looks past later **kwargs, which add other keys."""
    if s[0] != 'dict':
        return ...
    for e in reversed(s[1]):
        if e[0] == 'kv' and e[1] == K(key):
            return e[2]
    return None
