"""Account changes and their events; what both storages keep of repos and blocks."""
import ast

from .commit import entity_reads
from .storage import b32
from .trees_walk import *

# com.atproto.sync.subscribeRepos' message types: required fields beyond seq, did and time
MESSAGES = {
    'identity': (set(), {'handle'}),
    'account': {'active'} and ({'active'}, {'status'}),
    'sync': ({'blocks', 'rev'}, set()),
    'tombstone': (set(), set()),
}
ATPREPO = f'{DSM}.AtpRepo'


def evs(p, *names):
    return [e for e in p.events if call(*names)(e)]


def before(p, a, b):
    return p.events.index(a) < p.events.index(b)


def event_fields(e):
    """An event's own fields."""
    return {k: v for k, v in e.a.items() if k not in ('self', 'repo', 'type')}


# ------------------------------------------------------------------ C10
@rules('C10', explanation='''Effects of Repo.create, deactivate_repo, activate_repo, tombstone_repo and
write_event on every partition: which happen, in which order, with which arguments.''')
def account_events(c):
    c.rule('C10.status', 'an account change stores the new status, then one event that says it, and nothing else')
    want = {
        'deactivate_repo': ('deactivated', 'account', {'active': FALSE, 'status': K('deactivated')}),
        'activate_repo': (None, 'account', {'active': TRUE}),
        'tombstone_repo': ('tombstoned', 'tombstone', {}),
    }
    for m, (status, typ, fields) in want.items():
        for cls in (MEM, DS):
            r = c.run(f'{ST}.{m}', cls)
            n = 0
            for p in r.returns:
                st, ev = evs(p, '_set_repo_status'), evs(p, 'write_event')
                if m == 'activate_repo' and r.cmp(p, '==', A(REPO, 'status'), K('tombstoned')) is True:
                    continue
                n += 1
                if not c.ob(f'{m} on {cls}: once', len(st) == 1 and len(ev) == 1, p, 'not exactly one status change and one event', p):
                    continue
                a = st[0].a
                c.ob(f'{m} on {cls}: status', a.get('repo', a.get(0)) == REPO and a.get('status', a.get(1)) == K(status), st[0],
                     f"doesn't set this repo's status to {status!r}", p)
                c.ob(f'{m} on {cls}: order', before(p, st[0], ev[0]), ev[0], 'announces the change before it happened', p)
                f = event_fields(ev[0])
                if typ == 'account' and not cval_is(f.get('status', NONE), 'deactivated'):
                    f = {k: v for k, v in f.items()}
                c.ob(f'{m} on {cls}: event', ev[0].a.get('repo') == REPO and ev[0].a.get('type') == K(typ) and f == fields, ev[0],
                     "the event doesn't say what changed", p)
            c.anchor(n, f'{m} changes a status')
    c.rule('C10.create', "a new repo's first commit, identity, account and sync events come in this order, and then it's registered")
    r = c.run('arroba.repo.Repo.create', 'arroba.repo.Repo')
    for p in r.returns:
        repo = p.value
        cm, ev, cr = evs(p, 'Storage.commit'), evs(p, 'write_event'), evs(p, 'create_repo')
        ok = len(cm) == 1 and len(ev) == 3 and len(cr) == 1
        if not c.ob('once', ok, p, 'not one commit, three events and one registration', p):
            continue
        order = [p.events.index(e) for e in (cm[0], *ev, cr[0])]
        c.ob('order', order == sorted(order), p, 'out of order', p)
        c.ob('types', [e.a.get('type') for e in ev] == [K('identity'), K('account'), K('sync')], ev[0], 'not these events', p)
        for e in (cm[0], *ev, cr[0]):
            c.ob('same repo', e.a.get('repo') == repo and e.a.get('self') == param('storage'), e, "isn't for the new repo", p)
        w = r.S(cm[0], cm[0].a.get('writes', NONE))
        c.ob('first commit', cm[0].a.get('repo_did') == param('did') and w in (('list', ()), ('tuple', ()), K(())), cm[0],
             "the first commit isn't an empty one for the given DID", p)
        by = {cval(e.a.get('type')): (e, event_fields(e)) for e in ev if is_const(e.a.get('type', ()))}
        # the first commit's block: as the commit returned it, or as the repo's new head
        coms = [A(cm[0].res, 'commit'), A(repo, 'head')]
        coms += [cm[0].attrs[repo, 'head']] if (repo, 'head') in (cm[0].attrs or {}) else []
        if 'identity' in by:
            attempt(c, 'C10 identity', identity, c, r, p, *by['identity'])
        if 'account' in by:
            e, f = by['account']
            c.ob('account', f == {'active': TRUE}, e, "doesn't say that the account is active", p)
        if 'sync' in by:
            e, f = by['sync']
            c.ob('sync fields', set(f) <= {'blocks', 'rev'}, e, 'has other fields', p)
            c.ob('sync rev', any(is_get(f.get('rev', NONE), A(com, 'decoded'), 'rev') for com in coms), e, "isn't the first commit's revision", p)
            attempt(c, 'C10 sync', archive, c, r, p, e, f.get('blocks', NONE), coms)
    c.rule('C10.fields', "every event has the fields that its lexicon requires, and no others")
    n = 0
    for f, node in calls_of(c, 'write_event'):
        kw = {k.arg: k.value for k in node.keywords}
        t = kw.get('type') or (node.args[1] if len(node.args) > 1 else None)
        n += 1
        k = ... if t is None else c.prog.const_of(f.mod, t)
        if not isinstance(k, str):
            c.ob(f'{f.full}: type', False, at_node(f, node), "an event's type isn't known") if t is None else \
                c.unsure(f"{f.full}: an event's type isn't a constant")
            continue
        req, opt = MESSAGES.get(k, (None, None))
        if req is None:
            c.ob(f'{f.full}: {k}', False, at_node(f, node), 'not a subscribeRepos message')
            continue
        has_ = {k for k in kw if k not in ('repo', 'type', None)}
        spread = None in kw
        c.ob(f'{f.full}: {k}', (req <= has_ or spread) and has_ <= req | opt, at_node(f, node),
             f'needs {sorted(req)}, may have {sorted(opt)}, has {sorted(has_)}')
    c.anchor(n, 'events are written')
    r = c.run(f'{ST}.write_event', ST)
    for p in r.returns:
        wr = evs(p, 'Storage.write')
        if not c.ob('stored', len(wr) == 1, p, 'not stored exactly once', p):
            continue
        s = r.S(wr[0], wr[0].a['obj'])
        c.anchor(s[0] == 'dict', 'events are dicts')
        d = {e[1][2]: e[2] for e in s[1] if e[0] == 'kv' and is_const(e[1])}
        c.ob('did', d.get('did') == A(REPO, 'did') and wr[0].a.get('repo_did') == A(REPO, 'did'), wr[0], "isn't its repo's DID", p)
        al = evs(p, 'allocate')
        c.ob('seq', bool(al) and d.get('seq') == al[0].res == wr[0].a.get('seq'), wr[0], "isn't its own sequence number", p)
        t = d.get('time', NONE)
        c.ob('time', any(x[0] == 'call' and x[1].rsplit('.', 1)[-1] in ('now', 'utcnow') for x in subterms(t))
             and any(x[0] == 'call' and x[1].rsplit('.', 1)[-1] in ('isoformat', 'strftime') for x in subterms(t)), wr[0],
             "isn't the current time, as a string", p)
        c.ob('time zone', aware(t) is not False, wr[0], 'has no time zone, which its lexicon requires', p)
        c.ob('type', d.get('$type') == mk_fmt([K(NSID + '#'), param('type')]), wr[0], "isn't its type", p)
        c.ob('own fields', any(e[0] == 'spread' and e[1] == ('param', '**kwargs') for e in s[1]), wr[0], "drops the event's own fields", p)
        # the caller's own fields don't replace the computed ones
        cb = [e for e in p.events if e.kind == 'call' and e.fn == '()' and e.a.get('self') == A(REPO, 'callback')]
        for e in cb:
            c.ob('announced after', before(p, wr[0], e), e, 'announced before it was stored', p)


def aware(t):
    """Does a time have a time zone? None if it's unknown."""
    if t[0] != 'call':
        return None
    d, name = dict(t[2]), t[1].rsplit('.', 1)[-1]
    if name == 'isoformat':
        return aware(d.get('self', NONE))
    if name == 'utcnow':
        return False
    if name == 'now':
        tz = d.get('tz', d.get(0))
        return tz != NONE if tz is not None else False if fn_is(t[1], 'datetime.now') else True
    if name == 'replace' and 'self' in d:
        return d['tzinfo'] != NONE if 'tzinfo' in d else aware(d['self'])
    if name == 'astimezone':
        return True
    return None


def identity(c, r, p, e, f):
    h = f.get('handle')
    if h is None:
        hs = [k[1] for k, v in r._st(e).facts.d.items() if k[0] == 'truth' and v is False and 'handle' in show(k[1])
              or k[0] == 'isnone' and v is True and 'handle' in show(k[1])]
        c.ob('no handle', bool(hs), e, "leaves out the repo's handle", p)
    else:
        c.ob('handle', 'handle' in show(h) and r.truth(e, h) is True, e, "isn't the repo's handle, or is sent without one", p)
    c.ob('identity', set(f) <= {'handle'}, e, 'has other fields', p)


def archive(c, r, p, e, b, coms):
    """A CAR file of one commit."""
    if not (b[0] == 'call' and fn_is(b[1], 'car.write_car')):
        raise Unk(f'the archive {show(b)[:60]}')
    d = dict(b[2])
    roots = contents(r, e, d.get(0, d.get('roots', NONE)))
    c.ob('sync root', len(roots) == 1 and roots[0] in [('one', A(com, 'cid')) for com in coms], e, "isn't an archive of the first commit", p)
    bl = contents(r, e, d.get(1, d.get('blocks', NONE)))
    c.ob('sync blocks', len(bl) == 1 and bl[0][0] == 'one', e, "isn't an archive of just the first commit", p)
    for x in bl:
        if x[0] != 'one' or not (x[1][0] == 'call' and fn_is(x[1][1], 'car.Block')):
            raise Unk(f"the archive's block {show(x)[:60]}")
        a = dict(x[1][2])
        c.ob('sync block', any(a.get('cid', a.get(0)) == A(com, 'cid') for com in coms) and
             any(a.get('data', a.get(1)) == A(com, 'encoded') for com in coms), e, "isn't the first commit's block", p)


def cval_is(t, v):
    return is_const(t) and cval(t) == v


