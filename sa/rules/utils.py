"""Leases, signatures and timestamp identifiers."""
from .common import *
from .trees import Unk, last, mcall
from .trees_walk import attempt

SELF = param('self')
LEASE = 'arroba.memcache.Lease'
CLIENT, LKEY, EXPIRES = (('attr', SELF, x) for x in ('client', 'key', 'expires_at'))
NOW = ('webutil.util.now', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'time.time')


def index_of(p, ev):
    return next((i for i, e in enumerate(p.events) if e is ev), None)


@rules('U06', explanation=(
    'Abstract interpretation of the lease, with the cache\'s operations opaque. Every partition that leaves a lease held, deletes its key or exits is '
    'checked for what it knows of the cache\'s answer and of the time. Nothing is executed.'),
    assumptions=('memcache\'s add is atomic, and never keeps a key for longer than its expiration',
                 'expirations are whole seconds between one second and 30 days, leases are released once, as their class documents',
                 'clocks of the lease\'s users and of memcache run at the same rate'))
def u06_acquire(c):
    c.rule('U06.acquire', 'a lease is only held once the cache has added its key, and is thought to expire no later than that')
    r = c.run(f'{LEASE}.__init__', LEASE)
    for p in r.returns:
        for k in ('client', 'key', 'expiration', 'retries', 'initial_retry_delay'):
            c.ob(f'Lease.{k}', p.st.attrs.get((SELF, k)) == param(k), r, f'a lease\'s {k} isn\'t the one given', p)
        c.ob('Lease: new', r.truth(p, p.st.attrs.get((SELF, 'expires_at'), EXPIRES)) is False, r, 'a new lease is already held', p)
    r = c.run(f'{LEASE}.acquire', LEASE)
    c.some('acquire returns', r.returns, 'never returns')
    c.some('acquire gives up', [p for p in r.raises if not asserted(r, p)], 'never gives up')
    for p in r.paths:
        attempt(c, 'acquire', acquired, c, r, p)
    loops = {e.x for p in r.paths for e in p.events if e.kind in ('loop', 'loopiter')}
    for e in {id(e): e for p in r.paths for e in flat(p.events) if e.kind == 'call' and e.a.get('self') == CLIENT}.values():
        c.ob('acquire: atomic', last(e.fn) not in ('set', 'replace', 'cas', 'touch', 'delete', 'delete_many', 'incr', 'append'), e,
             'changes a key that someone else may hold')
    for lp in loops:
        attempt(c, 'acquire', retried, c, r, lp)
    r = c.run(f'{LEASE}.__enter__', LEASE)
    for p in r.paths:
        got = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'Lease.acquire') and e.a.get('self') == SELF]
        c.ob('Lease.__enter__', len(got) == 1 and (p.kind == 'raise' or p.value == SELF), r, 'doesn\'t acquire the lease and return it', p)


def asserted(r, p):
    return r.truth(p, EXPIRES) is True or r.isnone(p, EXPIRES) is False


def adds(events):
    return [e for e in events if e.kind == 'call' and e.a.get('self') == CLIENT]


def acquired(c, r, p):
    ob = lambda what, ok, msg: c.ob(f'acquire: {what}', ok, r, msg, p)
    final = p.st.attrs.get((SELF, 'expires_at'), EXPIRES)
    if p.kind == 'raise':
        ob('held', asserted(r, p) or final == EXPIRES or r.truth(p, final) is False, 'thinks it holds a lease that it failed to acquire')
        return
    if final[0] == 'lv':
        raise Unk('where its expiration comes from')
    calls = adds(p.events)
    other = [e for e in calls if last(e.fn) != 'add']
    ok = [e for e in calls if last(e.fn) == 'add' and any(r.truth(st, e.res) is True for st in r.cases(p)) and
          all(r.truth(st, e.res) is True for st in r.cases(p))]
    ob('atomic', not [e for e in other if last(e.fn) in ('set', 'replace', 'cas', 'touch', 'delete', 'incr', 'append')], 'sets a key that someone else may hold')
    if not calls and any(e.kind in ('loop', 'loopiter') for e in p.events):
        ends = [b for e in p.events if e.kind in ('loop', 'loopiter') for b in e.x.bodies if b.exit in ('return', 'break')]
        for b in ends:
            ob('added', all(any(r.truth(st, x.res) is True for x in adds(b.events)) for st in r.cases(b)), 'may return without having added its key')
        if ends:
            raise Unk('which attempt succeeded')
    ob('added', bool(ok), 'returns without having added its key')
    if not ok:
        return
    add = ok[-1]
    a = add.a
    ob('key', a.get(0, a.get('key')) == LKEY, f'adds {show(a.get(0, a.get("key", NONE)))[:60]}')
    ob('answer', r.truth(p, a.get('noreply', a.get(3, TRUE))) is False, 'doesn\'t wait for the cache\'s answer')
    expire = a.get('expire', a.get(2))
    ob('expires', expire is not None and expire != K(0), 'adds a key that never expires')
    ob('held', final != EXPIRES and r.truth(p, final) is not False, 'doesn\'t know when the lease expires')
    if expire is None or final == EXPIRES:
        return
    tot = [x for x in subterms(expire) if x[0] == 'call' and last(x[1]) == 'total_seconds']
    ob('expiration', any(dict(x[2]).get('self') == ('attr', SELF, 'expiration') for x in tot) or expire == ('attr', SELF, 'expiration')
       or names_in(expire) or any(x[0] in ('lv', 'attr') for x in subterms(expire)), f'expires after {show(expire)[:60]}')
    now, delta = split_time(final)
    ev = next((e for e in p.events if e.kind == 'call' and e.res == now), None)
    if ev is None or not fn_is(ev.fn, *NOW):
        raise Unk(f'which time its expiration starts at: {show(now)[:60]}')
    ob('clock', index_of(p, ev) < index_of(p, add), 'looks at the clock after the cache has')
    ob('duration', delta == expire or delta is not None and delta[0] == 'call' and last(delta[1]) == 'floor' and dict(delta[2]).get(0) == expire, f'thinks it expires after {show(delta)[:60]}, not {show(expire)[:60]}')


def split_time(t):
    """(time, seconds) of a time plus a duration."""
    if t[0] == 'bin' and t[1] == '+':
        a, b = t[2], t[3]
        if a[0] == 'call' and last(a[1]) == 'timedelta':
            a, b = b, a
        if b[0] == 'call' and last(b[1]) == 'timedelta':
            d = dict(b[2])
            if set(d) == {'seconds'}:
                return a, d['seconds']
            if d.get(0) == K(0) and set(d) == {0, 1}:
                return a, d[1]
            raise Unk(f'how long it lasts: {show(b)[:60]}')
        return a, b
    if t[0] == 'sum':
        v, k = linear(t)
        now = [x for x in v if x[0] == 'call' and fn_is(x[1], *NOW)]
        if len(now) == 1 and v[now[0]] == 1:
            del v[now[0]]
            return now[0], mk_sum(v, k)
    raise Unk(f'when it expires: {show(t)[:60]}')


def retried(c, r, lp):
    """A failed attempt holds nothing, and there are only so many."""
    for b in back_bodies(lp):
        t = b.st.attrs.get((SELF, 'expires_at'), EXPIRES)
        if t != EXPIRES and t[0] != 'lv':
            bad = r.truth(b, t) is not False
            c.ob('acquire: retry', not bad, r, 'tries again with a lease that it may hold')
        calls = [e for e in adds(b.events) if last(e.fn) == 'add']
        for e in calls:
            c.ob('acquire: retry', r.truth(b, e.res) is not True, e, 'tries again after it has added its key')
    if lp.kind == 'for' and lp.iter[0] == 'call' and last(lp.iter[1]) in ('count', 'cycle'):
        c.ob('acquire: gives up', any(b.exit in ('break', 'raise') for b in lp.bodies), r, 'never gives up')


@rules('U06')
def u06_release(c):
    c.rule('U06.release', 'a lease\'s key is deleted unless it may have expired, when it may be someone else\'s, and it is however the code that it protects exits')
    r = c.run(f'{LEASE}.release', LEASE)
    c.some('release returns', r.returns, 'never returns')
    c.some('release deletes', [e for p in r.returns for e in adds(p.events) if last(e.fn) == 'delete'], 'never deletes its key')
    for p in r.paths:
        attempt(c, 'release', released, c, r, p)
    r = c.run(f'{LEASE}.__exit__', LEASE)
    for p in r.paths:
        got = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'Lease.release') and e.a.get('self') == SELF]
        c.ob('Lease.__exit__', len(got) == 1, r, 'doesn\'t release the lease', p)
        c.ob('Lease.__exit__ exceptions', p.kind == 'raise' or all(r.truth(st, p.value) is False for st in r.cases(p)), r,
             'may hide the exception that the code raised', p)


def before(r, st, now):
    """Is this time known to be before the lease expires?"""
    v = r.cmp(st, '<=', now, EXPIRES)
    for args in (((0, K(0)),), (), (('seconds', K(0)),)):
        if v is None:
            v = r.cmp(st, '>=', mk_bin('-', EXPIRES, now), ('call', 'datetime.timedelta', args, None))
    return v


def released(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'release: {what}', ok, e, msg, p)
    if p.kind == 'raise':
        ob('raises', all(r.truth(st, EXPIRES) is False or r.isnone(st, EXPIRES) for st in r.cases(p)), 'fails to release a lease that it holds')
        return
    calls = adds(p.events)
    dels = [e for e in calls if last(e.fn) in ('delete', 'delete_many')]
    ob('deletes', len(dels) == len(calls), f'uses the cache\'s {", ".join(last(e.fn) for e in calls)}')
    times = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, *NOW)]
    if any(e.kind == 'catch' for e in p.events):
        raise Unk('what it does when an exception is raised')
    for st in r.cases(p):
        for e in dels:
            ob('key', e.a.get(0, e.a.get('key')) == LKEY, f'deletes {show(e.a.get(0, NONE))[:60]}', e)
            fresh = [x for x in times if index_of(p, x) < index_of(p, e) and before(r, st, x.res)]
            ob('expired', bool(fresh), 'deletes a key that may be someone else\'s lease', e)
        if not dels:
            ob('held', r.truth(st, EXPIRES) is False or r.isnone(st, EXPIRES) is True or
               any(r.cmp(st, '>=', x.res, EXPIRES) is True or before(r, st, x.res) is False for x in times), 'keeps a lease that hasn\'t expired')
