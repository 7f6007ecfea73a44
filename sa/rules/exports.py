"""Who may export whole repos."""
from .xrpc import *
from .common import *
from .trees import last

DISABLED = G('arroba.util.DISABLE_GETREPO')
TOKEN = G('arroba.util.GETREPO_TOKEN')
REQUEST = G('flask.request')
UNITS = {'weeks': 7 * 86400, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': .001, 'microseconds': .000001}
ORDER = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
TRIM = ('?.strip', '?.removeprefix', '?.replace', '?.lstrip', '?.rstrip', '?.split', '?.partition', '?.rpartition', '?.encode', '?.decode')


def seconds(r, t):
    """A constant timedelta's length, or None."""
    if t[0] == 'glob':
        m, _, n = t[1].rpartition('.')
        m = r.it.prog.modules.get(m)
        if m is not None and len(m.assigns.get(n, ())) == 1:
            t = r.it.default(m, m.assigns[n][0])
    if not (t[0] == 'call' and last(t[1]) == 'timedelta'):
        return None
    n = 0
    for k, v in t[2]:
        k = ORDER[k] if isinstance(k, int) and k < len(ORDER) else k
        if k not in UNITS or not (is_const(v) and isinstance(v[2], (int, float))):
            return None
        n += UNITS[k] * v[2]
    return n


def header(t):
    """Is t the request's Authorization header, or what's left of it?"""
    if TOKEN in set(subterms(t)):
        return False
    if t[0] == 'call' and t[1] in TRIM:
        return header(dict(t[2]).get('self', NONE))
    if t[0] == 'item':
        return header(t[1])
    if t[0] == 'call' and t[1].startswith(('?.get', 'flask.')) and t[1].endswith('.get'):
        d = dict(t[2])
        key = d.get(0, d.get('key', NONE))
        if d.get(1, d.get('default', NONE))[0] != 'const':
            return False
        return has(t, Fn(lambda x: x == A(REQUEST, 'headers') or x == G('flask.request.headers'))) or t[1].endswith('request.headers.get') \
            if key == K('Authorization') else False
    if t[0] == 'get':
        return t[1] in (A(REQUEST, 'headers'), G('flask.request.headers')) and t[2] == K('Authorization') \
            and (len(t) < 4 or t[3] is None or t[3][0] == 'const')
    return False


def compared(st):
    """Whether the token in the request was found to be the configured one: {True, False, 'other'}."""
    out = set()
    for k, v in st.facts.d.items():
        if not (TOKEN in set(subterms(k)) or has(k, Fn(lambda t: t == TOKEN))) or k == ('truth', TOKEN) or k == ('isnone', TOKEN):
            continue
        if k[0] == 'eqc':
            pair = set(k[1:])
        elif k[0] == 'lin':
            pair = {t for t, _ in k[1]}
            if len(k[1]) != 2 or {n for _, n in k[1]} != {1, -1}:
                pair = set()
        elif k[0] == 'truth' and k[1][0] == 'call' and fn_is(k[1][1], 'hmac.compare_digest', 'secrets.compare_digest'):
            pair = {plain(t) for _, t in k[1][2]}
        else:
            pair = set()
        if TOKEN in pair and len(pair) == 2 and all(t == TOKEN or t == K('') or header(t) for t in pair):
            if k[0] == 'lin':
                v = v[:4] == (0, False, 0, False)
            out.add(bool(v))
        elif k[0] not in ('or', 'and'):
            out.add('other')
    return out


def plain(t):
    while t[0] == 'call' and t[1] in ('?.encode', 'builtins.bytes', 'builtins.str'):
        d = dict(t[2])
        t = d.get('self', d.get(0, NONE))
    return t


def older(r, st, repos, nows):
    """(is the repo older than 12 hours?, was its age looked at)."""
    looked = False
    for k, v in st.facts.d.items():
        if k[0] != 'lin' or not any(x in set(subterms(k)) for x in repos):
            continue
        looked = True
        vec = dict(k[1])
        if len(vec) == 1:
            # (now - created).total_seconds(), compared to a number
            t, = vec
            if t[0] == 'attr' and t[2] in ('seconds', 'days', 'microseconds'):
                return 'wrong', True
            if t[0] == 'call' and t[1] == '?.total_seconds' and vec[t] == 1:
                d, const = linear(dict(t[2])['self'])
                if len(d) == 2 and not const and any(d.get(x) == 1 for x in nows) and any(d.get(x) == -1 for x in repos):
                    lo, _, hi, _ = v[:4]
                    if lo == 12 * 3600:
                        return True, True
                    if hi == 12 * 3600:
                        return False, True
                    return 'wrong', True
        td = [t for t in vec if seconds(r, t) is not None]
        now = [t for t in vec if t in nows]
        made = [t for t in vec if t in repos]
        if len(vec) == 3 and len(td) == len(now) == len(made) == 1:
            s = vec[now[0]]
            if vec[made[0]] == -s and vec[td[0]] == -s and seconds(r, td[0]) == 12 * 3600:
                lo, _, hi, _ = v[:4]
                if s == -1:
                    lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                if lo is not None and lo >= 0:
                    return True, True
                if hi is not None and hi <= 0:
                    return False, True
            elif seconds(r, td[0]) != 12 * 3600 or vec[made[0]] != -s:
                return 'wrong', True
    return None, looked


@rules('X09', explanation='''Partition analysis of the whole-repo export methods: what holds of the configuration, the
caller, the request's token and the repo's age on each outcome.''',
       assumptions=['lexrpc passes only the parameters that a lexicon declares'])
def exports(c):
    c.rule('X09.served', 'when exports are disabled, a repo that is over 12 hours old is exported only to internal callers and to those with the token')
    c.rule('X09.refused', 'nobody else is refused')
    for nsid in ('com.atproto.sync.getRepo', 'com.atproto.sync.getCheckout'):
        f = handler(c, nsid)
        r = runh(c, f)
        n = short(nsid)
        internal = param('internal')
        repos = [A(e.res, 'created') for p in r.paths for e in p.events if call(LOAD)(e) or e.kind == 'call' and fn_is(e.fn, 'Storage.load_repo')]
        nows = {e.res for p in r.paths for e in p.events if call('util.now')(e)} | {
            e.res for p in r.paths for e in p.events if e.kind == 'call' and fn_is(e.fn, 'datetime.now', 'datetime.datetime.now')
            and has(('tuple', tuple(e.a.values())), OneOf(G('datetime.timezone.utc'), G('datetime.UTC')))}
        c.anchor(repos, f'{n} loads the repo')
        refusals = [p for p in r.raises if p.value and fn_is(exc_name(p), 'NotImplementedError')]
        c.rule('X09.refused', c.rules['X09.refused'])
        c.some(f'{n}: refusals', refusals, f'{n} never refuses')
        for p in r.returns + refusals:
            for at in r.cases(p):
                refused = p.kind == 'raise'
                off = flag(r, at, DISABLED)
                inner_ = flag(r, at, internal)
                has_token = flag(r, at, TOKEN)
                same = compared(at)
                made = [flag(r, at, x) for x in repos]
                old, looked = older(r, at, repos, nows)
                auth = True if has_token and True in same else False if has_token is False or same == {False} or flag(r, at, REQUEST) is False or sent(at) is False else None
                if refused:
                    c.rule('X09.refused', c.rules['X09.refused'])
                    if old == 'wrong':
                        c.ob(f'{n}: age', False, p, "doesn't compare its age to 12 hours", p)
                        continue
                    if old is None and looked or 'other' in same:
                        c.unsure(f'{n} decides whom to refuse in an unrecognised way')
                        continue
                    c.ob(f'{n}: enabled', off is True, p, "refuses although exports aren't disabled", p)
                    c.ob(f'{n}: internal', inner_ is False or 'internal' not in params_of(f) and n == 'sync.getCheckout', p, 'refuses internal callers', p)
                    c.ob(f'{n}: token', auth is False, p, 'refuses callers that have the token', p)
                    c.ob(f'{n}: new', old is True and True in made or old is True, p, 'refuses to export new repos', p)
                else:
                    c.rule('X09.served', c.rules['X09.served'])
                    free = off is False or inner_ is True or auth is True or False in made or old is False
                    if free:
                        c.ob(f'{n}: served', True, p, '', p)
                    elif old == 'wrong':
                        c.ob(f'{n}: age', False, p, "doesn't compare its age to 12 hours", p)
                    elif 'other' in same and auth is None:
                        c.ob(f'{n}: token', False, p, "accepts something else than the token", p)
                    elif has_token is not True and True in same:
                        c.ob(f'{n}: no token', False, p, "accepts callers although there's no token", p)
                    elif old is None and looked:
                        c.unsure(f"{n} compares the repo's age in an unrecognised way")
                    else:
                        c.ob(f'{n}: served', False, p, "exports an old repo to anyone", p)


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def sent(st):
    """Does the request have a token? False or None."""
    return False if any(k[0] in ('truth', 'isnone') and header(k[1]) and v is (k[0] == 'isnone') for k, v in st.facts.d.items()) else None


def flag(r, st, t):
    v = r.truth(st, t)
    if v is None and r.isnone(st, t) is True:
        return False
    return v


def exc_name(p):
    return p.value[1] if p.value[0] == 'call' else p.value[1] if p.value[0] in ('glob', 'class') else ''
