"""XRPC methods: authorization, gating, records, imports, archives, paging, blobs, lexicons."""
import ast
import json
import os

from .common import *

STORAGE = G('arroba.server.storage')
LOAD = 'server.load_repo'
CORE = ('arroba.storage.', 'arroba.repo.', 'arroba.mst.', 'arroba.did.', 'arroba.datastore_storage.',
        'arroba.firehose.', 'arroba.server.load_repo')
# methods that the server's operator or a repo's owner may use, not the public
PRIVATE = {f'com.atproto.{n}' for n in (
    'repo.createRecord', 'repo.putRecord', 'repo.deleteRecord', 'repo.applyWrites', 'repo.importRepo',
    'repo.uploadBlob', 'server.getSession', 'server.refreshSession')}
SESSION = 'com.atproto.server.createSession'
EFFECTS = ('Storage.commit', 'create_repo', 'store_repo', 'Storage.write', 'write_blocks', 'write_event',
           'activate_repo', 'deactivate_repo', 'tombstone_repo', '_set_repo_status', 'Repo.create',
           'did.create_plc', 'did.update_plc', 'did.rollback_plc', 'did.write_plc')
INP = param('input')
LEX = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'lexicons.json')


def nsids(c):
    hs = c.prog.handlers()
    c.anchor(len(hs) >= 10, 'XRPC methods are registered with server.server.method')
    return hs


def handler(c, nsid):
    f = nsids(c).get(nsid)
    c.anchor(f is not None, f'{nsid} is registered')
    return f


def runh(c, f):
    inl = ['xrpc_repo.validate'] + [h.full for h in nsids(c).values()]
    return c.run(f.full, None, inline=tuple(sorted(inl)))


def short(nsid):
    return nsid.split('.', 2)[-1]


def caught(events, e):
    return any(x.kind == 'catch' and getattr(x.x, 'ev', None) is e for x in events)


def done(events, name):
    """Calls that came back normally."""
    return [e for e in events if call(name)(e)]


def method_call(e, cls, *names):
    """A call of a method, on a known class or, if its receiver's type isn't known, by name."""
    return e.kind == 'call' and (fn_is(e.fn, *[f'{cls}.{n}' for n in names]) or e.fn in [f'?.{n}' for n in names])


def core(e):
    return e.kind == 'call' and (e.fn.startswith(CORE) or e.fn.startswith('?.') and e.fn[2:] in (
        'commit', 'create_repo', 'store_repo', 'write', 'write_blocks', 'write_event', 'load_repo', 'read', 'read_many',
        'read_many_raw', 'get_record', 'get_contents', 'load_all', 'add_covering_proofs')) \
        or e.kind == 'new' and fn_is(e.fn, 'Repo')


def loaded(o):
    """load_repo calls that surely came before."""
    return [e for e in o.before if call(LOAD)(e) and not caught(o.before, e)]


# what a field of the input is, after what the handler did to it
def field(r, o, t, depth=0):
    """Resolves input['x'] through earlier input.update() and setdefault() calls."""
    if depth > 4 or t[0] not in ('item', 'get') or t[1] != INP or not is_const(t[2]):
        return t
    return field_at(r, o, t[2], t, depth)


def field_at(r, o, key, t, depth=0):
    for e in reversed(o.before):
        if e.kind == 'setitem' and e.a.get('self') == INP:
            if e.a['key'] == key:
                return e.a['value']
            if not is_const(e.a['key']):
                return ('?',)
        if e.kind in ('call', 'mutate') and e.a.get('self') == INP:
            m = e.fn.rsplit('.', 1)[-1]
            if m == 'update':
                s = r.S(e, e.a.get(0, NONE))
                kw = {k: v for k, v in e.a.items() if isinstance(k, str) and k != 'self'}
                if cval(key) in kw:
                    return kw[cval(key)]
                v = dget(s, key)
                if v is ...:
                    return ('?',)
                if v is not None:
                    return v
            elif m == 'setdefault' and e.a.get(0) == key:
                return ('default', ('item', INP, key), e.a.get(1, NONE))
            elif m in ('pop', 'clear', 'popitem', '__setitem__', '__delitem__'):
                if m != 'pop' or e.a.get(0) == key:
                    return ('?',)
    return ('item', INP, key)


def same_field(r, o, t, name):
    """Is t the handler's parameter or input field with this name?"""
    v = field(r, o, t)
    return v in (param(name), I(INP, name)) or v[0] == 'get' and v[1:3] == (INP, K(name))


def named(r, o, t, *names):
    return any(same_field(r, o, t, n) for n in names)


def env(t, name):
    """Is t an environment variable?"""
    if t[0] in ('item', 'get'):
        return t[2] == K(name) and (gname(t[1]) or '').endswith('environ')
    return t[0] == 'call' and (t[1].endswith('environ.get') or fn_is(t[1], 'getenv')) and bool(t[2]) and t[2][0][1] == K(name)


def tested(at):
    """Terms whose truth or None-ness is known."""
    d = (at.st.facts if hasattr(at, 'st') else at.facts).d
    return [k[1] for k in d if k[0] in ('truth', 'isnone')]


def inp_get(t, name):
    return t[0] in ('item', 'get') and t[1] == INP and t[2] == K(name)


def inp_field(t):
    """Which of the input's fields is it?"""
    return cval(t[2]) if t[0] in ('item', 'get') and t[1] == INP and is_const(t[2]) else None


def glob_tested(at, name):
    return [t for t in tested(at) if gname(t) and fn_is(gname(t), name)]


class At:
    """A position after a whole partition."""
    def __init__(self, p):
        self.before = p.events


# ------------------------------------------------------------------ X01
def authed(events):
    return [e for e in events if call('server.auth')(e) and not caught(events, e)]


@rules('X01', explanation='''Dominance: on every partition of every registered method, whether authorization
comes before each access and return; and what authorization itself requires.''',
       assumptions=["without Flask there is no request, so a server that isn't run by Flask does its own authorization"])
def authorization(c):
    c.rule('X01.guard', 'a method that changes repos or returns session data authorizes the caller before anything else')
    n = 0
    for nsid, f in sorted(nsids(c).items()):
        r = runh(c, f)
        for d in f.node.decorator_list:
            fn = resolved(c, f, d.func if isinstance(d, ast.Call) else d)
            if fn.startswith('arroba.') and not fn_is(fn, 'server.server.method', 'server.method'):
                c.unsure(f'{f.full} has a decorator that changes how it is called')
        eff = [o for o in r.events(lambda e: e.kind == 'call' and (
            fn_is(e.fn, *EFFECTS) or e.fn.startswith('?.') and fn_is('x.' + e.fn[2:], *[x.rsplit('.', 1)[-1] for x in EFFECTS if x != 'Storage.write']) ))]
        if nsid == SESSION or not (eff or nsid in PRIVATE):
            continue
        n += 1
        for o in r.events(core):
            c.ob(f'{short(nsid)}: {o.ev.fn.rsplit(".", 1)[-1]}', bool(authed(o.before)), o.ev,
                 'happens before the caller is authorized', o.path)
        for p in r.returns:
            c.ob(f'{short(nsid)}: returns', bool(authed(p.events)), p, "returns without authorizing the caller", p)
    c.anchor(n >= 6, 'methods with effects')
    c.rule('X01.auth', "authorization refuses everyone if there's no server token, and anyone whose header isn't exactly the token's")
    r = c.run('arroba.server.auth')
    toks = [t for p in r.paths for k in p.st.facts.d for t in subterms(k) if env(t, 'REPO_TOKEN')]
    c.ob('token', bool(toks), r, "doesn't read the server's token")
    if toks:
        tok = toks[0]
        hits = 0
        for p in r.returns:
            for at in r.cases(p):
                c.ob('unset token', r.truth(at, tok) is True, p, 'accepts a request when no token is set', p)
                nofl = [k for k, v in at.facts.d.items() if k[0] == 'truth' and v is False and k[1][0] in ('glob', 'gv')
                        and 'flask' in k[1][1].lower()] + \
                       [k for k, v in at.facts.d.items() if k[0] == 'isnone' and v is True and 'flask' in show(k[1])]
                if nofl:
                    continue
                hd = [t for k in at.facts.d for t in subterms(k) if 'headers' in show(t) and K('Authorization') in subterms_list(t)
                      and t[0] in ('call', 'get', 'item', 'or')]
                want = [mk_fmt([K('Bearer '), tok]), mk_bin('+', K('Bearer '), tok)]
                ok = any(same(r, at, h, w) for h in hd for w in want)
                hits += ok
                c.ob('right token', ok, p, "accepts a request whose header isn't the token's", p)
        c.anchor(hits, 'auth compares the Authorization header')
    c.rule('X01.session', 'a session is only created for exactly the server\'s password, before anything else')
    r = runh(c, handler(c, SESSION))
    got = [p for p in r.returns]
    c.anchor(got, 'createSession returns')
    pws = lambda t: env(t, 'REPO_PASSWORD')
    for o in r.events(core):
        c.ob(f'{o.ev.fn.rsplit(".", 1)[-1]}', right_password(r, o.ev, pws), o.ev, 'happens before the password is checked', o.path)
    for p in r.returns:
        c.ob('returns', right_password(r, p, pws), p, "returns a session without the right password", p)


def subterms_list(t):
    return list(subterms(t))


def same(r, at, a, b):
    if r.cmp(at, '==', a, b) is True:
        return True
    return digest_true(r, at, lambda x: x == a, lambda x: x == b)


def unencode(t):
    return dict(t[2])['self'] if t[0] == 'call' and t[1] == '?.encode' else t


def digest_true(r, at, pa, pb):
    d = (at.st.facts if hasattr(at, 'st') else at.facts).d
    for k, v in d.items():
        if k[0] == 'truth' and v is True and k[1][0] == 'call' and fn_is(k[1][1], 'compare_digest'):
            x, y = [unencode(z) for _, z in k[1][2]][:2]
            if pa(x) and pb(y) or pa(y) and pb(x):
                return True
    return False


def right_password(r, at, pws):
    mine = (I(INP, 'password'),)
    ok = lambda t: t in mine or t[0] == 'get' and t[1:3] == (INP, K('password'))
    for s in r.cases(at):
        good = digest_true(r, s, ok, pws)
        if not good:
            envs = {t for k in s.facts.d for t in subterms(k) if pws(t)}
            ins = {t for k in s.facts.d for t in subterms(k) if ok(t)}
            good = any(r.cmp(s, '==', a, b) is True and (b[0] == 'item' or r.truth(s, b) is True or r.truth(s, a) is True)
                       for a in ins for b in envs)
        if not good:
            return False
    return True


# ------------------------------------------------------------------ X02
UNGATED = {'com.atproto.sync.getBlob', SESSION, 'com.atproto.repo.importRepo', 'com.atproto.sync.subscribeRepos',
           'com.atproto.sync.listRepos', 'com.atproto.sync.getRepoStatus'}


@rules('X02', explanation='''The gate that methods load repos through, on every partition; that every method's
accesses to a repo come after it, on the repo that it returned; and what the status methods report.''')
def gate(c):
    c.rule('X02.gate', "loading a repo for a method fails with the protocol's errors if it doesn't exist or isn't active")
    r = c.run('arroba.server.load_repo')
    x = param('did_or_at_uri')
    for p in r.returns:
        v = p.value
        ok = v[0] == 'call' and fn_is(v[1], 'load_repo') and dict(v[2]).get('self') == STORAGE
        if not c.ob('loads', ok, p, "isn't a repo loaded from storage", p):
            continue
        who = dict(v[2]).get('did_or_handle', dict(v[2]).get(0))
        aturi = [k for k in r._st(p).facts.d if k[0] == 'truth' and 'startswith' in show(k[1])]
        uri = ('item', ('call', 'arroba.util.parse_at_uri', (('uri', x),), None), K(0))
        c.ob('which', who == x or has(who, Fn(lambda t: t[0] == 'call' and fn_is(t[1], 'parse_at_uri') and x in dict(t[2]).values()))
             and who[0] == 'item' and who[2] == K(0), p, "isn't the repo that was named", p)
        for at in r.cases(p):
            c.ob('missing', r.truth(at, v) is True or r.isnone(at, v) is False, p, "returns a repo that doesn't exist", p)
            c.ob('inactive', r.truth(at, A(v, 'status')) is False or r.isnone(at, A(v, 'status')) is True, p, 'returns an inactive repo', p)
    c.anchor(r.returns, 'load_repo returns')
    lds = [o.ev.res for o in r.events(lambda e: e.kind == 'call' and fn_is(e.fn, 'Storage.load_repo'))]
    names = set()
    for p in r.raises:
        exc = p.exc.val if hasattr(p.exc, 'val') else None
        nm = error_name(p)
        if nm is None:
            c.unsure('server.load_repo raises an unrecognised exception')
            continue
        names.add(nm)
        for at in r.cases(p):
            miss = any(r.truth(at, v) is False or r.isnone(at, v) is True for v in lds)
            inact = any(r.truth(at, A(v, 'status')) is True or r.isnone(at, A(v, 'status')) is False for v in lds)
            c.ob(f'{nm}', nm == 'RepoNotFound' and miss or nm == 'RepoDeactivated' and inact and not miss, p,
                 "isn't the error for what's wrong", p)
    c.ob('errors', names >= {'RepoNotFound', 'RepoDeactivated'}, r, f'only raises {sorted(names)}')
    c.rule('X02.gated', "methods only use repos that they loaded through the gate")
    n = 0
    for nsid, f in sorted(nsids(c).items()):
        if nsid in UNGATED:
            continue
        r = runh(c, f)
        takes = bool({'did', 'repo'} & {a.arg for a in f.node.args.args}) or any(call(LOAD)(e) for p in r.paths for e in flat(p.events))
        for o in r.events(lambda e: core(e) and not fn_is(e.fn, LOAD)):
            m = o.ev.fn.rsplit('.', 1)[-1]
            if o.ev.fn.startswith('arroba.storage.Block') or fn_is(o.ev.fn, 'MST.load', 'Storage.load_repo') and False:
                continue
            n += 1
            ok = bool(loaded(o))
            c.ob(f'{short(nsid)}: {m}', ok, o.ev, "uses a repo's data without checking that it's active", o.path)
            recv = o.ev.a.get('self')
            if o.ev.kind == 'call' and recv is not None and fn_is(o.ev.fn, 'Repo.get_record', 'Repo.get_contents', 'MST.load_all',
                                                                  'MST.walk_leaves_from', 'MST.add_covering_proofs'):
                c.ob(f'{short(nsid)}: {m} on', any(has(recv, Fn(lambda t, e=e: t == e.res)) for e in loaded(o)), o.ev,
                     'is of a repo that was loaded another way', o.path)
        if takes and f.full not in ('arroba.xrpc_repo.apply_writes',):
            for p in r.returns:
                o = At(p)
                empty = r.S(p, p.value)
                if not loaded(o) and empty == ('dict', (('kv', K('records'), ('list', ())),)):
                    continue       # a collection that this server never has
                if nsid.startswith('com.atproto.server.'):
                    continue
                c.ob(f'{short(nsid)}: returns', bool(loaded(o)), p, "answers for a repo without checking that it's active", p)
    c.anchor(n >= 10, 'methods use repos')
    c.rule('X02.named', 'methods load the repo that the request names')
    for nsid, f in sorted(nsids(c).items()):
        r = runh(c, f)
        for o in r.events(call(LOAD)):
            t = o.ev.a.get('did_or_at_uri', o.ev.a.get(0, NONE))
            has_did = 'did' in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
            c.ob(short(nsid), named(r, o, t, 'did' if has_did else 'repo'), o.ev, "loads another repo than the one named", o.path)
    c.rule('X02.status', 'getRepoStatus and listRepos report each repo\'s own status')
    r = runh(c, handler(c, 'com.atproto.sync.getRepoStatus'))
    for p in r.returns:
        s = r.S(p, p.value)
        act, st, did = dget(s, 'active'), dget(s, 'status'), dget(s, 'did')
        if act is ... or st is ...:
            c.unsure('getRepoStatus has an unrecognised shape')
            continue
        c.ob('getRepoStatus did', did == param('did') or did is not None and did[0] == 'attr' and did[2] == 'did', p, "isn't the repo's DID", p)
        lds = done(p.events, LOAD)
        direct = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'Storage.load_repo')]
        if act == TRUE:
            ok = bool(lds) or any(falsy(r, p, A(e.res, 'status')) for e in direct)
            c.ob('getRepoStatus active', ok and st is None, p, 'reports a repo as active without loading it', p)
        elif act == FALSE:
            exs = [e for e in p.events if e.kind == 'catch']
            ok = any(r.cmp(p, '==', A(t, 'name'), K('RepoDeactivated')) is True
                     for k in p.st.facts.d for t in subterms(k) if t[0] == 'exc') or \
                any(r.truth(p, A(e.res, 'status')) is True or r.isnone(p, A(e.res, 'status')) is False for e in direct)
            c.ob('getRepoStatus inactive', ok and (st == K('deactivated') or st is None or st[0] == 'attr'), p,
                 "reports a repo as inactive that isn't, or hides an error", p)
        else:
            c.unsure('getRepoStatus has an unrecognised shape')
    r = runh(c, handler(c, 'com.atproto.sync.listRepos'))
    rows(c, r)


def falsy(r, at, t):
    return r.truth(at, t) is False or r.isnone(at, t) is True


def error_name(p):
    """The protocol name of an XrpcError that a partition ends with."""
    for e in reversed(p.events):
        if e.kind == 'raise':
            t = e.a.get('exc', NONE)
            if t[0] == 'call' and fn_is(t[1], 'XrpcError'):
                n = dict(t[2]).get('name', dict(t[2]).get(1))
                return cval(n) if n is not None and is_const(n) else None
            return None
    return None


def rows(c, r):
    n = 0
    for p in r.returns:
        repos = dget(r.S(p, p.value), 'repos')
        ol = one_loop(repos) if isinstance(repos, tuple) else None
        if ol is None or not calls_in(ol[0], 'load_repos'):
            c.unsure('listRepos has an unrecognised shape')
            continue
        for facts, segs in ol[1]:
            if len(segs) != 1 or segs[0][0] != 'one':
                c.ob('listRepos row', False, p, 'leaves out or repeats a repo', p)
                continue
            d = segs[0][1]
            els = [t for t in elems_of(d)]
            if not els or dget(d, 'active') is ...:
                c.unsure('listRepos has an unrecognised row')
                continue
            el = els[0]
            n += 1
            at = with_facts(r, p, facts)
            st = A(el, 'status')
            head = A(el, 'head')
            c.ob('listRepos did', dget(d, 'did') == A(el, 'did'), p, "isn't the repo's DID", p)
            c.ob('listRepos head', match(C('?.encode', K('base32'), self=A(head, 'cid')), dget(d, 'head') or NONE), p, "isn't the repo's head", p)
            c.ob('listRepos rev', dget(d, 'rev') == I(A(head, 'decoded'), 'rev'), p, "isn't the repo's revision", p)
            a = dget(d, 'active')
            t = r.truth(at, st)
            nn = r.isnone(at, st)
            if a == TRUE:
                ok = t is False or nn is True
            elif a == FALSE:
                ok = t is True or nn is False
            elif a is not None and a[0] == 'call' and a[1] == 'builtins.bool':
                ok = False
            else:
                ok = None if a is not None else False
                if a in (('isnone', st), ('not', st)) or a is not None and has(a, Fn(lambda x: x == st)):
                    ok = None
            if ok is None:
                c.unsure("listRepos' active field has an unrecognised form")
            else:
                c.ob('listRepos active', ok, p, "isn't whether the repo is active", p)
            sv = dget(d, 'status')
            if sv is None:
                # an inactive repo's status is required
                c.ob('listRepos status', t is False or nn is True, p, "hides an inactive repo's status", p)
            elif sv is not ...:
                c.ob('listRepos status', (t is True or nn is False) and status_of(r, at, sv, st), p,
                     "isn't the repo's status", p)
    c.anchor(n, 'listRepos lists repos')


def status_of(r, at, v, st):
    """Is v a repo's status, or what it's mapped to?"""
    if v == st or is_const(v) and isinstance(cval(v), str):
        return True
    if v[0] == 'or':
        return status_of(r, at, v[-1], st)
    if v[0] == 'get' and v[2] == st:
        return v[3] == st or r.truth(at, v) is True or r.isnone(at, v) is False
    if v[0] == 'call' and fn_is(v[1], 'str'):
        return status_of(r, at, v[2][0][1], st)
    return v[0] == 'item' and v[2] == st


# ------------------------------------------------------------------ X03
def one_write(r, o, t):
    """The fields of the only write in a commit's list, or None."""
    s = r.S(o.ev, t)
    if s[0] in ('list', 'tuple') and len(s[1]) == 1:
        w = s[1][0]
        w = w[1] if w[0] == 'one' else w
    elif s[0] == 'nt':
        w = s
    else:
        return None
    if w[0] == 'nt':
        return dict(w[2])
    if w[0] == 'call' and fn_is(w[1], 'Write'):
        return dict(w[2])
    return None


@rules('X03', explanation='''Arguments and conditions of every commit, lookup and result of the record methods,
on every partition, by value numbering of the request's fields.''')
def records(c):
    c.rule('X03.write', "each write method makes exactly one commit, of one write, to the named repo, collection and key, with the given record")
    for name, actions in (('createRecord', 'CREATE UPDATE'), ('putRecord', 'CREATE UPDATE'), ('deleteRecord', 'DELETE')):
        nsid = f'com.atproto.repo.{name}'
        r = runh(c, handler(c, nsid))
        n = 0
        for p in r.returns:
            cms = [o for o in occs(p, lambda e: method_call(e, 'Storage', 'commit'))]
            gets = [e for e in p.events if method_call(e, 'Repo', 'get_record')]
            o_end = At(p)
            exist = [e for e in gets if named(r, o_end, e.a.get('collection', NONE), 'collection')
                     and rkey_ok(r, o_end, e.a.get('rkey', NONE))]
            if not cms:
                ok = name == 'deleteRecord' and any(falsy(r, p, e.res) for e in exist)
                c.ob(f'{name}: noop', ok, p, 'does nothing', p)
                continue
            n += 1
            if not c.ob(f'{name}: once', len(cms) == 1 and not cms[0].loops, p, 'commits more than once', p):
                continue
            o = cms[0]
            w = one_write(r, o, o.ev.a.get('writes', NONE))
            if w is None:
                s = r.S(o.ev, o.ev.a.get('writes', NONE))
                if s[0] in ('list', 'tuple') and len(s[1]) != 1 and all(x[0] == 'one' for x in s[1]):
                    c.ob(f'{name}: one write', False, o.ev, "isn't one write", p)
                else:
                    c.unsure(f'{name} commits unrecognised writes')
                continue
            repo = o.ev.a.get('repo', NONE)
            c.ob(f'{name}: storage', o.ev.a.get('self') == STORAGE, o.ev, "isn't to the server's storage", p)
            c.ob(f'{name}: repo', any(repo == e.res for e in loaded(o)), o.ev, "isn't to the repo that was named", p)
            c.ob(f'{name}: collection', named(r, o, w.get('collection', NONE), 'collection'), o.ev, "isn't to the collection that was named", p)
            c.ob(f'{name}: rkey', rkey_ok(r, o, w.get('rkey', NONE), name == 'createRecord'), o.ev, "isn't to the key that was named", p)
            act = gname(w.get('action', NONE)) or ''
            act = act.rsplit('.', 1)[-1]
            if act == '':
                c.unsure(f"{name}'s action isn't recognised")
                continue
            c.ob(f'{name}: action', act in actions.split(), o.ev, f"can't {act.lower()}", p)
            if act != 'DELETE':
                c.ob(f'{name}: record', same_field(r, o, w.get('record', NONE), 'record'), o.ev, "isn't the record that was given", p)
            here = [e for e in exist if e.a.get('self') == repo]
            if act == 'CREATE' and name == 'putRecord':
                c.ob(f'{name}: creates', any(falsy(r, o.ev, e.res) for e in here), o.ev, 'creates a record that may exist', p)
            if act in ('UPDATE', 'DELETE'):
                c.ob(f'{name}: {act.lower()}s', any(r.isnone(o.ev, e.res) is False or r.truth(o.ev, e.res) is True for e in here), o.ev,
                     "changes a record that may not exist", p)
            if name != 'deleteRecord':
                s = r.S(p, p.value)
                uri, cid = dget(s, 'uri'), dget(s, 'cid')
                if uri is ... or s[0] != 'dict':
                    c.unsure(f'{name} returns an unrecognised shape')
                    continue
                c.ob(f'{name}: uri', is_uri(r, o_end, uri, repo, param_or('collection'), name == 'createRecord'), p, "isn't the record's URI", p)
                ok = cid is not None and match(C('?.encode', K('base32'), self=C('dag_cbor_cid', obj=Fn(lambda t: same_field(r, o_end, t, 'record')))), cid)
                c.ob(f'{name}: cid', ok, p, "isn't the record's CID", p)
        c.anchor(n, f'{name} commits')
    c.rule('X03.newkey', 'a record without a key gets a new TID')
    r = runh(c, handler(c, 'com.atproto.repo.createRecord'))
    tids = [o for o in r.events(call('util.next_tid'))]
    c.some('next_tid', tids, "doesn't make a key", r)
    # without a key, validation passes and the commit's key must be one
    for o in r.events(lambda e: method_call(e, 'Storage', 'commit')):
        w = one_write(r, o, o.ev.a.get('writes', NONE)) or {}
        v = field(r, o, w.get('rkey', NONE))
        if v[0] == 'default':
            c.ob('default', v[2][0] == 'call' and fn_is(v[2][1], 'util.next_tid'), o.ev, "isn't a TID", o.path)
        elif v[0] == 'call':
            c.ob('default', fn_is(v[1], 'util.next_tid'), o.ev, "isn't a TID", o.path)
            c.ob('own key', no_key(r, o.ev), o.ev, 'replaces the key that was given', o.path)
        elif v[0] in ('item', 'get') and v[1] == INP:
            c.ob('default', has_key(r, o.ev), o.ev, 'fails on a record without a key', o.path)
    c.rule('X03.read', "reading returns the record, its URI and its CID, or says that it isn't found")
    r = runh(c, handler(c, 'com.atproto.repo.getRecord'))
    for p in r.returns:
        o = At(p)
        d = unjson(r, p, p.value)
        if d is None:
            c.unsure('getRecord returns an unrecognised shape')
            continue
        v = dget(d, 'value')
        ok = v is not None and v is not ... and v[0] == 'call' and fn_is(v[1], 'get_record')
        if not c.ob('value', ok, p, "isn't the record", p):
            continue
        a = dict(v[2])
        repo = a.get('self', NONE)
        c.ob('repo', any(repo == e.res for e in loaded(o)), p, "isn't from the repo that was named", p)
        c.ob('which', named(r, o, a.get('collection', NONE), 'collection') and named(r, o, a.get('rkey', NONE), 'rkey'), p, "isn't the record that was named", p)
        c.ob('found', r.truth(p, v) is True or r.isnone(p, v) is False, p, "returns a record that isn't there", p)
        c.ob('uri', is_uri(r, o, dget(d, 'uri'), repo, None), p, "isn't the record's URI", p)
        cid = dget(d, 'cid')
        c.ob('cid', cid is None or match(C('?.encode', K('base32'), self=C('dag_cbor_cid', obj=v)), cid), p, "isn't the record's CID", p)
    for nsid in ('com.atproto.repo.getRecord', 'com.atproto.sync.getRecord'):
        r = runh(c, handler(c, nsid))
        nf = [p for p in r.raises if error_name(p) == 'RecordNotFound']
        c.some(f'{short(nsid)}: not found', [e for p in nf for e in p.events[-1:]], "doesn't say that a record isn't found", r)
        for p in nf:
            gets = [e for e in p.events if method_call(e, 'Repo', 'get_record')]
            c.ob(f'{short(nsid)}: really', any(falsy(r, p, e.res) for e in gets), p, 'says that a stored record is missing', p)
    listing(c)
    c.rule('X03.unsupported', "requested features that aren't supported are refused")
    for nsid, ins, ps in (('repo.createRecord', ('swapCommit', 'swapRecord'), ()), ('repo.putRecord', ('swapCommit', 'swapRecord'), ()),
                          ('repo.deleteRecord', ('swapCommit', 'swapRecord'), ()), ('repo.getRecord', (), ('cid',)),
                          ('repo.listRecords', (), ('reverse', 'rkeyStart', 'rkeyEnd')), ('sync.listBlobs', (), ('since',))):
        f = handler(c, f'com.atproto.{nsid}')
        have = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        r = runh(c, f)
        for p in r.returns:
            if r.S(p, p.value) == ('dict', (('kv', K('records'), ('list', ())),)):
                continue
            for k in ins:
                ok = every_case(r, p, lambda s: any(inp_get(t, k) and falsy(r, s, t) for t in tested(s))
                                or r.decide(s, ('in', K(k), INP)) is False)
                c.ob(f'{nsid}: {k}', ok, p, f'ignores {k}', p)
            for k in ps:
                if k in have:
                    c.ob(f'{nsid}: {k}', refused(r, p, param(k)), p, f'ignores {k}', p)
    c.rule('X03.supported', 'collections outside of the configured ones are refused')
    for nsid in ('repo.createRecord', 'repo.putRecord', 'repo.deleteRecord', 'repo.listRecords'):
        r = runh(c, handler(c, f'com.atproto.{nsid}'))
        for p in r.returns:
            if not any(core(e) for e in p.events):
                continue
            for at in r.cases(p):
                d = (at.st.facts if hasattr(at, 'st') else at.facts).d
                ok = any(falsy(r, at, t) for t in glob_tested(at, 'SUPPORTED_COLLECTIONS')) or \
                    any(k[0] == 'in' and v is True and is_coll(k[1]) and gname(k[2]) and fn_is(gname(k[2]), 'SUPPORTED_COLLECTIONS')
                        for k, v in d.items()) or \
                    any(is_coll(t) and falsy(r, at, t) for t in tested(at))
                ok = ok or supported_all(c, r, p, at, d)
                if ok is None:
                    c.unsure(f'how {nsid} compares collections with the supported ones is not recognised')
                    continue
                c.ob(nsid, ok, p, 'accepts a collection that is not supported', p)
        # and only those
        for p in r.raises:
            if p.exc.cls is None or any(core(e) for e in p.events):
                continue
            for at in r.cases(p):
                d = (at.st.facts if hasattr(at, 'st') else at.facts).d
                refuses = [k for k, v in d.items() if k[0] == 'in' and v is False and is_coll(k[1])] or \
                    [t for t in tested(at) if inp_field(t) and not is_coll(t) and (falsy(r, at, t) if inp_field(t) == 'repo' else not falsy(r, at, t))] or \
                    [k for k in d if not (k[0] in ('truth', 'isnone', 'in') and all(gname(x) or inp_field(x) or x[0] in ('param', 'const', 'obj', 'tuple') for x in k[1:] if isinstance(x, tuple)))] or \
                    [t for t in tested(at) if t[0] == 'param' and not is_coll(t)] or \
                    [t for t in tested(at) if is_coll(t) and falsy(r, at, t)]
                c.ob(f'{nsid}: only those', bool(refuses), p, 'refuses a collection that is supported', p)


def supported_all(c, r, p, at, d):
    """Is every one of several collections checked? True/False, None if it isn't known."""
    sup = lambda t: bool(gname(t)) and fn_is(gname(t), 'SUPPORTED_COLLECTIONS')
    about = lambda t: any(is_coll(x) for x in subterms(t))

    def members(t):
        if t[0] == 'obj':
            s = r.S(at, t)
            return about(('tuple', tuple(x[1] for x in s[1] if x[0] == 'one'))) if s[0] in ('set', 'list') else False
        return about(t)
    # what's left of them without the supported ones
    for k, v in d.items():
        if k[0] == 'truth' and k[1][0] == 'sum' and v is False:
            n = dict(k[1][1])
            if any(sup(t) and x < 0 for t, x in n.items()) and any(x > 0 and members(t) for t, x in n.items()):
                return True
    # one by one
    for lp, _ in any_loops(p.events):
        if lp.iter is None or not about(lp.iter) or not any(sup(x) for b in lp.bodies for k in b.facts.d for x in subterms(k)):
            continue
        return not any(b.exit == 'break' for b in lp.bodies) and all(
            any(k[0] == 'in' and v is True and sup(k[2]) and any(x[0] == 'elemof' for x in subterms(k[1])) or
                k[0] == 'truth' and v is False and (sup(k[1]) or k[1][0] == 'elemof') or
                k[0] == 'isnone' and v is True and k[1][0] == 'elemof' for k, v in b.facts.d.items()) for b in back_bodies(lp))
    if any(any(sup(x) for x in subterms(k)) and k[0] not in ('truth', 'in') or k[0] == 'truth' and k[1][0] == 'call' and (
            fn_is(k[1][1], 'builtins.any', 'builtins.all') or any(sup(x) for x in subterms(k[1]))) for k in d):
        return None
    return False


def is_coll(t):
    return t == param('collection') or inp_get(t, 'collection')


def refused(r, at, t):
    """Is this absent on a partition that goes on?"""
    return every_case(r, at, lambda s: falsy(r, s, t))


def param_or(n):
    return None


RKEYS = (('get', INP, K('rkey'), NONE), I(INP, 'rkey'), ('get', INP, K('rkey'), K('')))


def no_key(r, at):
    return r.decide(at, ('in', K('rkey'), INP)) is False or any(falsy(r, at, t) for t in RKEYS)


def has_key(r, at):
    return r.decide(at, ('in', K('rkey'), INP)) is True or any(r.truth(at, t) is True or r.isnone(at, t) is False for t in RKEYS)


def rkey_ok(r, o, t, create=True):
    v = field(r, o, t)
    if v[0] == 'default':
        return v[1] == I(INP, 'rkey')
    if v[0] == 'call' and fn_is(v[1], 'util.next_tid'):
        return create
    return same_field(r, o, t, 'rkey')


def is_uri(r, o, t, repo, _, create=False):
    if t is None or t is ...:
        return False
    did = A(repo, 'did')
    if t[0] == 'call' and fn_is(t[1], 'at_uri'):
        a = dict(t[2])
        return a.get('did') == did and named(r, o, a.get('collection', NONE), 'collection') and rkey_ok(r, o, a.get('rkey', NONE), create)
    if t[0] == 'fmt':
        ps = t[1]
        return len(ps) == 6 and ps[0] == K('at://') and ps[1] == did and ps[2] == ps[4] == K('/') and \
            named(r, o, ps[3], 'collection') and rkey_ok(r, o, ps[5], create)
    return False


def unjson(r, at, t):
    """What json.loads(dag_json.encode(x)) is the JSON form of."""
    if t[0] == 'call' and fn_is(t[1], 'json.loads') and t[2]:
        t = t[2][0][1]
        if t[0] == 'call' and fn_is(t[1], 'dag_json.encode') and t[2] and dict(t[2]).get('dialect') == K('atproto'):
            s = r.S(at, dict(t[2]).get(0, dict(t[2]).get('data', NONE)))
            return s if s[0] == 'dict' else None
        return None
    s = r.S(at, t)
    return s if s[0] == 'dict' else None


def listing(c):
    c.rule('X03.list', "listing returns the named collection's records from the named repo's tree, in key order, each with its own URI, CID and value")
    r = runh(c, handler(c, 'com.atproto.repo.listRecords'))
    coll = param('collection')
    pre = mk_fmt([coll, K('/')])
    n = 0
    for p in r.returns:
        o = At(p)
        if not loaded(o):
            SC = G('arroba.xrpc_repo.SUPPORTED_COLLECTIONS')
            c.ob('unsupported', r.S(p, p.value) == ('dict', (('kv', K('records'), ('list', ())),)) and every_case(
                r, p, lambda s: r.truth(s, SC) is True and r.decide(s, ('in', coll, SC)) is False), p, "isn't empty", p)
            continue
        walks = [e for e in flat(p.events) if is_mstcall(e, 'walk_leaves_from', 'list_with_prefix', 'list', 'walk_leaves', 'leaves')]
        if len(walks) != 1:
            c.unsure("listRecords doesn't walk the tree once")
            continue
        w = walks[0]
        n += 1
        c.ob('tree', any(w.a.get('self') == A(e.res, 'mst') for e in loaded(o)), w, "isn't the named repo's tree", p)
        if is_mstcall(w, 'walk_leaves_from'):
            k = w.a.get('key', NONE)
            ok = k == param('cursor') and r.truth(p, k) is True or k == pre and falsy(r, p, param('cursor')) \
                or k[0] == 'or' and k[1:] == (param('cursor'), pre)
            c.ob('start', ok, w, "doesn't start at the cursor, or at the collection's first record", p)
            tw = [t for t in all_terms(r, p) if t[0] == 'call' and fn_is(t[1], 'itertools.takewhile') and
                  dict(t[2]).get(1) == w.res]
            if tw:
                key = key_of(r, p, dict(tw[0][2]).get(0, NONE))
                good = C('?.startswith', pre, self=A(('x',), 'key'))
                if key is None:
                    c.unsure('listRecords filters records in an unrecognised way')
                else:
                    c.ob('prefix', match(good, key), w, "isn't limited to the named collection's records", p)
            else:
                # a loop that stops, or skips, at the first key outside of the collection
                lps = [lp for lp in all_loops(p) if has(lp.iter, Fn(lambda t: t == w.res))]
                if not lps:
                    c.unsure('listRecords filters records in an unrecognised way')
                for lp in lps:
                    inside(c, r, p, lp, w, pre)
        d = r.S(p, p.value)
        recs = dget(d, 'records')
        if not isinstance(recs, tuple):
            c.unsure('listRecords returns an unrecognised shape')
            continue
        flatrec(c, r, p, o, recs, w)
    c.anchor(n, 'listRecords lists records')


def is_mstcall(e, *names):
    return e.kind == 'call' and (is_mst(e.fn, *names) or e.fn in [f'?.{n}' for n in names])


def all_terms(r, p):
    seen = set()
    for e in flat(p.events):
        for v in e.a.values():
            if isinstance(v, tuple):
                for t in subterms(r.S(e, v)):
                    if id(t) not in seen:
                        seen.add(id(t))
                        yield t
        if e.kind == 'loop' and isinstance(e.x.iter, tuple):
            yield from subterms(r.S(p, e.x.iter))
    yield from subterms(r.S(p, p.value))


def inside(c, r, p, lp, w, pre):
    coll = param('collection')
    for b in lp.bodies:
        el = ('elemof', lp.iter, lp.lid)
        pred = ('call', '?.startswith', (('self', A(el, 'key')), (0, pre)), None)
        keeps = [e for e in flat(b.events) if e.kind == 'mutate' or e.kind == 'yield']
        for e in keeps:
            ok = any(k[0] == 'truth' and v is True and match(C('?.startswith', pre, self=ANY), k[1]) for k, v in r._st(e).facts.d.items())
            c.ob('prefix', ok, e, "isn't limited to the named collection's records", p)


def flatrec(c, r, p, o, recs, w):
    """Each returned record is a leaf's own."""
    ol = one_loop(recs)
    if ol is None:
        c.unsure('listRecords returns an unrecognised shape')
        return
    for facts, segs in ol[1]:
        if len(segs) != 1 or segs[0][0] != 'one':
            c.ob('each', False, p, 'leaves out or repeats a record', p)
            continue
        d = unjson(r, p, segs[0][1])
        if d is None:
            c.unsure('listRecords returns unrecognised records')
            continue
        v, uri, cid = dget(d, 'value'), dget(d, 'uri'), dget(d, 'cid')
        # the entry: key comes from it, and so does its value's block
        if not isinstance(v, tuple) or not isinstance(uri, tuple):
            c.ob('fields', False, p, 'lacks a field', p)
            continue
        ents = {t for t in subterms(v) if t[0] == 'elemof'}
        keys = {t[1] for x in (uri,) for t in subterms(x) if t[0] == 'attr' and t[2] == 'key'}
        vals = [t for t in subterms(v) if t[0] == 'attr' and t[2] == 'value']
        want_v = v[0] == 'attr' and v[2] == 'decoded' and v[1][0] in ('item', 'get', 'call')
        if not c.ob('value', want_v and bool(vals), p, "isn't the leaf's block, decoded", p):
            continue
        rd = [t for t in subterms(v[1]) if t[0] == 'call' and fn_is(t[1], 'read_many', 'read', 'Storage.read')]
        key = v[1][2] if v[1][0] in ('item', 'get') else dict(v[1][2]).get('cid', dict(v[1][2]).get(0, NONE))
        ok = bool(rd) and key[0] == 'attr' and key[2] == 'value' and key[1][0] == 'elemof'
        if not c.ob('block', ok, p, "isn't the leaf's own block", p):
            continue
        ent = key[1]
        c.ob('same leaf', {strip_lid(t) for t in keys} == {strip_lid(ent)}, p, "isn't the same leaf's URI", p)
        ua = dict(uri[2]) if uri[0] == 'call' and fn_is(uri[1], 'at_uri') else None
        if ua is None:
            c.unsure("listRecords makes URIs in an unrecognised way")
        else:
            c.ob('uri repo', any(ua.get('did') == A(e.res, 'did') for e in loaded(o)), p, "isn't in the named repo", p)
            co, rk = ua.get('collection', NONE), ua.get('rkey', NONE)
            parts = [t for t in subterms(co) if t[0] == 'call' and t[1] in ('?.split', '?.partition')]
            ok = co[0] == 'item' and co[2] == K(0) or co == param('collection')
            ok = ok and rk[0] == 'item' and rk[2] in (K(1), K(-1), K(2))
            c.ob('uri', ok, p, "isn't the leaf's collection and key", p)
        c.ob('cid', cid is not None and (match(C('?.encode', K('base32'), self=C('dag_cbor_cid', obj=ANY)), cid)
             or match(C('?.encode', K('base32'), self=A(ANY_T, 'value')), cid)
             or match(C('?.encode', K('base32'), self=A(ANY_T, 'cid')), cid)), p, "isn't the record's CID", p)
        if cid is not None:
            ob = [dict(t[2]).get('obj') for t in subterms(cid) if t[0] == 'call' and fn_is(t[1], 'dag_cbor_cid')]
            c.ob('cid of', all(x == v for x in ob), p, "isn't this record's CID", p)


class _AnyT(P):
    def match(self, t, b):
        return True


ANY_T = _AnyT()


def strip_lid(t):
    return t[1] if t[0] == 'elemof' else t
