"""DIDs and handles: where they are resolved, and what is published for them."""
import ast
from .common import *
from .trees import Unk, last, pattern_of
from .trees_walk import attempt
from .signatures import args, arg, called, flat
from .tids import const_of

DID_MOD = 'arroba.did'
GET, POST = param('get_fn'), param('post_fn')
PLC = ('item', ('glob', 'os.environ'), K('PLC_HOST'))


def fetches(p, *fns):
    """Requests that are sent on a path."""
    return [e for e in p.events if e.kind == 'call' and (e.fn in ('()', '') and e.a.get('self') in fns or
            fn_is(e.fn, 'requests.get', 'session.get', 'requests.post', 'session.post', 'requests.request', 'session.request', 'urlopen'))]


def url_of(e):
    return flat(e.a.get(0, e.a.get('url', NONE)))


def env(t, name):
    """Is it this environment variable?"""
    return t == ('item', ('glob', 'os.environ'), K(name)) or t[0] == 'call' and last(t[1]) in ('getenv', 'get') and K(name) in args(t).values() \
        or t[0] == 'get' and t[1] == ('glob', 'os.environ') and t[2] == K(name)


def prefixed(r, p, t, prefix):
    """Does it start with the prefix? True, False or None."""
    for st in r.cases(p):
        if not any(r.truth(st, x) is True for x in starts(st, t, prefix)):
            return False if any(r.truth(st, x) is False for x in starts(st, t, prefix)) else None
    return True


def starts(st, t, prefix):
    out = []
    for k in st.facts.d:
        for x in subterms(k):
            if x[0] == 'call' and last(x[1]) == 'startswith' and args(x)['self'] == t and is_const(args(x).get(0, NONE)):
                got = args(x)[0][2]
                if isinstance(got, str) and (got == prefix):
                    out.append(x)
    return out


def bare(r, p, t, prefix):
    """What follows a prefix that it's known to have, or None."""
    if t[0] == 'call' and last(t[1]) == 'removeprefix' and args(t).get(0) == K(prefix):
        return args(t)['self']
    if t[0] == 'item' and t[2][0] == 'slice' and t[2][1] == K(len(prefix)) and t[2][2:] == (NONE, NONE):
        return t[1]
    if t[0] == 'item' and t[1][0] == 'call' and last(t[1][1]) == 'split' and args(t[1]).get(0) == K(prefix) and t[2] in (K(1), K(-1)):
        return args(t[1])['self']
    return None


@rules('U04', explanation=(
    'Abstract interpretation of the resolvers, with DNS and HTTP opaque. Which locations are queried, for which identifiers, and which answers reach the result is '
    'compared with the DID methods\' and the handle specification\'s, on every partition, including failures. Nothing is executed.'),
    assumptions=('identifiers after the did:plc: or did:web: prefix are syntactically valid', 'cachetools\' caches don\'t keep calls that raise'))
def u04_resolve(c):
    c.rule('U04.method', 'DIDs are resolved by their own method, and other methods are rejected')
    r = c.run(f'{DID_MOD}.resolve')
    did = param('did')
    c.some('resolve returns', r.returns, 'never returns')
    c.some('resolve rejects', r.raises, 'never rejects a DID')
    for p in r.returns:
        attempt(c, 'resolve', method, c, r, p, did)


def method(c, r, p, did):
    v = p.value
    if called(v, 'resolve_plc', 'resolve_web'):
        pre = 'did:plc:' if last(v[1]) == 'resolve_plc' else 'did:web:'
        c.ob('resolve: did', arg(v, 0, 'did') == did, r, f'resolves {show(arg(v, 0, "did"))[:40]}', p)
        ok = prefixed(r, p, did, pre)
        if ok is None and any(last(x[1]) == 'split' for k in p.st.facts.d for x in subterms(k) if x[0] == 'call'):
            raise Unk('which method the DID has')
        c.ob('resolve: method', ok is True, r, f'resolves DIDs that don\'t start with {pre} as if they did', p)
        return
    if v[0] == 'call' and v[1] not in ('builtins.None',):
        raise Unk(f'how it resolves: {show(v)[:60]}')
    c.ob('resolve: rejects', False, r, f'returns {show(v)[:40]} for a DID that it can\'t resolve', p)


@rules('U04')
def u04_documents(c):
    c.rule('U04.location', 'a DID document is fetched, over HTTPS, from the place that its DID names, and only answers that succeeded are returned')
    for name, pre in (('resolve_plc', 'did:plc:'), ('resolve_web', 'did:web:')):
        r = c.run(f'{DID_MOD}.{name}')
        c.some(f'{name} returns', r.returns, 'never returns')
        c.some(f'{name} rejects', [p for p in r.raises if not fetches(p, GET)], 'never rejects a DID')
        for p in r.paths:
            attempt(c, name, document, c, r, p, name, pre)


def document(c, r, p, name, pre):
    ob = lambda what, ok, msg, e=r: c.ob(f'{name}: {what}', ok, e, msg, p)
    did = param('did')
    sent = fetches(p, GET)
    for e in sent:
        ok = prefixed(r, p, did, pre)
        ob('method', ok is True, f'fetches for DIDs that don\'t start with {pre}', e)
        parts = url_of(e)
        if not is_const(parts[0]):
            raise Unk(f'where it fetches from: {show(e.a.get(0, NONE))[:80]}')
        ob('https', parts[0] == K('https://') or str(parts[0][2]).startswith('https://'), f'fetches from {show(parts[0])}', e)
        if name == 'resolve_plc':
            ob('location', len(parts) == 4 and env(parts[1], 'PLC_HOST') and parts[2] == K('/') and parts[3] == did, f'fetches from {show(e.a.get(0, NONE))[:80]}', e)
        else:
            attempt(c, name, web, ob, r, p, e, parts, did)
    if p.kind == 'raise':
        return
    if p.value[0] != 'call' or last(p.value[1]) not in ('json', 'loads'):
        ob('answer', False, f'returns {show(p.value)[:60]} instead of raising')
        return
    if last(p.value[1]) == 'loads':
        src = arg(p.value, 0)
        src = src[1] if src[0] == 'attr' and src[2] in ('text', 'content') else src
    else:
        src = args(p.value)['self']
    ob('answer', any(src == e.res for e in sent), f'returns {show(p.value)[:60]}')
    ob('failed', succeeded(r, p, src), 'returns the document of a failed request, which is then cached')
    ob('caught', not any(e.kind == 'catch' for e in p.events), 'returns instead of raising when fetching fails')


def succeeded(r, p, resp):
    if any(e.kind == 'call' and last(e.fn) == 'raise_for_status' and e.a.get('self') == resp for e in p.events):
        return True
    return all(r.truth(st, ('attr', resp, 'ok')) is True or any(
        r.cmp(st, op, ('attr', resp, 'status_code'), K(n)) is True for op, n in (('==', 200), ('<', 400), ('<', 300))) for st in r.cases(p))


def web(ob, r, p, e, parts, did):
    """https://[domain and path, decoded]/did.json"""
    shown = show(e.a.get(0, NONE))[:100]
    early = [y for x in parts for y in subterms(x) if y[0] == 'call' and last(y[1]) == 'replace' and args(y).get(0) == K(':')
             and any(called(z, 'unquote') for z in subterms(args(y)['self']))]
    if early:   # decoding before the colons are replaced turns ports into paths
        ob('decoded', False, f'decodes ports before it replaces colons: {shown}', e)
        return
    if any(called(x, 'unquote') for x in parts):
        inner_ = []
        for x in parts:
            inner_ += flat(arg(x, 0, 'string')) if called(x, 'unquote') else [x]
        decoded = [called(x, 'unquote') for x in parts]
    else:
        inner_, decoded = parts, []
        late = [x for x in parts for y in subterms(x) if called(y, 'unquote')]
        ob('decoded', bool(late), f'doesn\'t decode the host\'s port: {shown}', e)
        raise Unk(f'where it fetches from: {shown}')
    joined_ = []
    for x in inner_:
        if is_const(x) and joined_ and is_const(joined_[-1]):
            joined_[-1] = K(joined_[-1][2] + x[2])
        else:
            joined_.append(x)
    if len(joined_) != 3:
        raise Unk(f'where it fetches from: {shown}')
    a, mid, z = joined_
    ob('https', a == K('https://'), f'fetches from {shown}', e)
    split = ('in', K(':'), None)
    if mid[0] == 'call' and last(mid[1]) == 'replace' and args(mid).get(0) == K(':'):
        ob('path', args(mid).get(1) == K('/') and 2 not in args(mid), f'fetches from {shown}', e)
        core = args(mid)['self']
        colons = True
    elif mid[0] == 'call' and last(mid[1]) == 'join' and args(mid).get('self') == K('/') and called(args(mid)[0], '?.split') and args(args(mid)[0]).get(0) == K(':'):
        core, colons = args(args(mid)[0])['self'], True
    else:
        core, colons = mid, False
    host = bare(r, p, core, 'did:web:')
    if host is None:
        raise Unk(f'where it fetches from: {shown}')
    ob('host', host == did, f'fetches from {shown}', e)
    known = [v for k, v in p.st.facts.d.items() if k[0] == 'in' and k[1] == K(':') and k[2] == core]
    if not known:
        if not any(subst_hit(k, core) for k in p.st.facts.d):
            ob('well-known', z not in (K('/did.json'), K('/.well-known/did.json')), f'fetches from {shown}, whether the DID has a path or not', e)
        raise Unk('whether the DID has a path')
    if known[0]:
        ob('path', colons and z == K('/did.json'), f'fetches from {shown} for a DID with a path', e)
    else:
        ob('well-known', z == K('/.well-known/did.json'), f'fetches from {shown} for a DID without a path', e)


def subst_hit(k, core):
    """Does this fact say something about the identifier, other than its prefix?"""
    return any(x == core for x in subterms(k))


@rules('U04')
def u04_cache(c):
    c.rule('U04.cache', 'resolved DIDs and handles are only cached for a limited time, in caches that threads can share')
    for name in ('resolve_plc', 'resolve_web', 'resolve_handle', 'resolve'):
        f = c.prog.func(f'{DID_MOD}.{name}')
        for d in f.node.decorator_list:
            r = c.run(f.full)
            t = r.it.default(f.mod, d)
            fn = t[1] if t[0] in ('call', 'glob') else '?'
            if fn_is(fn, 'functools.lru_cache', 'functools.cache', 'lru_cache'):
                c.ob(f'{name}: expires', False, f, 'caches answers forever')
                continue
            if not fn_is(fn, 'cached'):
                c.unsure(f'{name}: what {fn} does')
                continue
            cache = const_of(c, r, arg(t, 0, 'cache', default=NONE))
            ok = called(cache, 'TTLCache')
            if not ok and not called(cache, 'LRUCache', 'LFUCache', 'FIFOCache', 'Cache', 'builtins.dict', 'dict') and cache[0] != 'const' and 'Dict' not in str(cache):
                c.unsure(f'{name}: how long {show(cache)[:60]} keeps answers')
                continue
            c.ob(f'{name}: expires', ok, f, f'caches answers forever, in {show(cache)[:60]}')
            if not ok:
                continue
            ttl = arg(cache, 1, 'ttl', default=NONE)
            c.ob(f'{name}: expires', not (is_const(ttl) and not (isinstance(ttl[2], (int, float)) and 0 < ttl[2] <= 7 * 86400)), f, f'caches answers for {show(ttl)}')
            c.ob(f'{name}: lock', arg(t, 3, 'lock', default=NONE) != NONE, f, 'shares its cache between threads without a lock')


# -------------------------------------------------------------- handles
def all_chars(pattern):
    """Every character that may be part of a match, None if there's no telling."""
    import re._parser as sre
    out = set()

    def walk(sub):
        for op, a in sub:
            op = str(op)
            if op == 'LITERAL':
                out.add(chr(a))
            elif op == 'IN':
                for o, x in a:
                    if str(o) == 'LITERAL':
                        out.add(chr(x))
                    elif str(o) == 'RANGE':
                        out.update(chr(y) for y in range(x[0], min(x[1], 0x3000) + 1))
                    else:
                        return False
            elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if not walk(a[2]):
                    return False
            elif op == 'SUBPATTERN':
                if not walk(a[-1]):
                    return False
            elif op == 'BRANCH':
                if not all(walk(x) for x in a[1]):
                    return False
            elif op in ('AT', 'ASSERT', 'ASSERT_NOT'):
                pass
            else:
                return False
        return True
    try:
        return out if walk(sre.parse(pattern)) else None
    except Exception:
        raise Unk('which handles its pattern matches')


@rules('U04')
def u04_handles(c):
    c.rule('U04.handle', 'a handle is validated before anything is fetched for it, and resolves only to a DID in a DNS TXT record of its own name or at its own well-known URL')
    r = c.run(f'{DID_MOD}.resolve_handle', pure=('re.fullmatch', 're.match'))
    handle = param('handle')
    c.some('resolve_handle rejects', [p for p in r.raises if not queries(p) and p.exc.cls], 'never rejects a handle')
    kinds = set()
    for p in r.paths:
        attempt(c, 'resolve_handle', resolved, c, r, p, handle, kinds)
    c.some('resolve_handle by DNS', [k for k in kinds if k == 'dns'], 'never resolves a handle with DNS')
    c.some('resolve_handle by HTTPS', [k for k in kinds if k == 'https'], 'never resolves a handle with HTTPS')
    caught = [e for p in r.paths for e in p.events if e.kind == 'catch' and any(
        last(x) in ('RequestException', 'OSError', 'IOError', 'Exception', 'BaseException') for x in e.fn.split(','))]
    for e in [e for p in r.paths for e in fetches(p, GET)]:
        if caught or not any(x[0] in ('try', 'with') for x in e.ctx):
            c.ob('resolve_handle: failed fetch', bool(caught), e, "raises when the handle's host can't be reached")


def queries(p):
    return [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'dns.resolver.resolve', 'dns.resolver.query', 'Resolver.resolve', '?.query')]


def valid(c, r, st, handle):
    """Is the handle known to be valid?"""
    out = False
    for k, v in st.facts.d.items():
        for x in subterms(k):
            if x[0] != 'call' or last(x[1]) not in ('fullmatch', 'match', 'search'):
                continue
            d = args(x)
            pat, s = (d.get('self'), d.get(0)) if 'self' in d else (d.get(0), d.get(1))
            if s != handle or (r.truth(st, x) is not True and r.isnone(st, x) is not False):
                continue
            text = pat[2] if is_const(pat) else pattern_of(c, pat)
            if not isinstance(text, str):
                raise Unk(f'which handles {show(pat)[:40]} matches')
            chars = all_chars(text)
            whole = last(x[1]) == 'fullmatch' or text.endswith('\\Z') and (last(x[1]) == 'match' or text.startswith(('^', '\\A')))
            if whole and chars is not None and all(ch.isascii() and (ch.isalnum() or ch in '-.') for ch in chars):
                out = True
    return out


def resolved(c, r, p, handle, kinds):
    ob = lambda what, ok, msg, e=r: c.ob(f'resolve_handle: {what}', ok, e, msg, p)
    dns, web_ = queries(p), fetches(p, GET)
    for e in dns + web_:
        ob('valid', all(valid(c, r, st, handle) for st in r.cases(p)), 'queries names that may not be valid handles', e)
    for e in dns:
        name = flat(e.a.get(0, e.a.get('qname', NONE)))
        if len(name) == 3 and name[2] == K('.'):
            name = name[:2]
        ob('name', name == [K('_atproto.'), handle], f'queries {show(e.a.get(0, NONE))[:60]}', e)
        kind = e.a.get(1, e.a.get('rdtype', NONE))
        ob('type', kind == K('TXT') or kind[0] == 'glob' and last(kind[1]) == 'TXT' or kind[0] == 'attr' and kind[2] == 'TXT', f'queries {show(kind)} records', e)
    for lp, _ in any_loops(p.events):
        if lp.iter is None or not any(x == e.res for e in dns for x in subterms(lp.iter)):
            continue
        for b in lp.bodies:
            if b.exit == 'back':
                for st in r.cases(b):
                    did = [x for k in st.facts.d for x in subterms(k) if x[0] == 'call' and last(x[1]) == 'startswith' and 'self' in args(x)
                           and args(x).get(0) in (K('"did=did:'), K('did=did:')) and r.truth(st, x) is True]
                    ob('found', not did, "ignores a DID in its own name's TXT record", next((e for e in b.events if e.node is not None), r))
    for e in web_:
        ob('URL', url_of(e) == [K('https://'), handle, K('/.well-known/atproto-did')], f'fetches {show(e.a.get(0, NONE))[:80]}', e)
    if p.kind == 'raise':
        ex = tuple(p.exc.excluded or ())
        ev = p.exc.ev
        if p.exc.cls is None and (dns or web_ or any(e.kind == 'raise' and e.fn == '?implicit' for e in p.events)):
            ob('failure', any(fn_is(x, 'DNSException', 'RequestException', 'Exception', 'BaseException') for x in ex), 'raises when a query fails')
        return
    for st in r.cases(p):
        v = p.value
        if v == NONE or r.isnone(st, v) is True or r.truth(st, v) is False:
            tried = web_ or any(e.kind == 'catch' and any(fn_is(x, 'RequestException', 'Exception') for x in e.fn.split(',')) for e in p.events)
            ob('tries', bool(tried), 'gives up without having tried HTTPS')
            continue
        attempt(c, 'resolve_handle', answer, ob, r, st, p, v, dns, web_, handle, kinds)


def answer(ob, r, st, p, v, dns, web_, handle, kinds):
    txt = next((e for e in dns if any(x == e.res for x in subterms(v))), None)
    if txt is not None:
        kinds.add('dns')
        loop = [x for x in subterms(v) if x[0] == 'elemof']
        if not loop:
            raise Unk('which DNS record it takes')
        canon = ('attr', txt.res, 'canonical_name')
        names = [k for k in st.facts.d if any(x == canon for x in subterms(k))]
        own = []
        for k in names:
            for x in subterms(k):
                if x == canon or x[0] == 'call' and args(x).get('self') == canon:
                    q = txt.a.get(0, txt.a.get('qname'))
                    own += [r.cmp(st, '==', x, q) is True or r.decide(st, ('eqc', x, q)) is True, r.cmp(st, '==', q, x) is True]
        ob('own name', any(own), 'accepts records of another name')
        core = v
        while core[0] == 'call' and last(core[1]) in ('strip', 'removeprefix', 'lstrip', 'rstrip', 'str', 'decode') or core[0] == 'item' and core[2][0] == 'slice':
            core = core[1] if core[0] == 'item' else arg(core, 'self', 0)
        cut = [args(x).get(0) for x in subterms(v) if x[0] == 'call' and last(x[1]) == 'removeprefix'] + \
              [x[2][1] for x in subterms(v) if x[0] == 'item' and x[2][0] == 'slice']
        if any(r.truth(st, x) is True for x in starts(st, core, '"did=did:')):
            ob('DID', cut in ([K('did=')], [K(4)], [K('"did=')], [K(5)]), f'returns {show(v)[:60]}')
            return
        if any(r.truth(st, x) is True for x in starts(st, v, 'did:')):
            return
        sub = [x for x in subterms(v) if x != v and any(r.truth(st, y) is True for y in starts(st, x, 'did=did:'))]
        if sub:
            ob('DID', cut and cut[0] in (K('did='), K(4)), f'returns {show(v)[:60]}')
            return
        ob('DID', False, f'returns {show(v)[:60]}, which may not be a DID')
        return
    resp = next((e for e in web_ if any(x == e.res for x in subterms(v))), None)
    if resp is not None:
        kinds.add('https')
        ob('DID', any(r.truth(st, x) is True for x in starts(st, v, 'did:')), f'returns {show(v)[:60]}, which may not be a DID')
        ob('failed', succeeded(r, p, resp.res), 'accepts the answer of a failed request')
        ob('body', any(x == ('attr', resp.res, 'text') or x == ('attr', resp.res, 'content') for x in subterms(v)), f'returns {show(v)[:60]}')
        return
    if v == handle or is_const(v):
        ob('DID', False, f'returns {show(v)[:60]}')
    raise Unk(f'where {show(v)[:60]} comes from')


# ---------------------------------------------------------- keys and documents
CURVES = {'SECP256K1': ('secp256k1-pub', 'secp256k1'), 'SECP256R1': ('p256-pub', 'secp256r1')}


def curve_is(r, st, curve, cls):
    """Is the curve known to be of this class?"""
    for k, v in st.facts.d.items():
        if k[0] == 'isinst' and k[1] == curve and last(k[2] if isinstance(k[2], str) else show(k[2])) == cls and v is True:
            return True
        if k[0] == 'eqc' and v is True and ('attr', curve, 'name') in k and K(CURVES[cls][1]) in k:
            return True
    return r.decide(st, ('eqc', ('attr', curve, 'name'), CURVES[cls][1])) is True


def is_glob(t, name):
    return t[0] in ('glob', 'attr', 'const') and show(t).split('.')[-1].strip("'") == name


@rules('U03', explanation=(
    'Abstract interpretation of the DID operations and documents, with HTTP, signing and the multiformats and cryptography libraries opaque. Every field of each operation and '
    'document, what it\'s signed with, where it\'s sent and in which order is compared with the did:plc, did:key and DID document specifications, on every partition. '
    'Nothing is executed.'),
    assumptions=('the multiformats, dag-cbor and cryptography libraries implement their specifications', 'the PLC directory\'s audit log is in order'))
def u03_keys(c):
    c.rule('U03.key', 'public keys are encoded as did:keys with the multicodec of their curve, and decoded with the same')
    r = c.run(f'{DID_MOD}.encode_did_key')
    seen = set()
    for p in r.returns:
        attempt(c, 'encode_did_key', encoded, c, r, p, seen)
    for x in CURVES.values():
        c.ob('encode_did_key: supports', x[0] in seen or any('encode_did_key' in m for m in c.undecided), r, f'never encodes {x[1]} keys')
    r = c.run(f'{DID_MOD}.decode_did_key')
    seen = set()
    for p in r.returns:
        attempt(c, 'decode_did_key', decoded, c, r, p, seen)
    for x in CURVES.values():
        c.ob('decode_did_key: supports', x[0] in seen or any('decode_did_key' in m for m in c.undecided), r, f'never decodes {x[1]} keys')


def encoded(c, r, p, seen):
    ob = lambda what, ok, msg: c.ob(f'encode_did_key: {what}', ok, r, msg, p)
    parts = flat(p.value)
    shown = show(p.value)[:80]
    pubkey = param('pubkey')
    x = parts[-1]
    if len(parts) == 1 and called(x, 'multibase.encode', 'encode'):
        ob('prefix', False, f'returns {shown}, without did:key:')
        return
    if len(parts) != 2 or not called(x, 'encode'):
        raise Unk(f'how it encodes keys: {shown}')
    ob('prefix', parts[0] == K('did:key:'), f'returns {shown}')
    ob('base', arg(x, 1, 'base') == K('base58btc'), f'encodes keys in {show(arg(x, 1, "base"))}')
    w = arg(x, 0, 'data')
    if not called(w, 'wrap'):
        raise Unk(f'how it encodes keys: {show(w)[:80]}')
    codec, data = arg(w, 0, 'codec'), arg(w, 1, 'raw_data')
    if not called(data, 'public_bytes'):
        raise Unk(f'how it encodes keys: {show(data)[:80]}')
    ob('key', args(data)['self'] == pubkey, f'encodes {show(args(data)["self"])[:40]}')
    ob('compressed', is_glob(arg(data, 0, 'encoding'), 'X962') and is_glob(arg(data, 1, 'format'), 'CompressedPoint'), f'encodes keys as {show(data)[-60:]}')
    if not is_const(codec):
        raise Unk(f'which codec it uses: {show(codec)[:60]}')
    cls = next((k for k, v in CURVES.items() if v[0] == codec[2]), None)
    ob('codec', cls is not None, f'encodes keys as {codec[2]}')
    if cls:
        curve = ('attr', pubkey, 'curve')
        ob('curve', all(curve_is(r, st, curve, cls) for st in r.cases(p)), f'encodes keys on other curves as {codec[2]}')
        seen.add(codec[2])


def decoded(c, r, p, seen):
    ob = lambda what, ok, msg: c.ob(f'decode_did_key: {what}', ok, r, msg, p)
    v = p.value
    key = param('did_key')
    if not called(v, 'from_encoded_point'):
        raise Unk(f'how it decodes keys: {show(v)[:80]}')
    curve, data = arg(v, 0, 'curve'), arg(v, 1, 'data')
    if not (data[0] == 'item' and called(data[1], 'unwrap')):
        raise Unk(f'how it decodes keys: {show(data)[:80]}')
    ob('data', data[2] in (K(1), K(-1)), f'decodes {show(data)[-40:]}')
    src = arg(data[1], 0)
    if not called(src, 'decode'):
        raise Unk(f'how it decodes keys: {show(src)[:80]}')
    text = bare(r, p, arg(src, 0, 's'), 'did:key:')
    ob('key', text == key, f'decodes {show(arg(src, 0))[:60]}')
    cls = last(curve[1]) if curve[0] in ('call', 'glob') else None
    if cls not in CURVES:
        raise Unk(f'which curve it uses: {show(curve)[:60]}')
    codec = ('item', data[1], K(0))
    want = CURVES[cls][0]
    ok = all(any(r.decide(st, ('eqc', x, want)) is True or r.cmp(st, '==', x, K(want)) is True for x in (('attr', codec, 'name'), codec)) for st in r.cases(p))
    ob('curve', ok, f'decodes other keys as {CURVES[cls][1]} keys')
    seen.add(want)


@rules('U03')
def u03_read(c):
    c.rule('U03.read', 'the handle and signing key of a DID document are the first at:// alias\'s and the #atproto verification method\'s')
    doc = param('did_doc')
    r = c.run(f'{DID_MOD}.get_handle')
    c.some('get_handle returns', [p for p in r.returns if p.value != NONE], 'never returns a handle')
    for p in r.returns:
        attempt(c, 'get_handle', handle_of, c, r, p, doc)
    r = c.run(f'{DID_MOD}.get_signing_key')
    c.some('get_signing_key returns', [p for p in r.returns if p.value != NONE], 'never returns a key')
    for p in r.returns:
        attempt(c, 'get_signing_key', key_of, c, r, p, doc)


def field_of(t, base, name):
    return t[0] in ('get', 'item') and t[1] == base and t[2] == K(name) or t[0] == 'call' and last(t[1]) == 'get' and args(t).get('self') == base and args(t).get(0) == K(name)


def over(t, base, name):
    """Does it iterate over this field, in order?"""
    if t[0] == 'or' and t[1:]:
        t = t[1]
    return field_of(t, base, name)


def chosen(r, p):
    """Elements that a value's terms come from."""
    return [x for x in subterms(p.value) if x[0] == 'elemof']


def gives_up(c, ob, r, p, doc, name, passes):
    """A path that found nothing mustn't have left the loop early or ignored a match."""
    for e in p.events:
        if e.kind not in ('loop', 'loopiter'):
            continue
        lp = e.x
        if r.S(p, lp.iter) in (('list', ()), ('tuple',)):
            continue
        if not over(lp.iter, doc, name):
            ob('order', not any(field_of(x, doc, name) for x in subterms(lp.iter)), f'iterates over {show(lp.iter)[:60]}')
            raise Unk(f'what it iterates over: {show(lp.iter)[:60]}')
        for b in lp.bodies:
            if b.exit in ('break', 'back'):
                el = ('elemof', lp.iter, e.x.lid if hasattr(e.x, 'lid') else None)
                ob('every', b.exit == 'back', f'stops looking after the first of {name}')
                ob('missed', passes(b, lp), f'ignores a match in {name}')


def body_elem(b, lp):
    for k in b.facts.d:
        for x in subterms(k):
            if x[0] == 'elemof' and x[1] == lp.iter:
                return x
    for e in b.events:
        for v in e.a.values():
            if isinstance(v, tuple):
                for x in subterms(v):
                    if x[0] == 'elemof' and x[1] == lp.iter:
                        return x
    return None


def handle_of(c, r, p, doc):
    ob = lambda what, ok, msg: c.ob(f'get_handle: {what}', ok, r, msg, p)

    def passes(b, lp):
        el = body_elem(b, lp)
        if el is None:
            return False
        if any(r.truth(b, x) is False for x in starts(b, el, 'at://')):
            return True
        return any(k[0] == 'truth' and v is False and k[1][0] == 'item' and called(k[1][1], 'parse_at_uri') for k, v in b.facts.d.items())
    gives_up(c, ob, r, p, doc, 'alsoKnownAs', passes)
    if p.value == NONE:
        left = any(e.kind == 'loopiter' for e in p.events)
        ob('missed', not left, 'stops looking without having found a handle')
        return
    els = chosen(r, p)
    if not els:
        if any(field_of(x, doc, 'alsoKnownAs') for x in subterms(p.value)):
            ob('at://', False, f'returns {show(p.value)[:60]}, whatever URIs the document has')
            return
        raise Unk(f'where it finds {show(p.value)[:60]}')
    el = els[0]
    if r.S(p, el[1]) in (('list', ()), ('tuple',)):
        return
    ob('alias', over(el[1], doc, 'alsoKnownAs'), f'takes it from {show(el[1])[:60]}')
    v = p.value
    if v[0] == 'item' and called(v[1], 'parse_at_uri'):
        ob('handle', v[2] == K(0) and arg(v[1], 0, 'uri') == el, f'returns {show(v)[:60]}')
    else:
        ob('handle', bare(r, p, v, 'at://') is not None or v != el, f'returns {show(v)[:60]}')
        if bare(r, p, v, 'at://') is None:
            raise Unk(f'what part of the URI it returns: {show(v)[:60]}')
    ob('at://', prefixed(r, p, el, 'at://') is True, 'takes URIs that don\'t start with at://')


def key_of(c, r, p, doc):
    ob = lambda what, ok, msg: c.ob(f'get_signing_key: {what}', ok, r, msg, p)
    did = ('id',)

    def right(st, el):
        """Is this the #atproto method? True, False or None."""
        for k, v in st.facts.d.items():
            if k[0] not in ('lin', 'eqc', 'in'):
                continue
            ids = [x for x in subterms(k) if field_of(x, el, 'id')]
            parts = [flat(x) for x in subterms(k) if x[0] in ('fmt', 'bin')]
            hit = any(len(x) == 2 and field_of(x[0], doc, 'id') and x[1] == K('#atproto') for x in parts)
            if ids and hit:
                other = next(x for x in subterms(k) if x[0] in ('fmt', 'bin') and len(flat(x)) == 2 and flat(x)[1] == K('#atproto'))
                return r.cmp(st, '==', ids[0], other)
        return None

    def passes(b, lp):
        el = body_elem(b, lp)
        if el is None:
            return False
        if right(b, el) is False:
            return True
        return any(k[0] in ('truth', 'isnone', 'in') and any(x == K('publicKeyMultibase') for x in subterms(k)) for k in b.facts.d) or right(b, el) is None and \
            any(k[0] in ('truth', 'isnone', 'isinst') for k in b.facts.d)
    gives_up(c, ob, r, p, doc, 'verificationMethod', passes)
    if p.value == NONE:
        return
    els = chosen(r, p)
    if not els:
        if any(field_of(x, doc, 'verificationMethod') for x in subterms(p.value)):
            ob('id', False, f'returns {show(p.value)[:60]}, whatever its id')
            return
        raise Unk(f'where it finds {show(p.value)[:60]}')
    el = els[0]
    if r.S(p, el[1]) in (('list', ()), ('tuple',)):
        return
    ob('method', over(el[1], doc, 'verificationMethod'), f'takes it from {show(el[1])[:60]}')
    v = p.value
    if not called(v, 'decode_did_key'):
        raise Unk(f'how it decodes the key: {show(v)[:60]}')
    src = arg(v, 0, 'did_key')
    ob('key', field_of(src, el, 'publicKeyMultibase'), f'decodes {show(src)[:60]}')
    ob('id', all(right(st, el) is True for st in r.cases(p)), 'takes the key of another method than #atproto')


@rules('U03')
def u03_doc(c):
    c.rule('U03.doc', 'the DID document of an operation has its DID, aliases, signing key and server')
    r = c.run(f'{DID_MOD}.plc_operation_to_did_doc')
    c.some('plc_operation_to_did_doc returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, 'plc_operation_to_did_doc', document_of, c, r, p)


def op_path(t, root):
    """The keys that lead from an operation to a value."""
    out = []
    while t != root:
        if t[0] in ('item', 'get') and is_const(t[2]):
            out.insert(0, t[2][2])
            t = t[1]
        else:
            return None
    return tuple(out)


def only(t):
    """The only element of a list."""
    if t in (None, ...) or t[0] not in ('list', 'tuple'):
        raise Unk('what the document has')
    segs = t[1] if t[0] == 'list' else tuple(('one', x) for x in t[1:])
    if any(s[0] != 'one' for s in segs):
        raise Unk('what the document has')
    return [s[1] for s in segs]


def document_of(c, r, p):
    ob = lambda what, ok, msg: c.ob(f'plc_operation_to_did_doc: {what}', ok, r, msg, p)
    op = param('op')
    d = r.S(p, p.value)

    def get(s, k):
        v = dget(s, k)
        if v is ...:
            raise Unk(f'the document\'s {k}')
        return NONE if v is None else v
    did = lambda t: op_path(t, op) == ('did',)
    ob('id', did(get(d, 'id')), f'its id is {show(get(d, "id"))[:60]}')
    aka = get(d, 'alsoKnownAs')
    if called(aka, 'list'):
        aka = arg(aka, 0)
    if aka[0] == 'list' and len(aka[1]) == 1 and aka[1][0][0] == 'spread':
        aka = aka[1][0][1]
    ob('aliases', op_path(aka, op) == ('alsoKnownAs',), f'its aliases are {show(aka)[:60]}')
    ms = only(get(d, 'verificationMethod'))
    ob('methods', len(ms) == 1, f'it has {len(ms)} verification methods')
    for m in ms[:1]:
        mid = flat(get(m, 'id'))
        ob('method id', len(mid) == 2 and did(mid[0]) and mid[1] == K('#atproto'), f'its method\'s id is {show(get(m, "id"))[:60]}')
        ob('method type', get(m, 'type') == K('Multikey'), f'its method\'s type is {show(get(m, "type"))[:60]}')
        ob('controller', did(get(m, 'controller')), f'its controller is {show(get(m, "controller"))[:60]}')
        k = get(m, 'publicKeyMultibase')
        src = bare(r, p, k, 'did:key:')
        ob('key', src is not None and op_path(src, op) == ('verificationMethods', 'atproto'), f'its key is {show(k)[:80]}')
    ss = only(get(d, 'service'))
    ob('services', len(ss) == 1, f'it has {len(ss)} services')
    for s in ss[:1]:
        sid = flat(get(s, 'id'))
        ob('service id', sid[-1] == K('#atproto_pds') and (len(sid) == 1 or len(sid) == 2 and did(sid[0])), f'its service\'s id is {show(get(s, "id"))[:60]}')
        ob('service type', get(s, 'type') == K('AtprotoPersonalDataServer'), f'its service\'s type is {show(get(s, "type"))[:60]}')
        ob('endpoint', op_path(get(s, 'serviceEndpoint'), op) == ('services', 'atproto_pds', 'endpoint'), f'its endpoint is {show(get(s, "serviceEndpoint"))[:60]}')


# ------------------------------------------------------------- operations
@rules('U03')
def u03_write(c):
    c.rule('U03.write', 'a PLC operation has the given handle, aliases, keys, server and previous operation')
    r = c.run(f'{DID_MOD}.write_plc')
    c.some('write_plc returns', r.returns, 'never returns')
    c.some('write_plc rejects', [p for p in r.raises if not any(e.kind == 'call' and fn_is(e.fn, 'write_plc_operation') for e in p.events)], 'never rejects anything')
    for p in r.returns:
        attempt(c, 'write_plc', written, c, r, p)


def chosen_key(ob, r, p, t, name, what):
    """Is it the parameter, when it's given, else a new key?"""
    given = param(name)
    for st in r.cases(p):
        has = r.truth(st, given)
        if has is None:
            has = {True: False, False: True, None: None}[r.isnone(st, given)]
        if t == given:
            ob(what, has is True, f'may not have a {name}')
        elif called(t, 'new_key'):
            ob(what, has is False, f'uses another key than the {name} that it\'s given')
            ob(f'{what} is random', all(x == NONE for x in args(t).values()), f'generates the {name} from {show(t)[:40]}')
        else:
            ob(what, False, f'uses {show(t)[:60]}')


def public_of(t):
    return args(t)['self'] if called(t, 'public_key') else t


def encodes(t):
    if not called(t, 'encode_did_key'):
        raise Unk(f'how it encodes {show(t)[:60]}')
    return public_of(arg(t, 0, 'pubkey'))


def written(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'write_plc: {what}', ok, e, msg, p)
    sent = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'write_plc_operation')]
    ob('once', len(sent) == 1, f'sends {len(sent)} operations')
    if not sent:
        return
    e = sent[0]
    handle = param('handle')
    ob('handle is given', all(r.truth(st, handle) is True for st in r.cases(e)), 'writes operations without a handle', e)
    ob('did', e.a.get('did', NONE) == param('did'), f'writes it to {show(e.a.get("did", NONE))[:40]}', e)
    ob('post', e.a.get('post_fn') == POST, 'doesn\'t use the given function', e)
    op = r.S(e, e.a['op'])
    if op[0] != 'dict':
        raise Unk('what the operation has')

    def get(s, k):
        v = dget(s, k)
        if v is ...:
            raise Unk(f'the operation\'s {k}')
        return NONE if v is None else v
    ob('type', get(op, 'type') == K('plc_operation'), f'its type is {show(get(op, "type"))[:40]}', e)
    ob('prev', get(op, 'prev') == param('prev') and dget(op, 'prev') is not None, f'its prev is {show(get(op, "prev"))[:60]}', e)
    keys = {kv[1][2] for kv in op[1] if kv[0] == 'kv' and is_const(kv[1])}
    ob('fields', keys == {'type', 'prev', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services'} or len(keys) != len(op[1]), f'its fields are {sorted(keys)}', e)
    # keys
    for name in ('signing_key', 'rotation_key', 'new_rotation_key'):
        for st in r.cases(e):
            if r.truth(st, param(name)) is True or r.isnone(st, param(name)) is False:
                ok = curve_is(r, st, ('attr', param(name), 'curve'), 'SECP256K1')
                if not ok and any(x.kind in ('loop', 'loopiter') and any(y == param(name) for y in subterms(r.S(x, x.x.iter))) for x in p.events):
                    raise Unk(f'which curves it accepts for the {name}')
                ob(f'{name} curve', ok, f'accepts a {name} on any curve', e)
    rot = e.a['rotation_key']
    chosen_key(ob, r, p, rot, 'rotation_key', 'rotation key')
    vm = get(op, 'verificationMethods')
    sig = encodes(get(vm, 'atproto'))
    ob('verification methods', vm[0] == 'dict' and len(vm[1]) == 1, f'it has {show(vm)[:60]}', e)
    chosen_key(ob, r, p, sig, 'signing_key', 'signing key')
    ob('keys differ', sig != rot, 'generates one key for both', e)
    rk = [encodes(x) for x in only(get(op, 'rotationKeys'))]
    new = param('new_rotation_key')
    for st in r.cases(e):
        has = r.truth(st, new)
        want = {True: [new], False: [rot]}.get(has)
        if want is None:
            want = {True: [rot], False: [new]}.get(r.isnone(st, new))
        if want is None and rk in ([('or', new, rot)], [('or', (new, rot))]):
            continue
        ob('rotation keys', rk == want, f'its rotation keys are {", ".join(show(x)[:40] for x in rk)}', e)
    # aliases
    aka = get(op, 'alsoKnownAs')
    alias(c, ob, r, e, aka, handle)
    # server
    sv = get(op, 'services')
    pds = get(sv, 'atproto_pds')
    ob('server type', get(pds, 'type') == K('AtprotoPersonalDataServer'), f'its server\'s type is {show(get(pds, "type"))[:40]}', e)
    url = flat(get(pds, 'endpoint'))
    given = param('pds_url')
    for st in r.cases(e):
        has = r.truth(st, given)
        ob('server', has is True and url == [given] or has is False and len(url) == 2 and url[0] == K('https://') and env(url[1], 'PDS_HOST'),
           f'its server is {show(get(pds, "endpoint"))[:60]}', e)
    # result
    v = p.value
    if called(v, '_replace') and args(v)['self'] == e.res:
        d = args(v)
        ob('returned keys', d.get('signing_key') == sig and d.get('rotation_key') == rot, 'doesn\'t return the keys', p and r)
        ob('returned document', not (set(d) - {'self', 'signing_key', 'rotation_key'}), f'changes {sorted(map(str, set(d) - {"self", "signing_key", "rotation_key"}))}')
    elif v[0] == 'nt':
        d = dict(v[2])
        ob('returned keys', d.get('signing_key') == sig and d.get('rotation_key') == rot, 'doesn\'t return the keys')
        ob('returned document', d.get('did') == ('attr', e.res, 'did') and d.get('doc') == ('attr', e.res, 'doc'), 'doesn\'t return the new document')
    elif v == e.res:
        ob('returned keys', False, 'doesn\'t return the keys')
    else:
        raise Unk(f'what it returns: {show(v)[:60]}')


def alias(c, ob, r, e, aka, handle):
    if called(aka, 'builtins.sorted', 'builtins.reversed') or aka[0] == 'set':
        ob('handle', False, "the handle isn't always its first alias", e)
        return
    if aka[0] != 'list':
        raise Unk(f'its aliases: {show(aka)[:60]}')
    segs = list(aka[1])
    own = segs[0] if segs else None
    ob('handle', own is not None and own[0] == 'one' and flat(own[1]) == [K('at://'), handle], f'its aliases are {show(aka)[:60]}', e)
    also = param('also_known_as')
    rest = segs[1:]
    for st in r.cases(e):
        has = r.truth(st, also)
        text = r.decide(st, ('isinst', also, 'builtins.str'))
        if has is False:
            ok = not rest or rest in ([('spread', also)], [('spread', ('or', also, ('list', ())))])
        elif text is True:
            ok = rest == [('one', also)]
        elif text is False:
            ok = len(rest) == 1 and rest[0][0] == 'spread' and (rest[0][1] == also or called(rest[0][1], 'list', 'tuple') and arg(rest[0][1], 0) == also)
        else:
            raise Unk('which other aliases it has')
        if not ok and any(x[0] not in ('one', 'spread') or x[1][0] not in ('param', 'const', 'fmt', 'call') for x in rest):
            raise Unk(f'its aliases: {show(aka)[:60]}')
        ob('aliases', ok, f'its other aliases are {show(("list", tuple(rest)))[:60]}', e)


@rules('U03')
def u03_send(c):
    c.rule('U03.send', 'an operation is signed, then sent to the DID that it\'s for, which is derived from it if it\'s new, and failures raise')
    r = c.run(f'{DID_MOD}.write_plc_operation')
    c.some('write_plc_operation returns', r.returns, 'never returns')
    for p in r.paths:
        attempt(c, 'write_plc_operation', sent_op, c, r, p)


def sent_op(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'write_plc_operation: {what}', ok, e, msg, p)
    posts = fetches(p, POST)
    did = param('did')
    signs = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'util.sign', 'sign')]
    if p.kind == 'return':
        ob('once', len(posts) == 1, f'sends {len(posts)} requests')
    if not posts:
        return
    e = posts[0]
    at = {id(x): i for i, x in enumerate(p.events)}
    ob('signed', len(signs) == 1 and at[id(signs[0])] < at[id(e)], f'signs it {len(signs)} times', e)
    if len(signs) != 1:
        return
    s = signs[0]
    ob('signed operation', s.a.get('obj', s.a.get(0)) == param('op'), f'signs {show(s.a.get("obj", NONE))[:40]}', s)
    ob('rotation key', s.a.get('private_key', s.a.get(1)) == param('rotation_key'), 'signs with another key', s)
    op = s.res
    body = e.a.get('json', NONE)
    if body != op and not (body == param('op')):
        b = r.S(e, body)
        if b[0] == 'dict' and ('spread', op) in b[1] and all(x[0] in ('spread', 'kv') for x in b[1]) and any(x[0] == 'kv' for x in b[1]):
            ob('what it sends', False, 'sends more than the signed operation', e)
            return
        raise Unk(f'what it sends: {show(body)[:60]}')
    sets = [x for x in p.events if x.kind == 'setitem' and x.a['self'] in (op, param('op'))]
    before = [x for x in sets if at[id(x)] < at[id(e)]]
    ob('not changed', {x.a['key'] for x in before} <= {K('sig')}, f'changes {", ".join(show(x.a["key"]) for x in before)} after signing', e)
    sigs = [x for x in before if x.a['key'] == K('sig')]
    ob('sig', len(sigs) == 1, 'doesn\'t encode the signature', e)
    for x in sigs[:1]:
        ob('base64', text_sig(x.a['value'], op), f'sends {show(x.a["value"])[:80]}', x)
    # where
    url = url_of(e)
    ob('https', url[0] == K('https://'), f'sends it to {show(e.a.get(0, NONE))[:60]}', e)
    if len(url) < 4:
        raise Unk(f'where it sends it: {show(e.a.get(0, NONE))[:60]}')
    ob('directory', env(url[1], 'PLC_HOST') and url[2][2].startswith('/'), f'sends it to {show(e.a.get(0, NONE))[:60]}', e)
    target = ([K(url[2][2][1:])] if url[2][2][1:] else []) + url[3:]
    for st in r.cases(e):
        given = r.truth(st, did)
        if target == [did]:
            ob('did', given is True, 'sends operations without a DID', e)
            continue
        if len(target) != 2:
            raise Unk(f'which DID it sends it to: {show(e.a.get(0, NONE))[:80]}')
        ob('did', given is False, 'doesn\'t send it to the given DID', e)
        ob('did:plc', target[0] == K('did:plc:'), f'its DID starts with {show(target[0])}', e)
        attempt(c, 'write_plc_operation', derived, ob, p, e, target[1], op, at, sigs)
    if p.kind != 'return':
        return
    # result
    ob('failed', succeeded(r, p, e.res), 'returns when the directory rejected it')
    v = p.value
    if v[0] != 'nt':
        raise Unk(f'what it returns: {show(v)[:60]}')
    d = dict(v[2])
    ob('returned did', (flat(d['did'])) == target, f'returns {show(d["did"])[:60]}')
    doc = d['doc']
    if not called(doc, 'plc_operation_to_did_doc'):
        raise Unk(f'what it returns: {show(doc)[:60]}')
    ob('returned document', arg(doc, 0, 'op') in (op, param('op')), f'returns the document of {show(arg(doc, 0, "op"))[:40]}')
    made = next(x for x in p.events if x.res == doc)
    ids = [x for x in sets if x.a['key'] == K('did') and at[id(x)] < at[id(made)]]
    ob('document\'s did', bool(ids) and flat(ids[-1].a['value']) == target, 'the document doesn\'t have the DID')


def text_sig(t, op):
    """URL-safe base 64, without padding."""
    names = []
    while t[0] == 'call':
        names.append((last(t[1]), args(t).get(0)))
        t = args(t)['self'] if 'self' in args(t) else arg(t, 0)
    raw = t == ('item', op, K('sig'))
    kinds = [n for n, _ in names]
    if not raw or not set(kinds) <= {'rstrip', 'strip', 'decode', 'urlsafe_b64encode', 'b64encode', 'str', 'replace', 'removesuffix'}:
        raise Unk(f'how it encodes the signature: {show(t)[:40]}, {kinds}')
    pad = [a for n, a in names if n in ('rstrip', 'strip', 'replace')]
    return 'urlsafe_b64encode' in kinds and any(a in (K('='), K(b'=')) for a in pad)


def derived(ob, p, e, t, op, at, sigs):
    """The first 24 characters of the base 32 SHA-256 hash of the signed operation."""
    cut = low = False
    hashed = None
    shown = show(t)[:100]
    n = 0
    while n < 12:
        n += 1
        if t[0] == 'item' and t[2][0] == 'slice':
            if any(called(x, 'b32encode') for x in subterms(t[1])):
                ob('24 characters', t[2] == ('slice', NONE, K(24), NONE) or t[2] == ('slice', K(0), K(24), NONE), f'its DID is {shown}', e)
                cut = True
            else:
                ob('24 characters', False, f'its DID is {shown}', e)
            t = t[1]
        elif called(t, 'lower'):
            low = True
            t = args(t)['self']
        elif called(t, 'decode', 'str'):
            t = args(t)['self'] if 'self' in args(t) else arg(t, 0)
        elif called(t, 'b32encode'):
            t = arg(t, 0)
        elif called(t, 'finalize', 'digest'):
            hashed = args(t)['self']
            break
        else:
            raise Unk(f'how it derives the DID: {shown}')
    ob('24 characters', cut, f'its DID is {shown}', e)
    ob('lower case', low, f'its DID is {shown}', e)
    if hashed is None:
        raise Unk(f'how it derives the DID: {shown}')
    if called(hashed, 'sha256'):
        data = arg(hashed, 0)
        up = next((x for x in p.events if x.res == data), None)
    else:
        ob('hash', called(hashed, 'Hash') and called(arg(hashed, 0), 'SHA256'), f'hashes with {show(hashed)[:60]}', e)
        ups = [x for x in p.events if x.kind == 'call' and last(x.fn) == 'update' and x.a.get('self') == hashed]
        ob('hash', len(ups) == 1, f'hashes {len(ups)} values', e)
        data = ups[0].a.get(0) if ups else NONE
        up = next((x for x in p.events if x.res == data), ups[0] if ups else None)
    if not called(data, 'encode'):
        raise Unk(f'what it hashes: {show(data)[:60]}')
    ob('hash', arg(data, 0) in (op, param('op')), f'hashes {show(data)[:60]}', e)
    # the hash covers the encoded signature
    if sigs and up is not None:
        ob('signed hash', at[id(sigs[0])] < at[id(up)], 'hashes the operation before it has its signature', e)


@rules('U03')
def u03_update(c):
    c.rule('U03.update', 'an update chains to the directory\'s latest operation and keeps its handle and other aliases unless others are given')
    r = c.run(f'{DID_MOD}.update_plc')
    c.some('update_plc returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, 'update_plc', updated, c, r, p)
    r = c.run(f'{DID_MOD}.create_plc')
    c.some('create_plc returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, 'create_plc', created, c, r, p)


KWARGS = param('**kwargs')


def created(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'create_plc: {what}', ok, e, msg, p)
    sent = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'write_plc')]
    ob('once', len(sent) == 1, f'sends {len(sent)} operations')
    for e in sent[:1]:
        ob('returned', p.value == e.res, f'returns {show(p.value)[:40]}')
        ob('handle', e.a.get('handle') == param('handle'), 'doesn\'t use the given handle', e)
        for k in ('did', 'prev'):
            v = e.a.get(k, NONE)
            ob(k, v == NONE or v[0] == 'kwget' and all(r.decide(st, ('in', K(k), KWARGS)) is False for st in r.cases(e)), f'creates a DID with a {k}', e)
        passed(ob, r, e, ('signing_key', 'rotation_key', 'new_rotation_key', 'pds_url', 'also_known_as', 'get_fn', 'post_fn'))


def passed(ob, r, e, names):
    for k in names:
        v = e.a.get(k, NONE)
        ob(k, v == param(k) or v[0] == 'kwget' and v[1] == KWARGS and v[2] == K(k) or v[0] in ('item', 'get') and v[1] == KWARGS and v[2] == K(k), f'doesn\'t pass on {k}', e)


def kwarg(p, e, name):
    """A call's argument, after what was put into the **kwargs that it's called with."""
    v = e.a.get(name, NONE)
    if v[0] != 'kwget' or v[1] != KWARGS:
        return v
    for x in p.events:
        if x is e:
            break
        if x.a.get('self') != KWARGS:
            continue
        if x.kind == 'setitem' and x.a['key'] == K(name):
            v = x.a['value']
        elif x.kind == 'call' and last(x.fn) == 'update' and name in x.a:
            v = x.a[name]
        elif x.kind == 'call' and last(x.fn) == 'update' and 0 in x.a:
            raise Unk('what it adds to its arguments')
    return v


def log_of(r, p, did, ob):
    """The audit log that was fetched."""
    gets = fetches(p, GET)
    ob('log', len(gets) == 1, f'fetches {len(gets)} times')
    if not gets:
        raise Unk('where it finds the audit log')
    e = gets[0]
    url = url_of(e)
    if len(url) == 5 and url[0] == K('https://') and env(url[1], 'PLC_HOST'):
        ob('log', url[2] == K('/') and url[3] == did and url[4] == K('/log/audit'), f'fetches {show(e.a.get(0, NONE))[:80]}', e)
    else:
        ob('log', False, f'fetches {show(e.a.get(0, NONE))[:80]}', e)
    return e


def is_log(t, e):
    if t[0] == 'call' and last(t[1]) == 'json':
        return args(t)['self'] == e.res
    if t[0] == 'call' and last(t[1]) == 'loads':
        x = arg(t, 0)
        return x[0] == 'attr' and x[1] == e.res and x[2] in ('text', 'content')
    return False


def entry(t, e, *path):
    """Which entry of the log this is a field of: its index, or None."""
    for k in reversed(path):
        if t[0] in ('item', 'get') and t[2] == K(k):
            t = t[1]
        else:
            return None
    if t[0] == 'item' and t[1][0] == 'item' and t[1][2] == ('slice', NONE, NONE, K(-1)) and is_log(t[1][1], e):
        return mk_bin('-', K(-1), t[2])
    return t[2] if t[0] == 'item' and is_log(t[1], e) else None


def updated(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'update_plc: {what}', ok, e, msg, p)
    did, handle = param('did'), param('handle')
    g = log_of(r, p, did, ob)
    sent = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'write_plc')]
    ob('once', len(sent) == 1, f'sends {len(sent)} operations')
    if not sent:
        return
    e = sent[0]
    ob('returned', p.value == e.res, f'returns {show(p.value)[:40]}')
    ours = lambda k: kwarg(p, e, k)
    ob('did', ours('did') == did, f'writes to {show(ours("did"))[:40]}', e)
    prev = ours('prev')
    at_ = entry(prev, g, 'cid')
    if at_ is None and (any(is_log(x, g) for x in subterms(prev)) and prev[0] == 'call'):
        raise Unk(f'its previous operation: {show(prev)[:60]}')
    ob('prev', at_ == K(-1), f'its previous operation is {show(prev)[:80]}', e)
    passed(ob, r, e, ('signing_key', 'rotation_key', 'new_rotation_key', 'pds_url', 'post_fn'))
    ob('get_fn', ours('get_fn') == GET, 'doesn\'t pass on get_fn', e)
    # handle and aliases
    order = {id(x): i for i, x in enumerate(p.events)}
    aliases = lambda t: entry(t, g, 'operation', 'alsoKnownAs') == K(-1)
    pops = [x for x in p.events if x.kind in ('call', 'del', 'delitem') and aliases(x.a.get('self', NONE)) and (last(x.fn) == 'pop' or x.kind != 'call')]
    popped = len(pops) == 1 and pops[0].a.get(0, pops[0].a.get('key', NONE)) == K(0)
    h = ours('handle')
    for st in r.cases(e):
        has = r.truth(st, handle)
        if h == handle:
            ob('handle', has is True, 'may not have a handle', e)
            continue
        if h[0] == 'or':
            raise Unk(f'its handle: {show(h)[:60]}')
        ob('handle', has is False, 'doesn\'t use the given handle', e)
        src = bare(r, p, h, 'at://')
        if src is None and any(aliases(x) for x in subterms(h)) and h[0] == 'call' and not called(h, 'pop'):
            raise Unk(f'its handle: {show(h)[:60]}')
        first = src is not None and (popped and src == pops[0].res or src[0] == 'item' and aliases(src[1]) and src[2] == K(0) and not pops)
        ob('handle', first, f'its handle is {show(h)[-80:]}', e)
    keep(ob, r, p, e, popped, pops, aliases, order)


def keep(ob, r, p, e, popped, pops, aliases, order):
    also = kwarg(p, e, 'also_known_as')
    default = None
    if also[0] == 'kwget' and also[1] == KWARGS:
        sets = [x for x in p.events if x.kind == 'call' and last(x.fn) == 'setdefault' and x.a.get('self') == KWARGS and x.a.get(0) == K('also_known_as')]
        default = sets[0].a.get(1) if sets else also[3] if len(also) > 3 else NONE
        given = [r.decide(st, ('in', K('also_known_as'), KWARGS)) for st in r.cases(e)]
        if not sets and all(x is True for x in given):
            return
    elif also[0] == 'param':
        default = None
        if all(r.truth(st, also) is True or r.isnone(st, also) is False for st in r.cases(e)):
            return
        raise Unk('which aliases it keeps')
    else:
        default = also
        if not any(x == KWARGS or x[0] == 'param' and x[1] == 'also_known_as' for x in subterms(also)) and \
                not all(r.decide(st, ('in', K('also_known_as'), KWARGS)) is False for st in r.cases(e)):
            if also[0] not in ('item', 'const'):
                raise Unk('which aliases it keeps')
            ob('given aliases', False, 'ignores the given aliases', e)
            return
    if default[0] == 'obj' or default[0] == 'list':
        default = r.S(e, default)
        if default[0] == 'list' and len(default[1]) == 1 and default[1][0][0] == 'spread':
            default = default[1][0][1]
    if called(default, 'list', 'copy'):
        default = arg(default, 0, 'self')
    if default[0] == 'list' and len(default[1]) == 1 and default[1][0][0] == 'loop':
        _, lid, it, alts = default[1][0]
        src = it[1] if it[0] == 'item' and it[2][0] == 'slice' else it
        if aliases(src) and any(not segs for _, segs in alts):
            ob('aliases', False, 'drops another alias', e)
            return
    if aliases(default):
        ob('aliases', popped, 'keeps the old handle, or drops another alias', e)
    elif default[0] == 'item' and aliases(default[1]) and default[2][0] == 'slice':
        ob('aliases', default[2] == ('slice', K(1), NONE, NONE) and not pops, f'keeps {show(default)[-60:]}', e)
    elif default == NONE or is_const(default) or default[0] in ('list', 'tuple') and not default[1:][0]:
        ob('aliases', False, 'drops the other aliases', e)
    else:
        raise Unk(f'which aliases it keeps: {show(default)[:60]}')


@rules('U03')
def u03_rollback(c):
    c.rule('U03.rollback', 'rolling back reinstates an earlier operation of the same DID on top of the latest')
    r = c.run(f'{DID_MOD}.rollback_plc')
    c.some('rollback_plc returns', r.returns, 'never returns')
    f = c.prog.lookup(f'{DID_MOD}.rollback_plc')
    d = defaults(f).get('num_operations')
    v = c.prog.const_of(f.mod, d) if d is not None else None
    c.ob('rollback_plc: by default', v in (None, ..., 1), at_node(f, f.node), f'goes back {v} operations')
    for p in r.paths:
        attempt(c, 'rollback_plc', rolled, c, r, p)


def rolled(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'rollback_plc: {what}', ok, e, msg, p)
    did, n = param('did'), param('num_operations')
    sent = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'write_plc_operation')]
    if p.kind == 'return':
        ob('once', len(sent) == 1, f'sends {len(sent)} operations')
    if not sent:
        return
    g = log_of(r, p, did, ob)
    e = sent[0]
    ob('did', e.a.get('did', NONE) == did, f'writes to {show(e.a.get("did", NONE))[:40]}', e)
    ob('rotation key', e.a.get('rotation_key') == param('rotation_key'), 'signs with another key', e)
    ob('post', e.a.get('post_fn') == POST, 'doesn\'t use the given function', e)
    if p.kind == 'return':
        ob('returned', p.value == e.res, f'returns {show(p.value)[:40]}')
    op = e.a['op']
    base = r.S(e, op)
    if base[0] == 'dict' and base[1]:
        return copied_op(ob, r, p, e, g, base, did, n)
    at_ = entry(op, g, 'operation')
    if at_ is None:
        raise Unk(f'which operation it reinstates: {show(op)[:60]}')
    target(ob, r, p, e, op[1], at_, n, did, g)
    order = {id(x): i for i, x in enumerate(p.events)}
    sets = [x for x in p.events if x.kind == 'setitem' and x.a['self'] == op and order[id(x)] < order[id(e)]]
    ob('changed', {x.a['key'] for x in sets} <= {K('prev'), K('sig')}, f'changes {", ".join(show(x.a["key"]) for x in sets)}', e)
    prevs = [x for x in sets if x.a['key'] == K('prev')]
    ob('prev', bool(prevs) and entry(prevs[-1].a['value'], g, 'cid') == K(-1), f'its previous operation is {show(prevs[-1].a["value"])[-40:] if prevs else "the old one"}', e)
    gone = [x for x in p.events if x.a.get('self') == op and (x.kind == 'call' and last(x.fn) == 'pop' and x.a.get(0) == K('sig') or x.kind in ('del', 'delitem') and x.a.get('key') == K('sig'))
            and order[id(x)] < order[id(e)]]
    ob('sig', bool(gone), 'keeps the old signature', e)


def copied_op(ob, r, p, e, g, base, did, n):
    segs = [x for x in base[1] if x[0] == 'spread']
    if len(segs) != 1:
        raise Unk('which operation it reinstates')
    at_ = entry(segs[0][1], g, 'operation')
    if at_ is None:
        raise Unk('which operation it reinstates')
    target(ob, r, p, e, segs[0][1][1], at_, n, did, g)
    prev = dget(base, 'prev')
    ob('prev', prev not in (None, ...) and entry(prev, g, 'cid') == K(-1), 'its previous operation isn\'t the latest', e)
    order = {id(x): i for i, x in enumerate(p.events)}
    gone = all(r.decide(st, ('in', K('sig'), e.a['op'])) is False or r.decide(st, ('in', K('sig'), segs[0][1])) is False for st in r.cases(e)) or any(x.a.get('self') == e.a['op'] and order[id(x)] < order[id(e)] and last(x.fn or '') in ('pop', 'del', 'delitem') for x in p.events)
    ob('sig', gone, 'keeps the old signature', e)


def target(ob, r, p, e, item, at_, n, did, g):
    from .trees import linear
    d, k = linear(at_)
    if d == {n: -1}:
        ob('target', k == -1, f'reinstates entry {show(at_)}', e)
    else:
        ln = [x for x in d if called(x, 'builtins.len') and is_log(arg(x, 0), g)]
        if len(d) == 2 and ln and d[ln[0]] == 1 and d.get(n) == -1:
            ob('target', k == -1, f'reinstates entry {show(at_)}', e)
        else:
            ob('target', False, f'reinstates entry {show(at_)[:60]}', e)
            return
    for st in r.cases(e):
        same = [x for x in (('item', item, K('did')), ('get', item, K('did'), NONE))]
        ob('same did', any(r.cmp(st, '==', x, did) is True for x in same), 'may reinstate the operation of another DID', e)
        lens = [x for k_ in st.facts.d for x in subterms(k_) if called(x, 'builtins.len') and is_log(arg(x, 0), g)]
        ob('long enough', any(r.cmp(st, '>', x, n) is True for x in lens), 'counts from the wrong end when there are too few operations', e)
