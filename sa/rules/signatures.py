"""Signatures: which bytes are signed, which are verified, and with what."""
from .common import *
from .trees import Unk, last
from .trees_walk import attempt

UTIL = 'arroba.util'
OBJ = param('obj')
EFFECTS = ('dag_cbor.encode', 'base64.urlsafe_b64encode', 'base64.urlsafe_b64decode')

DSS = tuple(f'cryptography.hazmat.primitives.asymmetric.utils.{x}_dss_signature' for x in ('encode', 'decode'))


def args(t):
    return dict(t[2])


def called(t, *names):
    return t[0] == 'call' and fn_is(t[1], *names)


def arg(t, pos, *names, default=None):
    d = args(t)
    return next((d[k] for k in (pos,) + names if k in d), default)


def scalar(t):
    """(what, which) of a signature's r or s: ('der', signature, i) of a DER signature, ('raw', bytes, i) of 64 bytes."""
    if t[0] == 'item' and is_const(t[2]) and t[2][2] in (0, 1) and called(t[1], 'decode_dss_signature'):
        der = arg(t[1], 0, 'signature')
        if called(der, 'encode_dss_signature'):
            return scalar(arg(der, t[2][2], 'rs'[t[2][2]]))
        return 'der', der, t[2][2]
    if called(t, 'int.from_bytes') and arg(t, 0, 'bytes')[0] == 'item' and arg(t, 0, 'bytes')[2][0] == 'slice':
        if arg(t, 1, 'byteorder', default=K('big')) != K('big') or arg(t, 2, 'signed', default=FALSE) != FALSE:
            return 'swapped', t, None
        base, cut = arg(t, 0, 'bytes')[1:]
        lo, hi = (None if x == NONE else cval(x) for x in cut[1:3])
        if cut[3] not in (NONE, K(1)):
            raise Unk(f'which bytes {show(t)[:60]} has')
        if (lo or 0, hi) in ((0, 32), (0, -32)):
            return 'raw', base, 0
        if (lo, hi) in ((32, None), (32, 64), (-32, None)):
            return 'raw', base, 1
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            return 'cut', t, None
    if t[0] == 'sum' and t[2] and any(called(x, 'decode_dss_signature') for x in subterms(t)):
        return 'altered', t, None
    raise Unk(f'what {show(t)[:80]} is')


def settle(t):
    """A number that was encoded and decoded again is that number."""
    def one(x):
        if not x:
            return None
        if x[0] == 'item' and len(x) == 3 and is_const(x[2]) and x[2][2] in (0, 1) and called(x[1], 'decode_dss_signature'):
            der = arg(x[1], 0, 'signature')
            if called(der, 'encode_dss_signature'):
                return settle(arg(der, x[2][2], 'rs'[x[2][2]]))
        if x[0] == 'sum' and len(x) == 3:
            y = K(x[2])
            for a, n in x[1]:
                b = settle(a)
                y = mk_bin('+', y, b if n == 1 else mk_bin('*', b, K(n)))
            return y
        return None
    return subst(t, one)


def joined(r, p, t):
    """(r, s) of 64 bytes."""
    if t[0] == 'call' and last(t[1]) == 'join' and args(t).get('self') == K(b'') and args(t)[0][0] == 'obj':
        el = r.shape(p, args(t)[0])
        if all(x[0] == 'one' for x in el[1]):
            t = ('call', t[1], (('self', K(b'')), (0, ('tuple', tuple(x[1] for x in el[1])))), None)
    if t[0] == 'bin' and t[1] == '+':
        parts = t[2:]
    elif t[0] == 'call' and last(t[1]) == 'join' and args(t).get('self') == K(b'') and args(t)[0][0] == 'tuple':
        parts = args(t)[0][1]
    else:
        raise Unk(f'which bytes {show(t)[:80]} has')
    out = []
    for x in parts:
        if x[0] != 'call' or last(x[1]) != 'to_bytes':
            raise Unk(f'which bytes {show(x)[:80]} has')
        out.append((settle(args(x)['self']), arg(x, 0, 'length', default=K(1)), arg(x, 1, 'byteorder', default=K('big')), arg(x, 2, 'signed', default=FALSE)))
    return out


def low(r, p, t, key):
    """The scalar of the signature that t is the low variant of, None if it may be the high one."""
    n = [x for x in subterms(t) if x[0] == 'attr' and x[2] == 'group_order']
    if t[0] == 'call' and last(t[1]) == 'min' and len(t[2]) == 2:
        a, b = (v for k, v in t[2])
        if n and linear(mk_bin('+', a, b)) == linear(n[0]):
            a = a if not any(x == n[0] for x in subterms(a)) else b
            return scalar(a) + (n[0],)
    if n:
        s = mk_bin('-', n[0], t)
        flipped = True
    else:
        s, flipped = t, False
    who = scalar(s)
    orders = {x for k in getattr(p, 'st', p).facts.d for x in subterms(k) if x[0] == 'attr' and x[2] == 'group_order'} | set(n)
    same = {s} | {x for k in getattr(p, 'st', p).facts.d for x in subterms(k) if x[0] == 'item' and settle(x) == s}
    for order, s in ((o, x) for o in orders for x in same):
        for a, b in ((s, mk_bin('//', order, K(2))), (mk_bin('*', s, K(2)), order), (s, mk_bin('>>', order, K(1))), (s, mk_bin('-', order, s))):
            high = r.cmp(p, '>', a, b)
            # orders are odd, so >= and > are the same except for half of it
            if high is None and not (b[0] == 'bin' and b[1] in ('//', '>>')):
                high = r.cmp(p, '>=', a, b)
            if high is flipped:
                return who + (order,)
    return None


def own_order(t, key):
    """Is it the order of the key's curve?"""
    return t[0] == 'attr' and t[2] == 'group_order' and any(x == key for x in subterms(t))


def sha256(t):
    return called(t, 'ECDSA') and called(arg(t, 0, 'signature_algorithm', default=NONE), 'SHA256')


def raw64(ob, r, p, t, key):
    """Checks that t is 64 bytes with the low variant of a signature, and returns its source."""
    (tr, *fr), (ts, *fs) = joined(r, p, t)
    ob('64 bytes', fr == fs == [K(32), K('big'), FALSE], f'writes the two numbers as {show(t)[:80]}')
    a, b = scalar(tr), low(r, p, ts, key)
    ob('low-S', b is not None, 'may keep the high one of the two signatures')
    if b is None:
        return None
    ob('low-S order', own_order(b[3], key), f'flips it with {show(b[3])[:60]}')
    ob('numbers', a[0] == b[0] and a[1] == b[1] and (a[2], b[2]) == (0, 1), 'mixes up the signature\'s numbers')
    return a[:2]


@rules('U01', explanation=(
    'Abstract interpretation of signing and verifying, with the cryptographic primitives opaque. Which bytes, key and algorithm reach them, and which '
    'part of their results reach the signature that is stored or the answer, is compared with the AT Protocol\'s on every partition. Nothing is executed.'),
    assumptions=('cryptography\'s and PyJWT\'s primitives are correct, and encode_dss_signature and decode_dss_signature are inverses',
                 'what is signed has no signature yet'))
def u01_sign(c):
    c.rule('U01.sign', 'signing signs the encoding of the whole object, with ECDSA over SHA-256, and stores the low-S signature as 64 bytes')
    r = c.run(f'{UTIL}.sign', inline=('apply_low_s_mitigation',), pure=DSS, opaque=EFFECTS)
    c.some('sign returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, 'sign', signed, c, r, p)


def signed(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'sign: {what}', ok, e, msg, p)
    key = param('private_key')
    sigs = [e for e in p.events if e.kind == 'call' and last(e.fn) == 'sign' and e.a.get('self') == key]
    ob('signs', bool(sigs), 'never signs the object')
    if len(sigs) != 1:
        if sigs:
            raise Unk('which signature it keeps')
        return
    sig = sigs[0]
    before = p.events[:next(i for i, e in enumerate(p.events) if e is sig)]
    ob('algorithm', sha256(sig.a.get(1, sig.a.get('signature_algorithm', NONE))), f'signs with {show(sig.a.get(1, NONE))[:80]}', sig)
    data = sig.a.get(0, sig.a.get('data', NONE))
    if not called(data, 'dag_cbor.encode'):
        ob('data', data != OBJ and not called(data, 'json.dumps', 'dag_json.encode', 'str', 'repr'), f'signs {show(data)[:80]}', sig)
        raise Unk(f'what it signs: {show(data)[:80]}')
    enc = next(e for e in before if e.kind == 'call' and e.res == data)
    what = arg(data, 0, 'data')
    ob('object', what == OBJ or what[0] == 'obj' or called(what, 'copy.copy', 'copy.deepcopy'), f'signs {show(what)[:80]}', enc)
    for e in before[:next(i for i, e in enumerate(before) if e is enc)]:
        if e.kind in ('setitem', 'mutate', 'delitem') and e.a.get('self') == OBJ or e.kind == 'call' and e.a.get('self') == OBJ and last(e.fn) in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
            if last(e.fn) == 'pop' and e.a.get(0) == K('sig'):
                continue
            ob('whole', False, 'changes the object before signing it', e)
    if what[0] == 'obj':
        s = r.shape(enc, what)
        if s[0] != 'dict':
            raise Unk('what it signs')
        kept, msg = fields(s)
        ob('whole', kept in ('all', 'unsigned'), msg.replace('verif', 'sign'), enc)
    # what is stored
    sets = [e for e in p.events if e.kind == 'setitem' and e.a.get('self') == OBJ and e.a['key'] == K('sig')]
    others = [e for e in p.events if e.a and e.a.get('self') == OBJ and (e.kind in ('setitem', 'delitem') or last(e.fn) in ('update', 'setdefault', 'clear', 'popitem')) and e not in sets]
    if p.value == OBJ:
        for e in others:
            if e.kind in ('setitem', 'delitem'):
                ob('signed object', e.a.get('key') == K('sig'), 'changes what it has signed', e)
            elif last(e.fn) == 'update' and dkeys(r.shape(e, e.a.get(0, NONE))) == ['sig'] and len(r.shape(e, e.a[0])[1]) == 1:
                sets.append(e)
            else:
                raise Unk(f'how {last(e.fn)} changes what it has signed')
        ob('stored', bool(sets), 'doesn\'t store the signature')
        if not sets:
            return
        raw = sets[-1].a['value'] if sets[-1].kind == 'setitem' else dget(r.shape(sets[-1], sets[-1].a[0]), 'sig')
    else:
        s = r.shape(p, p.value)
        ob('returned', s[0] == 'dict' or p.value == what, 'doesn\'t return the object')
        raw = dget(s, 'sig')
        if raw in (None, ...):
            raise Unk('which signature it returns')
        ob('returned', any(x[0] == 'spread' and x[1] == OBJ for x in s[1]) and set(dkeys(s)) == {'sig'}, 'returns something else than the object')
    src = raw64(ob, r, p, raw, key)
    ob('signature', src is None or src == ('der', sig.res), f'stores {show(raw)[:80]}')


@rules('U01')
def u01_low_s(c):
    c.rule('U01.low-s', 'a signature\'s low variant has the same first number and a second that is at most half of the curve\'s order')
    r = c.run(f'{UTIL}.apply_low_s_mitigation', pure=DSS)
    for p in r.returns:
        attempt(c, 'low-S', lowered, c, r, p)


def lowered(c, r, p):
    ob = lambda what, ok, msg: c.ob(f'low-S: {what}', ok, r, msg, p)
    t = p.value
    sig, curve = param('signature'), param('curve')
    if t == sig:
        t = ('call', 'encode_dss_signature', ((0, ('item', ('call', 'decode_dss_signature', ((0, sig),), None), K(0))),
                                              (1, ('item', ('call', 'decode_dss_signature', ((0, sig),), None), K(1)))), None)
        for x in (x for k in p.st.facts.d for x in subterms(k) if called(x, 'decode_dss_signature')):
            t = ('call', 'encode_dss_signature', ((0, ('item', x, K(0))), (1, ('item', x, K(1)))), None)
    if not called(t, 'encode_dss_signature'):
        raise Unk(f'what it returns: {show(t)[:80]}')
    a, b = scalar(arg(t, 0, 'r')), low(r, p, settle(arg(t, 1, 's')), curve)
    ob('low', b is not None, 'may return the high one of the two signatures')
    if b:
        ob('order', own_order(b[3], curve), f'flips it with {show(b[3])[:60]}')
        ob('numbers', a[:3] == ('der', sig, 0) and b[:3] == ('der', sig, 1), 'mixes up the signature\'s numbers')


def copy_of(r, e, t):
    """Is it a copy of the object?"""
    return called(t, 'copy.copy', 'copy.deepcopy') and arg(t, 0, 'x') == OBJ


def is_sig(r, t):
    d = args(t) if t[0] == 'call' else {}
    if t[0] == 'call' and last(t[1]) == 'pop':
        return d.get(0) == K('sig') and (d['self'] == OBJ or copy_of(r, None, d['self']))
    return t[0] in ('item', 'get') and t[2] == K('sig') and (t[1] == OBJ or copy_of(r, None, t[1]) or t[1][0] == 'obj')


def without_sig(r, p, enc, what):
    """Is it the object without its signature? A (bool, message) or Unk."""
    before = p.events[:next(i for i, e in enumerate(p.events) if e is enc)]
    if what == OBJ:
        return False, 'verifies the object with its signature'
    if copy_of(r, enc, what):
        touch = [e for e in before if e.a and e.a.get('self') == what and (e.kind in ('setitem', 'delitem', 'mutate') or
                 last(e.fn) in ('pop', 'update', 'setdefault', 'clear', 'popitem'))]
        dropped = [e for e in touch if e.kind == 'delitem' and e.a.get('key') == K('sig') or last(e.fn) == 'pop' and e.a.get(0) == K('sig')]
        if [e for e in touch if e not in dropped]:
            return False, 'changes what it verifies'
        return bool(dropped), 'verifies the object with its signature'
    s = r.shape(enc, what)
    if s[0] != 'dict':
        raise Unk(f'what it verifies: {show(what)[:60]}')
    kept, msg = fields(s)
    return (False, 'verifies the object with its signature') if kept == 'all' else (kept == 'unsigned', msg)


def fields(s):
    """Which of the object's fields a dict has: ('all' | 'unsigned' | None, what's wrong)."""
    segs = [x for x in s[1] if x[0] != 'prior']
    if any(x[0] == 'kv' for x in segs):
        return None, 'verifies something else than the object'
    if len(segs) == 2 and segs[0] == ('spread', OBJ) and segs[1][0] == 'del':
        return 'unsigned' if segs[1][1] == K('sig') else None, 'verifies only part of the object'
    if len(segs) == 2 and segs[0][0] == 'loop' and segs[1] == ('del', K('sig')):
        kept, msg = fields(('dict', (segs[0],)))
        return 'unsigned' if kept else None, msg
    if len(segs) == 1 and segs[0][0] == 'spread':
        return 'all' if segs[0][1] == OBJ else None, 'verifies something else than the object'
    if len(segs) == 1 and segs[0][0] == 'loop':
        _, lid, it, alts = segs[0]
        if not any(x == OBJ for x in subterms(it)):
            return None, 'verifies something else than the object'
        kept = 'all'
        for facts, sub in alts:
            sub = [x for x in sub if x[0] == 'kv']
            eq = None
            for k, v in dict(facts).items() if not isinstance(facts, dict) else facts.items():
                if k[0] == 'eqc' and K('sig') in k[1:] and any(x[0] in ('keyof', 'item', 'elemof') for x in subterms(k)):
                    eq = v
                else:
                    return None, 'leaves fields other than the signature out of what it verifies'
            if eq and not sub:
                kept = 'unsigned'
            elif eq or len(sub) != 1:
                return None, 'leaves fields other than the signature out of what it verifies'
        return kept, ''
    raise Unk('which of the object\'s fields it verifies')


@rules('U01')
def u01_verify(c):
    c.rule('U01.verify', 'verifying returns true only if the key has verified the 64-byte, low-S signature of the object without it, false otherwise, and doesn\'t change the object')
    r = c.run(f'{UTIL}.verify_sig', inline=('apply_low_s_mitigation',), pure=DSS, opaque=EFFECTS)
    c.some('verify_sig accepts', [p for p in r.returns if r.truth(p, p.value) is not False], 'never accepts a signature')
    c.some('verify_sig rejects', [p for p in r.returns if r.truth(p, p.value) is not True], 'never rejects a signature')
    for p in r.paths:
        attempt(c, 'verify_sig', verified, c, r, p)


def verified(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'verify_sig: {what}', ok, e, msg, p)
    for e in p.events:
        if e.a and e.a.get('self') == OBJ and (e.kind in ('setitem', 'delitem', 'mutate') or last(e.fn) in ('pop', 'update', 'setdefault', 'clear', 'popitem')):
            if any(x.kind == 'setitem' and x.a.get('self') == OBJ and x.a.get('key') == K('sig') for x in p.events):
                raise Unk('whether it leaves the object as it was')
            ob('original', False, 'changes the object that it verifies', e)
            return
    calls = [e for e in p.events if e.kind == 'call' and last(e.fn) == 'verify' and e.a.get('self') == param('public_key')]
    if p.kind == 'raise':
        cls, ex = p.exc.cls, getattr(p.exc, 'excluded', ()) or ()
        ob('raises', not (cls and fn_is(cls, 'InvalidSignature')) and (cls or any(fn_is(x, 'InvalidSignature') for x in ex) or not tried(p)), 'raises when the signature is invalid')
        return
    lens = [x for k in p.st.facts.d for x in subterms(k) if called(x, 'builtins.len') and is_sig(r, arg(x, 0))]
    size = next((r.cmp(p, '==', x, K(64)) for x in lens if r.cmp(p, '==', x, K(64)) is not None), None)
    caught = [e for e in p.events if e.kind == 'catch']
    for st in r.cases(p):
        v = r.truth(st, p.value)
        if v is None:
            raise Unk(f'when it accepts: {show(p.value)[:60]}')
        if not v:
            ob('rejects', size is False or caught or extra(p), 'rejects a signature without verifying it')
            continue
        ob('size', size is True, 'accepts signatures that aren\'t 64 bytes')
        ob('verifies', bool(calls) and not caught, 'accepts a signature that the key hasn\'t verified')
        if calls and not caught:
            accepts_low(ob, r, st, calls[0])
    for e in calls:
        der, data, algo = (e.a.get(i, e.a.get(n, NONE)) for i, n in enumerate(('signature', 'data', 'signature_algorithm')))
        ob('algorithm', sha256(algo), f'verifies with {show(algo)[:60]}', e)
        if not called(der, 'encode_dss_signature'):
            ob('signature', not is_sig(r, der), 'verifies the raw signature', e)
            raise Unk(f'which signature it verifies: {show(der)[:60]}')
        a, b = scalar(arg(der, 0, 'r')), scalar(arg(der, 1, 's'))
        ob('numbers', (a[0], a[2]) == ('raw', 0) and (b[0], b[2]) == ('raw', 1) and a[1] == b[1] and is_sig(r, a[1]), f'verifies the signature {show(der)[:80]}', e)
        if not called(data, 'dag_cbor.encode'):
            raise Unk(f'what it verifies: {show(data)[:60]}')
        enc = next(x for x in p.events if x.kind == 'call' and x.res == data)
        ok, msg = without_sig(r, p, enc, arg(data, 0, 'data'))
        ob('object', ok, msg, enc)


def accepts_low(ob, r, st, e):
    """Does it accept only the low one of the two signatures?"""
    der = e.a.get(0, e.a.get('signature', NONE))
    if not called(der, 'encode_dss_signature'):
        return
    s, key = settle(arg(der, 1, 's')), param('public_key')
    order = lambda t: any(x[0] == 'attr' and x[2] == 'group_order' for x in subterms(t))
    if order(s):
        ob('low-S', False, 'verifies the low variant of the signature instead of the signature', e)
        return
    # comparing it with its low variant
    if any(k[0] == 'eqc' and v and order(k) or k[0] == 'lin' and v[0] is not None and v[0] == v[2] and order(k) for k, v in st.facts.d.items()):
        return
    b = low(r, st, s, key)
    ob('low-S', b is not None, 'accepts both of the two signatures that an object\'s signature can be turned into', e)
    if b:
        ob('low-S order', own_order(b[3], key), f'compares it with {show(b[3])[:60]}', e)


def tried(p):
    """Had it a signature to verify?"""
    return any(e.kind in ('raise',) and e.fn == '?implicit' for e in p.events)


def extra(p):
    """Does it reject for a number that's out of range?"""
    return any(called(x, 'int.from_bytes') for k in p.st.facts.d for x in subterms(k))


@rules('U01')
def u01_jwt(c):
    c.rule('U01.token', 'a service token has the given issuer, audience, expiry and claims, and the low-S signature that the repo\'s key made of it')
    r = c.run(f'{UTIL}.service_jwt', inline=('apply_low_s_mitigation',), pure=DSS)
    c.some('service_jwt returns', r.returns, 'never returns')
    for p in r.returns:
        attempt(c, 'service_jwt', token, c, r, p)


def flat(t):
    """The parts of a formatted string."""
    if t[0] == 'fmt':
        return [y for x in t[1] for y in flat(x)]
    if t[0] == 'bin' and t[1] == '+':
        return flat(t[2]) + flat(t[3])
    if t[0] == 'call' and last(t[1]) == 'join' and is_const(args(t).get('self', NONE)) and args(t)[0][0] == 'tuple':
        out = []
        for x in args(t)[0][1]:
            out += ([args(t)['self']] if out else []) + flat(x)
        return out
    return [t]


def token(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'service_jwt: {what}', ok, e, msg, p)
    key = param('privkey')
    enc = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'jwt.encode')]
    if len(enc) != 1:
        raise Unk('how it makes the token')
    enc = enc[0]
    ob('key', enc.a.get(1, enc.a.get('key')) == key and enc.a.get(2, enc.a.get('algorithm')) == K('ES256K'), 'signs the token with another key or algorithm', enc)
    d = r.shape(enc, enc.a.get(0, enc.a.get('payload', NONE)))
    if d[0] != 'dict':
        raise Unk('what the token says')
    own = [x for x in d[1] if not (x[0] == 'spread' and x[1] == param('**claims'))]
    ob('claims', len(own) < len(d[1]), 'drops the given claims', enc)
    body = ('dict', tuple(own))
    iss, aud, exp = (dget(body, k) for k in ('iss', 'aud', 'exp'))
    if ... in (iss, aud, exp):
        raise Unk('what the token says')
    ob('issuer', iss == param('repo_did'), 'isn\'t issued by the repo', enc)
    for st in r.cases(p):
        given = r.truth(st, param('aud'))
        parts = flat(aud or NONE)
        web = parts == [K('did:web:'), param('host')]
        if aud and aud[0] == 'or':
            continue
        ob('audience', aud == param('aud') if given else web if given is False else False, f'is for {show(aud or NONE)[:60]}', enc)
    attempt(c, 'service_jwt', expires, ob, r, p, exp, enc)
    parts = flat(p.value)
    if p.value == enc.res:
        ob('low-S', False, 'may keep the high one of the two signatures')
        return
    if len(parts) == 5 and parts[1] == parts[3] == K('.') and [piece(x, enc.res) for x in (parts[0], parts[2])] == ['header', 'payload']:
        parts = [NONE, K('.'), parts[4]]
    if len(parts) != 3 or parts[1] != K('.'):
        raise Unk(f'which token it returns: {show(p.value)[:60]}')
    ob('input', parts[0] == NONE or piece(parts[0], enc.res) == 'input', f'changes what it has signed to {show(parts[0])[:60]}')
    t = parts[2]
    stripped = False
    while t[0] == 'call' and last(t[1]) in ('decode', 'rstrip', 'strip', 'str'):
        if last(t[1]) in ('rstrip', 'strip'):
            stripped = args(t).get(0) in (K(b'='), K('='))
        t = arg(t, 'self', 0)
    ob('unpadded', stripped, 'leaves the signature\'s padding on')
    if not called(t, 'urlsafe_b64encode'):
        ob('encoding', not called(t, 'b64encode', 'standard_b64encode', 'hexlify', 'b32encode'), f'encodes the signature with {show(t)[:40]}')
        raise Unk(f'how it encodes the signature: {show(t)[:60]}')
    src = raw64(ob, r, p, arg(t, 0, 's'), key)
    if src is None:
        return
    if src[0] != 'raw':
        raise Unk('which signature the token has')
    s = src[1]
    if not called(s, 'urlsafe_b64decode'):
        raise Unk(f'which signature the token has: {show(s)[:60]}')
    head = flat(arg(s, 0, 's'))
    ob('signature', piece(head[0], enc.res) == 'sig', f'keeps the signature {show(s)[:60]}')


def expires(ob, r, p, exp, enc):
    ob('expiry', exp is not None, 'never expires', enc)
    if exp is None:
        return
    t = exp
    while t[0] == 'call' and last(t[1]) in ('int', 'timestamp', 'floor', 'round', 'ceil'):
        t = arg(t, 'self', 0)
    v, k = linear(t)
    def bare(x):
        while x[0] == 'call' and last(x[1]) in ('int', 'timestamp', 'floor', 'round', 'ceil'):
            x = arg(x, 'self', 0)
        return x
    v = {bare(x): n for x, n in v.items()}
    now = [x for x in v if called(x, 'webutil.util.now', 'datetime.now', 'datetime.utcnow', 'time.time', 'util.time_ns')]
    if len(now) != 1:
        raise Unk(f'when it expires: {show(exp)[:60]}')
    rest = {x: n for x, n in v.items() if x != now[0]}
    given = {x for x in rest if x == param('expiration') or called(x, 'total_seconds') and arg(x, 'self') == param('expiration')}
    ob('expiry', v[now[0]] == 1 and len(given) == len(rest) == 1 and set(rest.values()) == {1} and k == 0, f'expires at {show(exp)[:60]}', enc)


def piece(t, tok):
    """Which part of a token it is: what was signed, or the signature."""
    if t[0] == 'item' and t[1][0] == 'call' and args(t[1]).get('self') == tok and is_const(t[2]):
        d, i = args(t[1]), t[2][2]
        if last(t[1][1]) == 'rpartition' and d.get(0) == K('.'):
            return {0: 'input', 2: 'sig', -1: 'sig'}.get(i)
        if last(t[1][1]) == 'rsplit' and d.get(0) == K('.') and arg(t[1], 1, 'maxsplit') == K(1):
            return {0: 'input', 1: 'sig', -1: 'sig'}.get(i)
        if last(t[1][1]) == 'split' and d.get(0) == K('.') and len(d) == 2:
            return {0: 'header', 1: 'payload', 2: 'sig', -1: 'sig'}.get(i)
        if last(t[1][1]) in ('rpartition', 'rsplit', 'split', 'partition'):
            return 'other'
    if t[0] == 'item' and t[1] == tok and t[2][0] == 'slice':
        raise Unk('which part of the token it is')
    if t == tok:
        return 'other'
    raise Unk(f'which part of the token {show(t)[:60]} is')
