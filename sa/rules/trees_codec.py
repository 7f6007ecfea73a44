"""Merkle search trees: how nodes are encoded."""
import operator

from .trees import *
from .trees_state import own_entries

DATA = param('data')
STEPS = {'MST.get_pointer', 'get_pointer'}


def nt(t, name):
    """The fields of a namedtuple's value, or None."""
    return dict(t[2]) if t[0] == 'nt' and fn_is(t[1], name) else None


def field_of(t, x, name, pos):
    """Is t this field of leaf x?"""
    return t in (('attr', x, name), ('item', x, K(pos)))


def joined(t):
    """The parts of a concatenation."""
    if t[0] == 'bin' and t[1] == '+':
        return joined(t[2]) + joined(t[3])
    if t[0] == 'fmt':
        return [x for part in t[1] for x in ([part] if isinstance(part, tuple) else [K(part)])]
    return [t]


@rules('M03', explanation=(
    'Abstract interpretation of the encoder and decoder. Each partition of an iteration is compared with the standard form: what it '
    'emits for the entry or entries that it consumes, and the state that it hands to the next one. The layer function\'s iterations '
    'are partitioned by the byte that they read, and each of the 256 bytes is checked against its partition. Nothing is executed.'),
    assumptions=('entries are leaves and trees, without two trees next to each other',))
def m03_encode(c):
    c.rule('M03.encode', 'a node is encoded as its left subtree and, for each leaf in order, the prefix length, the rest of the key, the value and the right subtree')
    r = c.run('arroba.mst.serialize_node_data')
    ents = param('entries')
    c.some('serialize returns', r.returns, 'never returns')

    def entry(k):
        return ('item', ents, k)

    def kind(st, k):
        """What entry k is."""
        t = entry(k)
        if r.cmp(st, '>=', k, ('call', 'builtins.len', ((0, ents),), None)) or r.truth(st, t) is False or r.isnone(st, t):
            return 'absent'
        if r.decide(st, ('isinst', t, MST)):
            return 'tree'
        if r.decide(st, ('isinst', t, LEAF)):
            return 'leaf'
        if r.decide(st, ('isinst', t, MST)) is False:
            return 'leaf or absent'
        return None

    def pointer(t, k):
        d = mcall(t, 'get_pointer')
        return bool(d) and d['self'] == entry(k)

    for p in r.returns:
        d = nt(p.value, 'mst.Data')
        if d is None:
            c.unsure(f'serialize_node_data returns {show(p.value)[:80]}')
            continue
        s = r.shape(p, d.get('e', NONE))
        if s[0] != 'list' or len(s[1]) != 1 or s[1][0][0] != 'loop':
            c.unsure('how entries are encoded')
            continue
        lp = r.it.loops[s[1][0][1]]
        first = {kind(st, K(0)) for st in r.cases(p)}
        empty = r.truth(p, ents) is False
        if d['l'] == NONE:
            start = K(0)
            bad = [st for st in r.cases(p) if not (
                r.truth(st, ents) is False or kind(st, K(0)) in ('leaf', 'absent', 'leaf or absent'))]
            c.ob('encode: left', not bad, r, 'leaves out a left subtree', p)
        else:
            start = K(1)
            if d['l'][0] in ('lv', 'phi'):
                c.unsure('how the left subtree is found')
                continue
            if not mcall(d['l'], 'get_pointer'):
                c.ob('encode: left', False, r, f'the left subtree is {show(d["l"])[:80]}', p)
            else:
                c.ob('encode: left', pointer(d['l'], K(0)) and first <= {'tree'}, r, 'the left subtree isn\'t the first entry', p)
        init = inits(lp)
        for b, after in carries(c, lp):
            adds = [e for e in flat_events(b.events) if e.kind == 'mutate' and e.fn in ('list.append', 'list.extend') and
                    e.a.get('self') == d['e']]
            if len(adds) != 1:
                c.ob('encode: each', False, r, 'an iteration encodes no entry', p) if not adds else c.unsure('encodes two entries at once')
                continue
            es = r.shape(b, adds[0].a[0])
            got = {k: dget(es, k) for k in 'pkvt'} if es[0] == 'dict' else nt(adds[0].a[0], 'mst.Entry') or {}
            if es[0] == 'dict':
                extra = [k for k in dkeys(es) or () if k not in ('p', 'k', 'v', 't')]
                c.ob('encode: fields', not extra, r, f'an entry has other fields: {extra}', p)
            if any(got.get(k) is None for k in 'pkvt'):
                c.unsure(f'what an entry\'s fields are: {show(es)[:80]}')
                continue
            v = got['v']
            leaf = v[1] if v[0] in ('attr', 'item') and v[2] in ('value', K(1)) else None
            if leaf is None or leaf[0] != 'item' or leaf[1] != ents or leaf[2][0] != 'lv':
                c.unsure(f'which entry is encoded: {show(v)[:80]}')
                continue
            i = leaf[2]
            for st in r.cases(b):
                c.ob('encode: leaf', kind(st, i) == 'leaf', r, 'encodes an entry that may not be a leaf', p)
                nk = kind(st, plus(i, K(1)))
                if got['t'] == NONE:
                    c.ob('encode: right', nk in ('leaf', 'absent', 'leaf or absent'), r, f'leaves out the subtree on a leaf\'s right', p)
                    step = 1
                else:
                    c.ob('encode: right', pointer(got['t'], plus(i, K(1))) and nk == 'tree', r,
                         f'the subtree on a leaf\'s right is {show(got["t"])[:80]}', p)
                    step = 2
                c.ob('encode: next', diff_is(after.get(i, i), i, step), r, f'goes on after {step} entries with {show(after.get(i, i))[:60]}', p)
            c.ob('encode: first', init.get(i) is not None and diff_is(init[i], start, 0), r, f'starts at entry {show(init.get(i, NONE))}', p)
            n = ('call', 'builtins.len', ((0, ents),), None)
            c.ob('encode: last', bool(r.cmp(p, '>=', i, n)), r, 'stops before the last entry', p)
            # the key
            pre = dict(got['p'][2]) if got['p'][0] == 'call' and fn_is(got['p'][1], 'mst.common_prefix_len') else None
            if pre is None and is_const(got['p']) and cval(got['p']) != 0:
                c.ob('encode: prefix', False, r, f'an entry\'s prefix length is always {show(got["p"])}', p)
                continue
            parts = [v for k, v in got['p'][2]] if got['p'][0] == 'call' and fn_is(got['p'][1], 'builtins.min', 'builtins.max') else \
                list(got['p'][2:]) if got['p'][0] == 'bin' else [t for t, n in got['p'][1]] + [K(1)] if got['p'][0] == 'sum' else []
            if pre is None and len(parts) == 2 and any(x[0] == 'call' and fn_is(x[1], 'mst.common_prefix_len') for x in parts) and \
                    any(is_const(x) for x in parts):
                c.ob('encode: prefix', False, r, f'an entry\'s prefix length is {show(got["p"])[:60]}, not the shared prefix\'s', p)
                continue
            if pre is None:
                c.unsure(f'how the prefix is found: {show(got["p"])[:80]}')
                continue
            pair = [pre.get('a', pre.get(0)), pre.get('b', pre.get(1))]
            lk = next((x for x in pair if x[0] == 'lv'), None)
            c.ob('encode: prefix', lk is not None and any(field_of(x, leaf, 'key', 0) for x in pair), r,
                 f'the prefix isn\'t the one that the key shares with the previous leaf\'s: {show(got["p"])[:100]}', p)
            if lk is not None:
                c.ob('encode: previous', init.get(lk) == K('') and field_of(after.get(lk, lk), leaf, 'key', 0), r,
                     f'the previous key becomes {show(after.get(lk, lk))[:60]}', p)
            k = got['k']
            d2 = dict(k[2]) if k[0] == 'call' and last(k[1]) in ('encode', 'bytes') else None
            rest = d2.get('self', d2.get(0)) if d2 else None
            ok = rest is not None and rest[0] == 'item' and field_of(rest[1], leaf, 'key', 0) and \
                rest[2] == ('slice', got['p'], NONE, NONE)
            if not ok and (rest is None or rest[0] != 'item'):
                removed = mcall(rest, 'removeprefix') if rest else None
                c.unsure(f'how the rest of the key is found: {show(k)[:80]}') if rest is None or rest[0] == 'call' else c.ob(
                    'encode: rest', False, r, f'the rest of the key is {show(rest)[:80]}', p)
            else:
                c.ob('encode: rest', ok, r, f'the rest of the key is {show(k)[:80]}', p)
    for p in r.raises:
        ev = p.exc.ev if getattr(p, 'exc', None) is not None else None
        c.ob('encode: raises', r.exc_is(p, 'ValueError'), r, 'raises something else than ValueError', p)

    c.rule('M03.prefix', 'the prefix length is that of the longest common prefix')
    r = c.run('arroba.mst.common_prefix_len')
    a, b = param('a'), param('b')
    for p in r.returns:
        v = p.value
        if v[0] == 'call' and v[1] == 'builtins.len' and v[2][0][1][0] == 'call' and v[2][0][1][1] == 'os.path.commonprefix':
            arg = r.shape(p, v[2][0][1][2][0][1])
            items = set(arg[1]) if arg[0] == 'tuple' else {s[1] for s in arg[1] if s[0] == 'one'} if arg[0] == 'list' else None
            c.ob('common_prefix_len', items == {a, b}, r, f'isn\'t of both keys: {show(arg)}', p)
        elif v[0] in ('bin', 'sum') and not any(x[0] in ('lv', 'idx') for x in subterms(v)) or is_const(v) or (
                v[0] == 'call' and v[1] in ('builtins.min', 'builtins.max') and any(is_const(x) for _, x in v[2])):
            c.ob('common_prefix_len', False, r, f'returns {show(v)[:80]}', p)
        elif v[0] in ('lv', 'idx') or v[0] == 'call':
            prefix_loop(c, r, p, a, b)
        else:
            c.ob('common_prefix_len', False, r, f'returns {show(v)[:80]}', p)


def prefix_loop(c, r, p, a, b):
    c.unsure(f'how the common prefix is found: {show(p.value)[:80]}')


@rules('M03')
def m03_decode(c):
    c.rule('M03.decode', 'decoding a node gives back its left subtree and each leaf, with its whole key and value, followed by its right subtree')
    r = c.run('arroba.mst.deserialize_node_data', inline=INL)
    left, ents = [('attr', DATA, 'l'), ('item', DATA, K(0))], [('attr', DATA, 'e'), ('item', DATA, K(1))]
    layer, storage = param('layer'), param('storage')
    c.some('deserialize returns', r.returns, 'never returns')

    def tree(at, st, t):
        """The pointer of a new tree, or None."""
        if t[0] != 'obj' or (t, 'pointer') not in at.attrs:
            return None
        g = lambda k: at.attrs.get((t, k), NONE)
        c.ob('decode: subtree', g('storage') == storage and g('entries') == NONE, r, 'a subtree isn\'t loaded from the same storage')
        la = g('layer')
        c.ob('decode: layer', la == NONE or diff_is(la, layer, -1) and r.isnone(st, layer) is False, r,
             f'a subtree is on layer {show(la)}')
        return g('pointer')

    for p in r.returns:
        s = r.shape(p, p.value)
        segs = s[1] if s[0] in ('list', 'gen') else None
        if segs is None or [x[0] for x in segs] not in (['one', 'loop'], ['loop']):
            c.unsure('what deserialize_node_data returns')
            continue
        if segs[0][0] == 'one':
            ptr = tree(p.st, p, segs[0][1])
            c.ob('decode: left', ptr in left, r, 'the first entry isn\'t the left subtree', p)
            c.ob('decode: left', any(r.isnone(p, t) is False or r.truth(p, t) for t in left), r, 'has a left subtree that doesn\'t exist', p)
        else:
            c.ob('decode: left', any(r.isnone(p, t) is True or r.truth(p, t) is False for t in left), r, 'leaves out the left subtree', p)
        lp = r.it.loops[segs[-1][1]]
        it, enum = iter_of(lp.iter) if lp.iter else (None, False)
        if it not in ents:
            c.ob('decode: entries', False, r, 'doesn\'t decode every entry in order') if it is None or it[0] == 'item' else c.unsure('what it decodes')
            continue
        el = ('elemof', it, lp.lid)
        f = lambda k: {('item', el, K(k)), ('attr', el, k), ('attr', ('call', 'arroba.mst.Entry', ((None, el),), None), k)}
        init = inits(lp)
        for b in lp.bodies:
            if b.exit not in ('back', 'raise'):
                c.ob('decode: entries', False, r, 'stops before the last entry', p)
        for b, after in carries(c, lp):
            vals = []
            try:
                for e in flat_events(b.events):
                    if e.kind != 'mutate' or e.a.get('self') != p.value:
                        continue
                    if e.fn == 'list.append':
                        vals.append(e.a[0])
                        continue
                    if e.fn not in ('list.extend', 'list.+='):
                        raise Unk
                    ps = r.shape(b, e.a[0])
                    if ps[0] == 'tuple':
                        vals += ps[1]
                    elif ps[0] == 'list' and all(x[0] == 'one' for x in ps[1]):
                        vals += [x[1] for x in ps[1]]
                    else:
                        raise Unk
            except Unk:
                c.unsure('how entries are added')
                continue
            lf = nt(vals[0], 'mst.Leaf') if vals else None
            if not vals or lf is None:
                c.ob('decode: leaf', False, r, 'an entry\'s leaf is left out, or isn\'t first', p)
                continue
            c.ob('decode: value', lf['value'] in f('v'), r, f'a leaf\'s value is {show(lf["value"])[:80]}', p)
            parts = joined(lf['key'])
            lk = parts[0][1] if parts[0][0] == 'item' and parts[0][2][0] == 'slice' else None
            if len(parts) != 2 or lk is None or lk[0] != 'lv':
                c.unsure(f'a leaf\'s key: {show(lf["key"])[:80]}')
            else:
                sl = parts[0][2]
                dec = parts[1]
                d = dict(dec[2]) if dec[0] == 'call' and last(dec[1]) in ('decode', 'str') else {}
                c.ob('decode: key', sl[1] in (NONE, K(0)) and sl[2] in f('p') and sl[3] == NONE and d.get('self', d.get(0)) in f('k'), r,
                     f'a leaf\'s key is {show(lf["key"])[:120]}', p)
                c.ob('decode: previous', init.get(lk) == K('') and after.get(lk) == lf['key'], r,
                     f'the previous key becomes {show(after.get(lk, lk))[:80]}', p)
            for st in r.cases(b):
                there = next((x for t in f('t') for x in (r.truth(st, t), None if r.isnone(st, t) is None else not r.isnone(st, t))
                              if x is not None), None)
                if len(vals) == 1:
                    c.ob('decode: right', there is False, r, 'leaves out a leaf\'s right subtree', p)
                elif len(vals) == 2:
                    ptr = tree(b.st, st, vals[1])
                    c.ob('decode: right', ptr in f('t') and there is True, r, f'the subtree on a leaf\'s right is {show(ptr or NONE)[:60]}', p)
                else:
                    c.ob('decode: right', False, r, 'an entry becomes more than a leaf and a subtree', p)

    c.rule('M03.fields', 'encoded nodes and entries have the standard\'s fields')
    for name, want in (('Data', ['l', 'e']), ('Entry', ['p', 'k', 'v', 't'])):
        cl = c.prog.lookup(f'arroba.mst.{name}')
        got = list(cl.fields) if cl is not None and getattr(cl, 'fields', None) else None
        if got is None:
            c.unsure(f'{name}\'s fields')
        else:
            c.ob(f'mst.{name}', sorted(got) == sorted(want), None, f'{name} has {got}')


@rules('M03')
def m03_zeros(c):
    c.rule('M03.layer', 'a key\'s layer is half of the number of leading zero bits of its SHA-256 hash')
    r = c.run('arroba.mst.leading_zeros_on_hash')
    enc = ('call', '?.encode', (('self', KEY),), None)
    inst = 'leading_zeros_on_hash'
    c.some(f'{inst} returns', r.returns, 'never returns')

    def digest(p, t):
        """Whether t is the key's digest: True, False or None."""
        if t[0] != 'call' or last(t[1]) != 'digest':
            return None
        h = dict(t[2]).get('self')
        if h is None or h[0] != 'call':
            return None
        if not h[1].startswith('hashlib.'):
            return None
        if h[1] != 'hashlib.sha256':
            return False
        x = dict(h[2]).get(0)
        if x == KEY:
            return True
        if x is not None and x[0] == 'call' and last(x[1]) == 'encode' and dict(x[2]).get('self') == KEY:
            codec = dict(x[2]).get(0)
            return codec is None or cval(codec) in ('utf-8', 'ascii', 'utf8', 'UTF-8', 'latin-1')
        return False

    def lvs(t):
        return {x for x in subterms(t) if x[0] == 'lv'}

    loops = {}
    for p in r.returns:
        t = p.value
        xs = lvs(t)
        if len(xs) != 1:
            if is_const(t):
                c.ob(inst, False, r, f'returns {show(t)}', p)
            else:
                c.unsure(f'{inst} returns {show(t)[:80]}')
            return
        x = next(iter(xs))
        lp = r.it.loops[x[1]]
        it = inner(lp.iter) if lp.iter is not None else None
        if it is None or digest(p, it) is None:
            part = it is not None and (it[0] == 'item' and digest(p, it[1]) or it[0] == 'call' and last(it[1]) in ('reversed', 'sorted')
                                       and digest(p, dict(it[2]).get(0, NONE)))
            if part:
                c.ob(f'{inst}: digest', False, r, f'counts over {show(it)[:80]}', p)
            else:
                c.unsure('what the count goes over')
            return
        c.ob(f'{inst}: digest', digest(p, it), r, 'doesn\'t count the zeros of the key\'s SHA-256 digest, from its first byte', p)
        loops.setdefault(x, []).append(p)
    for lv, mine in loops.items():
        lp = r.it.loops[lv[1]]
        el = ('elemof', inner(lp.iter), lv[1])
        init = inits(lp).get(lv)
        c.ob(f'{inst}: start', init == K(0), r, f'counts from {show(init or NONE)}')
        for byte in range(256):
            want = (8 - byte.bit_length()) // 2
            got = set()
            for b, after in carries(c, lp):
                if fits(r, b, el, byte):
                    got.add(('goes on', fold(after.get(lv, lv), {lv: 0, el: byte})))
            for p in mine:
                if any(e.kind == 'loop' and e.x is lp for e in p.events):
                    continue      # after the last byte
                if fits(r, p, el, byte):
                    got.add(('ends', fold(p.value, {lv: 0, el: byte})))
            if any(x is None for _, x in got):
                c.unsure(f'{inst}: what a byte {byte:#04x} adds')
                continue
            ok = got == {('goes on' if byte == 0 else 'ends', want)}
            c.ob(f'{inst}: byte {byte:#04x}', ok, r, f'a byte {byte:#04x} adds ' + (
                ' or '.join(f'{k} and {x}' for k, x in sorted(got, key=str)) or 'nothing') + f', not {want}')
        for p in mine:
            if any(e.kind == 'loop' and e.x is lp for e in p.events):
                k = fold(p.value, {lv: 0})
                if k is None:
                    c.unsure(f'{inst}: what comes after the last byte')
                c.ob(f'{inst}: end', k in (None, 0), r, 'adds to the count after the last byte', p)


def fold(t, env):
    """The term's value, with these terms' values, if it only does arithmetic on them."""
    if t in env:
        return env[t]
    if t[0] == 'const':
        x = cval(t)
        return x if isinstance(x, int) else None
    if t[0] == 'sum':
        tot = t[2]
        for x, k in t[1]:
            v = fold(x, env)
            if v is None:
                return None
            tot += v * k
        return tot
    if t[0] == 'not':
        v = fold(t[1], env)
        return None if v is None else int(not v)
    if t[0] in ('bin', 'cmp'):
        f = FOLD.get(t[1])
        a, b = fold(t[2], env), fold(t[3], env)
        if f is None or a is None or b is None:
            return None
        try:
            return int(f(a, b))
        except (ArithmeticError, ValueError):
            return None
    if t[0] == 'call':
        d = dict(t[2])
        if last(t[1]) == 'bit_length' and 'self' in d:
            v = fold(d['self'], env)
            return None if v is None else int(v).bit_length()
        args = [fold(x, env) for k, x in t[2] if isinstance(k, int)]
        f = {'builtins.int': int, 'builtins.bool': int, 'builtins.min': min, 'builtins.max': max, 'builtins.abs': abs}.get(t[1])
        if f and len(args) == len(t[2]) and args and None not in args:
            return int(f(*args)) if f in (min, max) and len(args) > 1 or len(args) == 1 and f not in (min, max) else None
    return None


FOLD = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod, '>>': operator.rshift,
        '<<': operator.lshift, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<': operator.lt, '<=': operator.le,
        '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def fits(r, at, el, byte):
    """Can this partition be of this byte?"""
    if r.truth(at, el) not in (None, byte != 0):
        return False
    return any(r.it.assume(st, r.it.lin_atom(el, K(byte), '=='), True) is not None for st in r.cases(at))
