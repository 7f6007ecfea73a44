"""Timestamp identifiers: their clock, their encoding and their decoding."""
import ast
from .common import *
from .trees import Unk, last
from .trees_walk import attempt
from .signatures import args, arg, called, flat

UTIL = 'arroba.util'
CHARS = '234567abcdefghijklmnopqrstuvwxyz'
LAST = 'arroba.util._tid_ts_last'


def const_of(c, r, t):
    """The value of a module-level constant, as a term."""
    if t[0] in ('glob', 'gv'):
        mod, _, name = t[1].rpartition('.')
        m = c.prog.modules.get(mod)
        if m and len(m.assigns.get(name, ())) == 1:
            return const_of(c, r, r.it.default(m, m.assigns[name][0]))
    if t[0] == 'call':
        return ('call', t[1], tuple((k, const_of(c, r, v) if isinstance(v, tuple) else v) for k, v in t[2]), t[3])
    return t


@rules('U02', explanation=(
    'Abstract interpretation of the functions that make and read timestamp identifiers. The number that each identifier is made from is compared with the '
    'last one on every partition, inside the lock; the loops that encode and decode are reduced to one step, whose digits, base and order are compared. Nothing is executed.'),
    assumptions=('numbers are at least 0 and less than 2**55, clock ids are at least 0 and less than 32',
                 'str.rjust, ljust and join behave as Python documents'))
def u02_clock(c):
    c.rule('U02.increase', 'each generated identifier\'s number is larger than the last one, which it replaces in the same critical section')
    r = c.run(f'{UTIL}.next_tid')
    c.some('next_tid returns', r.returns, 'never returns')
    for p in r.paths:
        attempt(c, 'next_tid', ticked, c, r, p)
    # other writers
    own = r.it.funcs_seen
    for m in c.prog.modules.values():
        if '.tests' in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == '_tid_ts_last' and isinstance(n.ctx, (ast.Store, ast.Del)):
                c.unsure(f'what {m.rel}:{n.lineno} does to the last timestamp')
    for f in c.prog.all_funcs():
        if f.mod.name == UTIL and f not in own and f.full not in {getattr(x, 'full', x) for x in own}:
            if any(isinstance(n, ast.Global) and '_tid_ts_last' in n.names for n in ast.walk(f.node)):
                rf = c.run(f.full)
                for p in rf.paths:
                    attempt(c, f.full, stored, c, rf, p, None)


def locked(ev, lock_ok):
    return [x for x in ev.ctx if x[0] == 'with' and lock_ok(x[1])]


def ticked(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'next_tid: {what}', ok, e, msg, p)
    if p.kind == 'raise':
        return
    t = p.value
    if not called(t, 'int_to_tid'):
        raise Unk(f'which number the identifier has: {show(t)[:60]}')
    n = arg(t, 0, 'num')
    ob('clock id', arg(t, 1, 'clock_id', default=NONE) in (NONE, ('glob', 'arroba.util._clockid')), f'uses the clock id {show(arg(t, 1, "clock_id"))[:40]}')
    stored(c, r, p, n)


def stored(c, r, p, n):
    ob = lambda what, ok, msg, e=r: c.ob(f'last timestamp: {what}', ok, e, msg, p)
    sets = [e for e in p.events if e.kind == 'setglob']
    state = {x for x in subterms(n or NONE) if x[0] in ('gv', 'attr')} | {x for k in p.st.facts.d for x in subterms(k) if x[0] in ('gv', 'attr')}
    if not sets:
        if n is None:
            return
        ob('kept', bool(state) or any(x[0] == 'call' and fn_is(x[1], 'next', 'allocate') for x in subterms(n)), 'doesn\'t depend on the last identifier')
        if not any(x[0] == 'gv' for x in state):
            raise Unk('where it keeps the last timestamp')
        ob('stored', False, 'doesn\'t keep its timestamp')
        return
    if len(sets) != 1 or sets[0].fn != LAST:
        raise Unk('where it keeps the last timestamp')
    ev = sets[0]
    new = ev.a['value']
    olds = {x for x in subterms(new) if x[0] == 'gv' and x[1] == LAST} | {x for k in p.st.facts.d for x in subterms(k) if x[0] == 'gv' and x[1] == LAST}
    if n is not None:
        ob('same', linear(n) == linear(new), f'makes the identifier of {show(n)[:60]}, not of the timestamp that it keeps')
    if not olds:
        ob('larger', False, 'doesn\'t depend on the last timestamp', ev)
        return
    if len(olds) != 1:
        ob('once', False, 'reads the last timestamp in different critical sections', ev)
        return
    old = next(iter(olds))
    ob('larger', larger(r, p, ev, new, old), f'the next timestamp may not be larger than the last: {show(new)[:60]}', ev)
    locks = [x[1] for x in ev.ctx if x[0] == 'with' and x[1][0] == 'glob' and called(const_of(c, r, x[1]), 'Lock', 'RLock')]
    ob('shared lock', not any(x[0] == 'with' and called(x[1], 'Lock', 'RLock') for x in ev.ctx), 'makes a lock of its own', ev)
    if not locks and any(x[0] == 'with' for x in ev.ctx):
        raise Unk('which lock it holds')
    acquired = [e for e in p.events if e.kind == 'call' and last(e.fn) == 'acquire']
    if not locks and acquired:
        raise Unk('whether it holds a lock')
    ob('locked', bool(locks), 'keeps its timestamp outside of a lock', ev)
    if not locks:
        return
    i = next(i for i, e in enumerate(p.events) if e is ev)
    enter = [e.epoch + (e.kind == 'call') for e in p.events[:i] if e.kind == 'enter' and e.a.get('ctx') == locks[-1] or
             e.kind == 'call' and last(e.fn) == 'acquire' and e.a.get('self') == locks[-1]]
    ends = [e for e in p.events[:i] if e.kind == 'exit' and e.a.get('ctx') == locks[-1] or
            e.kind == 'call' and last(e.fn) == 'release' and e.a.get('self') == locks[-1]]
    ob('same lock', bool(enter) and old[2] >= enter[-1] and len(enter) == len(ends) + 1, 'reads the last timestamp outside of the lock', ev)
    if n is not None:
        ob('time', any(called(x, 'time_ns', 'time.time', 'util.now') for y in (n, *p.st.facts.d) for x in subterms(y)), 'doesn\'t depend on the time', ev)
        now = [x for x in subterms(n) if called(x, 'time_ns')]
        for x in now:
            units = {y for y in subterms(n) if y[0] == 'bin' and y[1] in ('//', '/') and y[2] == x}
            ob('microseconds', units == {('bin', '//', x, K(1000))}, 'isn\'t in microseconds', ev)


def larger(r, p, ev, new, old):
    if called(new, 'builtins.max') and len(new[2]) > 1:
        return any(larger(r, p, ev, x, old) for _, x in new[2])
    v, k = linear(mk_bin('-', new, old))
    if not v:
        return k >= 1
    return r.cmp(p, '>', new, old) is True or r.cmp(ev, '>', new, old) is True or \
        r.cmp(ev, '>=', new, mk_bin('+', old, K(1))) is True


@rules('U02')
def u02_format(c):
    c.rule('U02.format', 'an identifier is 13 characters: its number padded on the left, then its clock id in two')
    r = c.run(f'{UTIL}.int_to_tid')
    c.some('int_to_tid returns', r.returns, 'never returns')
    for p in r.paths:
        attempt(c, 'int_to_tid', formatted, c, r, p)
    m = c.prog.modules.get(UTIL)
    init = const_of(c, r, ('glob', f'{UTIL}._clockid'))
    if called(init, 'random.randint'):
        a, b = cval(arg(init, 0, 'a')), cval(arg(init, 1, 'b'))
        if isinstance(a, int) and isinstance(b, int):
            c.ob('clock id', 0 <= a <= b < 32, r, f'the clock id is between {a} and {b}')
            return
    if called(init, 'random.randrange', 'secrets.randbelow'):
        b = cval(arg(init, len(init[2]) - 1, default=NONE))
        if isinstance(b, int):
            c.ob('clock id', 0 < b <= 32, r, f'the clock id is less than {b}')
            return
    c.unsure('which clock ids there are')


def parts(t):
    """[(number, width, side)] of an identifier's concatenated parts, and the whole's padding."""
    if t[0] == 'call' and last(t[1]) in ('rjust', 'ljust', 'zfill'):
        d = args(t)
        fill = d.get(1, K(' ')) if last(t[1]) != 'zfill' else K('0')
        w = cval(d.get(0, NONE))
        inner_ = parts(d['self'])
        if not isinstance(w, int):
            raise Unk(f'how wide {show(t)[:60]} is')
        return inner_[0], inner_[1] + [(last(t[1]), w, fill)]
    return t, []


def formatted(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'int_to_tid: {what}', ok, e, msg, p)
    if p.kind == 'raise':
        return
    whole, pads = parts(p.value)
    ps = flat(whole)
    if len(ps) != 2:
        raise Unk(f'which parts the identifier has: {show(whole)[:80]}')
    (n, npads), (k, kpads) = (parts(x) for x in ps)
    if called(n, 's32encode') and called(k, 's32encode'):
        num, clock = arg(n, 0, 'num'), arg(k, 0, 'num')
    else:
        raise Unk(f'which numbers the identifier has: {show(whole)[:80]}')
    ob('number', num == param('num'), f'encodes {show(num)[:40]}, not the number' if num != param('clock_id') else 'has the clock id first')
    default = ('glob', f'{UTIL}._clockid')
    for st in r.cases(p):
        given = r.isnone(st, param('clock_id'))
        ob('clock id', clock == (param('clock_id') if given is False else default if given is True else None)
           or clock == param('clock_id') and r.isnone(st, clock) is not True, f'has the clock id {show(clock)[:40]}' + (' even if another one is given' if given is None else ''))
    for _, _, fill in pads + npads + kpads:
        ob('padding', fill == K(CHARS[0]), f'pads with {show(fill)}')
    ob('clock width', kpads and kpads[-1][1] == 2 and len(kpads) == 1, 'doesn\'t write the clock id in two characters')
    ob('number side', all(x[0] in ('rjust', 'zfill') for x in pads + npads), 'pads the number on the right')
    known = [x for k in p.st.facts.d for x in subterms(k) if called(x, 'builtins.len')]
    size = [(x, r.cmp(p, '<=', x, K(13)), r.cmp(p, '==', x, K(13)), r.cmp(p, '<=', x, K(11))) for x in known]
    low = pads and max(x[1] for x in pads) == 13 or npads and npads[-1][1] == 11 or any(e for x, l, e, h in size if arg(x, 0) == p.value)
    high = any((l and parts(arg(x, 0))[0] == whole) or (h and parts(arg(x, 0))[0] == n) for x, l, e, h in size)
    ob('length', bool(low), 'may be shorter than 13 characters')
    ob('length', bool(high), 'may be longer than 13 characters')


@rules('U02')
def u02_digits(c):
    c.rule('U02.digits', 'a number is encoded in base 32, most significant digit first, in the sortable alphabet, and decoded the same way')
    r = c.run(f'{UTIL}.s32encode')
    c.some('s32encode returns', r.returns, 'never returns')
    attempt(c, 's32encode', encoded, c, r)
    r = c.run(f'{UTIL}.s32decode')
    c.some('s32decode returns', r.returns, 'never returns')
    attempt(c, 's32decode', decoded, c, r)


def power(t):
    n = cval(t)
    return n if isinstance(n, int) else None


def digit(t):
    """(number, base) of a least significant digit."""
    if t[0] == 'bin' and power(t[3]) is not None:
        if t[1] == '%':
            return t[2], power(t[3])
        if t[1] == '&' and not (power(t[3]) & (power(t[3]) + 1)):
            return t[2], power(t[3]) + 1
        if t[1] == '&':
            return t[2], -1
    if t[0] == 'item' and t[2] == K(1) and called(t[1], 'divmod'):
        return arg(t[1], 0), power(arg(t[1], 1))
    return None


def rest(t):
    """(number, base) of a number without its least significant digit."""
    if t[0] == 'bin' and power(t[3]) is not None:
        if t[1] == '//':
            return t[2], power(t[3])
        if t[1] == '>>':
            return t[2], 2 ** power(t[3])
    if t[0] == 'item' and t[2] == K(0) and called(t[1], 'divmod'):
        return arg(t[1], 0), power(arg(t[1], 1))
    return None


def symbol(t):
    """(alphabet, index) of a character."""
    if t[0] == 'item' and t[1][0] == 'const' and isinstance(t[1][2], str):
        return t[1][2], t[2]
    return None


def encoded(c, r):
    loops = [lp for lp in r.it.loops.values() if lp.bodies]
    if len(loops) != 1 or loops[0].kind != 'while':
        raise Unk('how it encodes numbers')
    lp = loops[0]
    nums = [(k, vals) for k, (init, vals) in lp.changed.items() if init == param('num')]
    if len(nums) != 1:
        raise Unk('how it encodes numbers')
    key, vals = nums[0]
    backs = back_bodies(lp)
    lvs = [x for b in lp.bodies for k in b.facts.d for x in subterms(k) if x[0] == 'lv'] + [x for v in vals for x in subterms(v) if x[0] == 'lv']
    lvs = {x for x in lvs if x[1] == lp.lid and (rest_of(vals, x))}
    if len(lvs) != 1:
        raise Unk('which number is left')
    n = next(iter(lvs))
    for v in vals:
        if v != n:
            c.ob('s32encode: base', rest(v) == (n, 32), r, f'goes on with {show(v)[:60]}')
    order = None
    for b in backs:
        chars, side = [], None
        for e in b.events:
            if e.kind == 'mutate' and symbol(e.a.get(1, e.a.get(0, NONE))):
                chars.append((symbol(e.a.get(1, e.a.get(0))), e))
                m = last(e.fn)
                side = {'append': 'back', 'appendleft': 'front'}.get(m) or ('front' if m == 'insert' and e.a.get(0) == K(0) else None)
        for k, (init, vs) in lp.changed.items():
            if k == key or k[0] == 'heap':
                continue
            for v in vs:
                ps = flat(v) if v[0] in ('fmt', 'bin') else []
                sy = [symbol(x) for x in ps]
                if len(ps) == 2 and sum(bool(x) for x in sy) == 1:
                    chars.append((next(x for x in sy if x), b.events[0] if b.events else r))
                    side = 'front' if sy[0] else 'back'
        if len(chars) != 1 or side is None:
            raise Unk('which digit it adds')
        (alpha, ix), e = chars[0]
        c.ob('s32encode: alphabet', alpha == CHARS, r, f'uses the alphabet {alpha!r}')
        c.ob('s32encode: digit', digit(ix) == (n, 32), r, f'adds the digit {show(ix)[:60]}')
        order = order or side
        if order != side:
            raise Unk('in which order it adds digits')
    if order is None:
        raise Unk('which digits it adds')
    for p in r.returns:
        flips, t = 0, p.value
        if is_const(t):
            c.ob('s32encode: zero', t == K('') and r.cmp(p, '<=', param('num'), K(0)) is not False, r, f'returns {show(t)}', p)
            continue
        while True:
            if t[0] == 'call' and last(t[1]) == 'join':
                c.ob('s32encode: joined', args(t).get('self') == K(''), r, 'puts something between digits', p)
                t = args(t)[0]
            elif t[0] == 'call' and last(t[1]) in ('reversed', 'list', 'tuple', 'str'):
                flips += last(t[1]) == 'reversed'
                t = arg(t, 0)
            elif t[0] == 'item' and t[2] == ('slice', NONE, NONE, K(-1)):
                flips += 1
                t = t[1]
            else:
                break
        flips += sum(e.kind == 'mutate' and last(e.fn) == 'reverse' for e in p.events)
        if t[0] == 'item':
            raise Unk('which digits it returns')
        c.ob('s32encode: order', (order == 'front') is (flips % 2 == 0), r, 'the least significant digit comes first', p)
        c.ob('s32encode: all', r.cmp(p, '<=', n, K(0)) is True or r.cmp(p, '==', n, K(0)) is True or r.truth(p, n) is False, r, 'leaves digits out', p)


def rest_of(vals, x):
    return any((rest(v) or (None,))[0] == x for v in vals)


def decoded(c, r):
    loops = [lp for lp in r.it.loops.values() if lp.bodies]
    if len(loops) != 1 or loops[0].kind != 'for':
        raise Unk('how it decodes numbers')
    lp = loops[0]
    back = called(lp.iter, 'reversed') and arg(lp.iter, 0) == param('val') or lp.iter == ('item', param('val'), ('slice', NONE, NONE, K(-1)))
    if lp.iter != param('val') and not back:
        raise Unk(f'in which order it decodes digits: {show(lp.iter)[:60]}')
    chs = [('elemof', param('val'), lp.lid), ('elemof', lp.iter, lp.lid)]
    acc = []
    for k, (init, vals) in lp.changed.items():
        for v in vals:
            for x in subterms(v):
                if x[0] == 'call' and last(x[1]) in ('index', 'find', 'rindex', 'rfind') and args(x).get(0) in chs:
                    acc.append((k, init, v, x))
    if not acc:
        raise Unk('how it decodes digits')
    for k, init, v, ix in acc:
        if v == ix:
            continue
        alpha = args(ix)['self']
        c.ob('s32decode: alphabet', alpha == K(CHARS), r, f'uses the alphabet {show(alpha)[:60]}')
        c.ob('s32decode: invalid', last(ix[1]) in ('index', 'rindex'), r, 'accepts characters outside of the alphabet')
        c.ob('s32decode: start', init == K(0), r, f'starts at {show(init)}')
        vec, k0 = {}, 0
        todo = [v]
        if v[0] == 'bin' and v[1] == '|':
            todo = list(v[2:])
        for x in todo:
            if x[0] == 'bin' and x[1] == '+':
                todo += list(x[2:])
                continue
            y, n = x, 1
            if y[0] == 'bin' and y[1] == '*':
                (y, n) = (y[2], power(y[3])) if power(y[3]) is not None else (y[3], power(y[2]))
            elif y[0] == 'bin' and y[1] == '<<' and power(y[3]) is not None:
                y, n = y[2], 2 ** power(y[3])
            lv_, ll = linear(y)
            for z, m in lv_.items():
                vec[z] = vec.get(z, 0) + m * n
            k0 += ll * n
        lvs = [z for z in vec if z[0] == 'lv']
        if set(vec) - {ix} != set(lvs) or len(lvs) != 1:
            raise Unk(f'how it decodes digits: {show(v)[:60]}')
        if back and vec != {ix: 1, lvs[0]: 32}:
            raise Unk(f'how it decodes digits: {show(v)[:60]}')
        c.ob('s32decode: order', not back, r, 'decodes the least significant digit first')
        c.ob('s32decode: base', vec == {ix: 1, lvs[0]: 32} and k0 == 0, r, f'goes on with {show(v)[:60]}')
        for p in r.returns:
            c.ob('s32decode: result', p.value == lvs[0] or is_const(p.value), r, f'returns {show(p.value)[:60]}', p)


@rules('U02')
def u02_decode(c):
    c.rule('U02.decode', 'decoding an identifier rejects anything but 13 characters, and returns its number, without its clock id')
    r = c.run(f'{UTIL}.tid_to_int')
    c.some('tid_to_int returns', r.returns, 'never returns')
    c.some('tid_to_int rejects', r.raises, 'never rejects anything')
    for p in r.returns:
        attempt(c, 'tid_to_int', number, c, r, p)


def number(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'tid_to_int: {what}', ok, e, msg, p)
    tid_ = param('tid')
    size = ('call', 'builtins.len', ((0, tid_),), None)
    ob('length', r.cmp(p, '==', size, K(13)) is True, 'decodes identifiers that aren\'t 13 characters')
    t = p.value
    if not called(t, 's32decode'):
        raise Unk(f'how it decodes: {show(t)[:60]}')
    t = arg(t, 0, 'val')
    cut = None
    while True:
        if t[0] == 'item' and t[2][0] == 'slice' and cut is None:
            cut, t = t[2], t[1]
        elif t[0] == 'call' and last(t[1]) == 'replace' and args(t).get(0) == K('-') and args(t).get(1) == K(''):
            t = args(t)['self']
        elif t[0] == 'call' and last(t[1]) in ('decode', 'str'):
            t = arg(t, 'self', 0)
        else:
            break
    ob('source', t == tid_, f'decodes {show(t)[:60]}')
    ob('clock id', cut is not None and cut[1] in (NONE, K(0)) and cut[2] in (K(-2), K(11)) and cut[3] in (NONE, K(1)), 'decodes more or less than the number')


@rules('U02')
def u02_dates(c):
    c.rule('U02.dates', 'dates are encoded as their microseconds since the epoch, exactly, and decoded from them')
    r = c.run(f'{UTIL}.datetime_to_tid')
    for p in r.returns:
        attempt(c, 'datetime_to_tid', to_tid, c, r, p)
    r = c.run(f'{UTIL}.tid_to_datetime')
    for p in r.returns:
        attempt(c, 'tid_to_datetime', from_tid, c, r, p)


def is_epoch(c, r, t):
    t = const_of(c, r, t)
    if called(t, 'datetime.datetime'):
        d = args(t)
        return [cval(d.get(i, d.get(n, K(v)))) for i, (n, v) in enumerate((('year', 0), ('month', 0), ('day', 0), ('hour', 0), ('minute', 0), ('second', 0), ('microsecond', 0)))] == [1970, 1, 1, 0, 0, 0, 0]
    if called(t, 'fromtimestamp'):
        return arg(t, 0) == K(0)
    raise Unk(f'which time {show(t)[:60]} is')


def is_microsecond(c, r, t):
    t = const_of(c, r, t)
    if called(t, 'timedelta'):
        return [(k, cval(v)) for k, v in t[2]] == [('microseconds', 1)]
    raise Unk(f'how long {show(t)[:60]} is')


def to_tid(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'datetime_to_tid: {what}', ok, e, msg, p)
    if not called(p.value, 'int_to_tid'):
        raise Unk(f'which number it encodes: {show(p.value)[:60]}')
    ob('clock id', arg(p.value, 1, 'clock_id', default=NONE) == param('clock_id'), 'drops the given clock id')
    t = arg(p.value, 0, 'num')
    if called(t, 'builtins.int') and any(x[0] == 'call' and last(x[1]) in ('timestamp', 'total_seconds') for x in subterms(t)):
        ob('exact', False, 'cuts floating point numbers, which may lose a microsecond')
    if t[0] != 'bin' or t[1] != '//':
        raise Unk(f'which number it encodes: {show(t)[:60]}')
    ob('unit', is_microsecond(c, r, t[3]), f'encodes {show(const_of(c, r, t[3]))[:60]}s')
    v, k = linear(t[2])
    dts = [x for x in v if any(y == param('dt') for y in subterms(x))]
    eps = [x for x in v if x not in dts]
    if len(dts) != 1 or len(eps) != 1 or k:
        raise Unk(f'which number it encodes: {show(t)[:60]}')
    ob('since', v[dts[0]] == 1 and v[eps[0]] == -1 and is_epoch(c, r, eps[0]), f'encodes the time since {show(const_of(c, r, eps[0]))[:60]}')
    d = dts[0]
    if d[0] == 'call' and last(d[1]) == 'astimezone':
        d = args(d)['self']
    elif d[0] == 'call' and last(d[1]) == 'replace':
        ob('time zone', False, 'changes the date\'s time zone')
        d = args(d)['self']
    ob('date', d == param('dt'), f'encodes {show(d)[:60]}')


def from_tid(c, r, p):
    ob = lambda what, ok, msg, e=r: c.ob(f'tid_to_datetime: {what}', ok, e, msg, p)
    t = p.value
    tz = [x for x in subterms(t) if called(x, 'fromtimestamp', 'utcfromtimestamp')]
    if t[0] == 'bin' and t[1] == '+':
        a, b = t[2:]
    else:
        v, k = linear(t)
        ob('added', set(v.values()) != {1, -1}, f'returns {show(t)[:60]}')
        if k or len(v) != 2 or set(v.values()) != {1}:
            raise Unk(f'which date it is: {show(t)[:60]}')
        a, b = v
    if any(called(x, 'tid_to_int') for x in subterms(a)):
        a, b = b, a
    ob('since', is_epoch(c, r, a), f'starts at {show(const_of(c, r, a))[:60]}')
    if called(b, 'timedelta'):
        d = args(b)
        ob('unit', list(d) == ['microseconds'], f'adds {show(b)[:60]}')
        n = d.get('microseconds', NONE)
    elif b[0] == 'bin' and b[1] == '*':
        n, u = b[2:] if any(called(x, 'tid_to_int') for x in subterms(b[2])) else b[:1:-1]
        ob('unit', is_microsecond(c, r, u), f'adds {show(b)[:60]}')
    else:
        raise Unk(f'which date it is: {show(t)[:60]}')
    ob('number', called(n, 'tid_to_int') and arg(n, 0, 'tid') == param('tid'), f'decodes {show(n)[:60]}')
