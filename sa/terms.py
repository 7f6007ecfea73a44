"""Value-number terms: the abstract value domain.

A term is an immutable tuple naming how a value was computed (Herbrand value
numbering). Equal terms denote equal values on the same path. Normalising
constructors make different spellings of one computation equal: f-strings,
concatenation, ``join`` and ``%``; integer sums; positional and keyword
arguments; comprehensions and loops that append.
"""

_intern = {}


def tid(t):
    i = _intern.get(t)
    if i is None:
        i = _intern[t] = len(_intern)
    return i


def K(v):
    return ('const', type(v).__name__, v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def is_const(t):
    return t[0] == 'const'


def cval(t, default=...):
    return t[2] if t[0] == 'const' else default


def is_num(t):
    return t[0] == 'const' and t[1] in ('int', 'float')


def linear(t):
    """Returns ({term: coefficient}, constant)."""
    k = t[0]
    if is_num(t):
        return {}, t[2]
    if k == 'sum':
        return dict(t[1]), t[2]
    if k == 'bin' and t[1] == '+':
        a, ca = linear(t[2])
        b, cb = linear(t[3])
        return _addv(a, b, 1), ca + cb
    if k == 'bin' and t[1] == '*':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if is_num(x):
                a, ca = linear(y)
                return {k2: v * x[2] for k2, v in a.items()}, ca * x[2]
    return {t: 1}, 0


def _addv(a, b, sign):
    out = dict(a)
    for t, c in b.items():
        out[t] = out.get(t, 0) + sign * c
        if out[t] == 0:
            del out[t]
    return out


def mk_sum(vec, const):
    if not vec:
        return K(const)
    if const == 0 and len(vec) == 1:
        (t, c), = vec.items()
        if c == 1:
            return t
    return ('sum', tuple(sorted(vec.items(), key=lambda kv: tid(kv[0]))), const)


def is_strish(t):
    return (t[0] == 'fmt' or (t[0] == 'const' and t[1] == 'str')
            or (t[0] == 'call' and t[1] in ('builtins.str', 'arroba.util.int_to_tid')))


def mk_fmt(parts):
    out = []
    for p in parts:
        if p[0] == 'fmt':
            sub = p[1]
        else:
            sub = (p,)
        for s in sub:
            if s[0] == 'const' and s[1] in ('str', 'int'):
                s = K(str(s[2]))
                if s[2] == '':
                    continue
                if out and out[-1][0] == 'const' and out[-1][1] == 'str':
                    out[-1] = K(out[-1][2] + s[2])
                    continue
            elif s[0] == 'call' and s[1] == 'builtins.str' and len(s[2]) == 1:
                s = s[2][0][1]
            out.append(s)
    if not out:
        return K('')
    if len(out) == 1 and out[0][0] == 'const':
        return out[0]
    return ('fmt', tuple(out))


def mk_bin(op, a, b):
    ca, cb = cval(a), cval(b)
    if ca is not ... and cb is not ... and op in ('+', '-', '*', '//', '%', '|', '&', '<<', '**', '/'):
        try:
            v = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb,
                 '//': lambda: ca // cb, '%': lambda: ca % cb, '|': lambda: ca | cb,
                 '&': lambda: ca & cb, '<<': lambda: ca << cb, '**': lambda: ca ** cb,
                 '/': lambda: ca / cb}[op]()
            if isinstance(v, (int, float, str, bytes, tuple)) and (
                    not isinstance(v, int) or abs(v) < 1 << 600):
                return K(v)
        except Exception:
            pass
    if op == '+':
        if is_strish(a) or is_strish(b):
            return mk_fmt([a, b])
        if is_num(a) or is_num(b) or a[0] == 'sum' or b[0] == 'sum':
            va, xa = linear(a)
            vb, xb = linear(b)
            return mk_sum(_addv(va, vb, 1), xa + xb)
        if a[0] == 'tuple' and b[0] == 'tuple':
            return ('tuple', a[1] + b[1])
    if op == '-':
        va, xa = linear(a)
        vb, xb = linear(b)
        return mk_sum(_addv(va, vb, -1), xa - xb)
    if op == '*' and (is_num(a) or is_num(b)):
        if is_num(b):
            a, b = b, a
        if b[0] == 'sum':
            return mk_sum({t: c * a[2] for t, c in b[1]}, b[2] * a[2])
        return ('bin', '*', a, b)
    if op == '*':
        a, b = sorted((a, b), key=tid)
    return ('bin', op, a, b)


def subterms(t):
    """Yields t and all the terms inside it."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] != 'const':
                yield x
            elif x and x[0] == 'const':
                yield x
                continue
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, fn):
    r = fn(t)
    if r is not None:
        return r
    if isinstance(t, tuple) and t and t[0] != 'const':
        return tuple(subst(x, fn) if isinstance(x, tuple) else x for x in t)
    return t


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth > 8:
        return '…'
    d = depth + 1
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    try:
        if k == 'const':
            return repr(t[2])
        if k == 'param':
            return t[1]
        if k == 'glob':
            return t[1].replace('arroba.', '')
        if k == 'gv':
            return t[1].replace('arroba.', '') + f'@{t[2]}'
        if k == 'attr':
            return f'{show(t[1], d)}.{t[2]}'
        if k == 'item':
            return f'{show(t[1], d)}[{show(t[2], d)}]'
        if k == 'get':
            return f'{show(t[1], d)}.get({show(t[2], d)})'
        if k == 'slice':
            return ':'.join('' if x == NONE else show(x, d) for x in t[1:3])
        if k == 'call':
            args = ', '.join((f'{a}=' if isinstance(a, str) else '') + show(v, d) for a, v in t[2])
            return f'{t[1].replace("arroba.", "")}({args})'
        if k == 'sum':
            s = ' + '.join((f'{c}*' if c != 1 else '') + show(x, d) for x, c in t[1])
            return f'({s}{t[2]:+})' if t[2] else f'({s})'
        if k == 'bin':
            return f'({show(t[2], d)} {t[1]} {show(t[3], d)})'
        if k == 'fmt':
            return "f'" + ''.join(x[2] if x[0] == 'const' else '{' + show(x, d) + '}' for x in t[1]) + "'"
        if k == 'tuple':
            return '(' + ', '.join(show(x, d) for x in t[1]) + ')'
        if k == 'nt':
            return f'{t[1].rsplit(".")[-1]}(' + ', '.join(f'{f}={show(v, d)}' for f, v in t[2]) + ')'
        if k == 'obj':
            return f'<obj{t[1]}>'
        if k in ('elemof', 'keyof', 'valof'):
            return f'{k[:-2]}({show(t[1], d)})'
        if k == 'lv':
            return f'{t[2]}~loop'
        if k == 'cmp':
            return f'({show(t[2], d)} {t[1]} {show(t[3], d)})'
        if k in ('list', 'dict', 'set', 'inst'):
            return k + '{' + ', '.join(show(x, d) for x in t[1:]) + '}'
    except Exception:
        pass
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    return k + '(' + ', '.join(show(x, d) for x in t[1:]) + ')'
