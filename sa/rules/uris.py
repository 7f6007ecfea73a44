"""U09: AT URIs; U01: new keys."""
from .common import *
from ..registry import rules
from .trees import last

UTIL = 'arroba.util'
URI = param('uri')
AT = ('lit', 'at://')
SLASH = ('lit', '/')


class Text:
    """A string in pieces: literals, and opaque parts that aren't empty and have no / ? #."""
    def __init__(self, *pieces):
        out = []
        for p in pieces:
            if p[0] == 'lit':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.p = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Text) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return ''.join(x[1] if x[0] == 'lit' else '{' + ' '.join(map(str, x[1:])) + '}' for x in self.p) or "''"

    def lit(self):
        return ''.join(x[1] for x in self.p) if all(x[0] == 'lit' for x in self.p) else None

    def chars(self):
        """One item for each literal character and each opaque part."""
        return [('lit', ch) for x in self.p if x[0] == 'lit' for ch in x[1]] if self.lit() is not None else [
            y for x in self.p for y in ([('lit', ch) for ch in x[1]] if x[0] == 'lit' else [x])]

    def find(self, s, start=0):
        """The index in chars() of the first s, which must be something that opaque parts don't have."""
        ch = self.chars()
        if not any(c in '/' for c in s):
            return None
        for i in range(start, len(ch) - len(s) + 1):
            if all(a == ('lit', b) for a, b in zip(ch[i:i + len(s)], s)):
                return i
        return -1

    def starts(self, s):
        for i, b in enumerate(s):
            ch = self.chars()
            if i >= len(ch):
                return False
            if ch[i][0] != 'lit':
                return False if ch[i] == OTHER or b == '/' or s.startswith('at://') else None
            if ch[i][1] != b:
                return False
        return True

    def part(self, i, j=None):
        ch = self.chars()
        return Text(*ch[i:j])


OTHER = ('part', 'other')     # a string that doesn't start with at://
NOT_AT = ('part', 'not at://')
UNKNOWN = object()


def split(t, sep, most=-1):
    out, start, n = [], 0, 0
    while most < 0 or n < most:
        i = t.find(sep, start)
        if i is None:
            return UNKNOWN
        if i < 0:
            break
        out.append(t.part(start, i))
        start, n = i + len(sep), n + 1
    return out + [t.part(start)]


class Eval:
    """The value of a term when a parameter is a given text."""
    def __init__(self, r, p, env):
        self.r, self.p, self.env, self.early = r, p, env, False

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'const':
            return Text(('lit', t[2])) if t[1] == 'str' else t[2] if t[1] in ('int', 'bool', 'NoneType') else UNKNOWN
        if k == 'fmt':
            xs = [self(x) for x in t[1]]
            return Text(*[y for x in xs for y in x.p]) if all(isinstance(x, Text) for x in xs) else UNKNOWN
        if k == 'bin' and t[1] == '+':
            a, b = self(t[2]), self(t[3])
            if isinstance(a, Text) and isinstance(b, Text):
                return Text(*a.p, *b.p)
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            return UNKNOWN
        if k in ('tuple', 'list'):
            out = []
            for x in t[1]:
                if k == 'list':
                    kind, x = (x[0], x[1]) if x[0] in ('one', 'spread') else (None, x)
                    if kind is None:
                        return UNKNOWN
                else:
                    kind = 'one'
                    if x[0] == 'star':
                        kind, x = 'spread', x[1]
                v = self(x)
                if v is UNKNOWN:
                    return UNKNOWN
                if kind == 'spread':
                    if not isinstance(v, list):
                        return UNKNOWN
                    out += v
                else:
                    out.append(v)
            return out
        if k == 'obj':
            s = self.r.S(self.p, t)
            return self(s) if s != t else UNKNOWN
        if k == 'item':
            b = self(t[1])
            if isinstance(t[2], tuple) and t[2][0] == 'slice':
                lo, hi, step = (self(x) for x in t[2][1:])
                if not isinstance(b, (list, Text)) or not all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                    return UNKNOWN
                if isinstance(b, list):
                    return b[lo:hi:step]
                if step not in (None, 1):
                    return UNKNOWN
                if b.p == (OTHER,) and lo in (None, 0) and hi == 5:
                    return Text(NOT_AT)
                ch = b.chars()
                head = 0
                while head < len(ch) and ch[head][0] == 'lit':
                    head += 1
                if all(x is None or 0 <= x <= head for x in (lo, hi)):
                    return b.part(lo or 0, hi)
                return UNKNOWN
            i = self(t[2])
            if isinstance(b, list) and isinstance(i, int):
                return b[i] if -len(b) <= i < len(b) else UNKNOWN
            return UNKNOWN
        if k == 'attr':
            b = self(t[1])
            if isinstance(b, tuple) and b[0] == 'url' and t[2] in ('netloc', 'path', 'scheme', 'hostname'):
                u = b[1]
                if not u.starts('at://'):
                    return UNKNOWN
                rest = u.part(5)
                i = rest.find('/')
                if t[2] == 'scheme':
                    return Text(('lit', 'at'))
                if t[2] == 'path':
                    return rest.part(i) if i >= 0 else Text()
                net = rest.part(0, i) if i >= 0 else rest
                return net if t[2] == 'netloc' else Text(('changed', 'hostname', net))
            return UNKNOWN
        if k == 'call':
            return self.call(t)
        return UNKNOWN

    def call(self, t):
        d = dict(t[2])
        if fn_is(t[1], 'urllib.parse.urlparse', 'urllib.parse.urlsplit'):
            v = self(d.get(0, d.get('url', NONE)))
            return ('url', v) if isinstance(v, Text) else UNKNOWN
        if t[1] in ('builtins.all', 'builtins.any'):
            v = self(d[0])
            if not isinstance(v, list) or not all(x is None or isinstance(x, Text) for x in v):
                return UNKNOWN
            v = [x is not None and bool(x.p) for x in v]
            return all(v) if t[1].endswith('all') else any(v)
        if t[1] == 'builtins.len':
            v = self(d[0])
            return len(v) if isinstance(v, list) else UNKNOWN
        if t[1] in ('builtins.list', 'builtins.tuple') and 0 in d:
            v = self(d[0])
            return v if isinstance(v, list) else UNKNOWN
        if not t[1].startswith('?.') or 'self' not in d:
            return UNKNOWN
        s = self(d['self'])
        if not isinstance(s, Text):
            return UNKNOWN
        m = t[1][2:]
        a = self(d[0]) if 0 in d else None
        lit = a.lit() if isinstance(a, Text) else None
        if m in ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase'):
            return Text(*[('lit', getattr(x[1], m)()) if x[0] == 'lit' else ('changed', m, x) for x in s.p])
        if m == 'strip' and a is None:
            return s
        if m == 'join' and isinstance(a, list) and all(isinstance(x, Text) for x in a):
            return Text(*[y for i, x in enumerate(a) for y in (s.p if i else ()) + x.p])
        if lit is None:
            return UNKNOWN
        if m == 'startswith':
            return s.starts(lit)
        if m == 'removeprefix':
            b = s.starts(lit)
            return UNKNOWN if b is None else s.part(len(lit)) if b else s
        if m in ('strip', 'lstrip', 'rstrip'):
            ch = s.chars()
            if not set(lit) <= {'/'} and (ch and (ch[0][0] != 'lit' or ch[-1][0] != 'lit')):
                return Text(*[('changed', m, lit, x) if x[0] != 'lit' else x for x in s.p])
            while m != 'rstrip' and ch and ch[0][0] == 'lit' and ch[0][1] in lit:
                ch = ch[1:]
            while m != 'lstrip' and ch and ch[-1][0] == 'lit' and ch[-1][1] in lit:
                ch = ch[:-1]
            return Text(*ch)
        if m in ('split', 'rsplit'):
            most = self(d.get('maxsplit', d.get(1, K(-1))))
            if not isinstance(most, int):
                return UNKNOWN
            out = split(s, lit, -1)
            if out is UNKNOWN:
                return UNKNOWN
            if most >= 0 and len(out) > most + 1:
                if m == 'rsplit':
                    return UNKNOWN
                out = split(s, lit, most)
            for at, v in self.appended(t):
                if at is UNKNOWN:
                    return UNKNOWN
                out.insert(len(out) if at is None else at, v)
            return out
        if m in ('partition', 'rpartition'):
            i = s.find(lit)
            if i is None or m == 'rpartition' and len(split(s, lit)) > 2:
                return UNKNOWN
            if i < 0:
                return [s, Text(), Text()] if m == 'partition' else [Text(), Text(), s]
            return [s.part(0, i), a, s.part(i + len(lit))]
        return UNKNOWN

    def appended(self, t):
        """What's appended to a list that a library call returned, when a path ends."""
        out = []
        if self.early:
            return out
        for e in flat(self.p.events):
            if e.kind in ('call', 'mutate') and e.a.get('self') == t and last(e.fn) == 'append':
                out.append((None, self(e.a.get(0, NONE))))
            elif e.kind in ('call', 'mutate') and e.a.get('self') == t and last(e.fn) == 'insert' and isinstance(self(e.a.get(0, NONE)), int):
                out.append((self(e.a[0]), self(e.a.get(1, NONE))))
            elif e.kind in ('call', 'mutate') and e.a.get('self') == t and last(e.fn) in ('extend', 'insert', 'pop', 'remove', 'clear'):
                return [(UNKNOWN, UNKNOWN)]
        return out

    def holds(self, atom):
        """Whether a fact's atom holds; None if that isn't known."""
        k = atom[0]
        if k == 'not':
            v = self.holds(atom[1])
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [self.holds(x) for x in atom[1]]
            if k == 'and':
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if k == 'lin':
            return None
        if k == 'truth':
            v = self(atom[1])
            if isinstance(v, Text):
                return bool(v.p)
            return None if v is UNKNOWN else bool(v)
        if k == 'isnone':
            v = self(atom[1])
            return None if v is UNKNOWN else v is None
        if k == 'isinst':
            v = self(atom[1])
            if isinstance(v, Text):
                return atom[2] == 'builtins.str' if atom[2] in ('builtins.str', 'builtins.bytes') else None
            return None
        if k == 'eqc':
            a, b = self(atom[1]), self(atom[2])
            if UNKNOWN in (a, b):
                return None
            return self.equal(a, b)
        if k == 'in':
            a, b = self(atom[1]), self(atom[2])
            if isinstance(a, Text) and isinstance(b, Text) and a.lit() is not None:
                i = b.find(a.lit())
                return None if i is None else i >= 0
            return None
        return None

    def equal(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Text) and a != b:
            if any(OTHER in x.p or NOT_AT in x.p for x in (a, b)):
                return False if {a.p, b.p} == {(NOT_AT,), (AT,)} else None
            return False if not any(x[0] == 'changed' for x in a.p + b.p) else None
        return a == b

    def feasible(self, facts):
        """Whether facts may hold: True, False, or None."""
        self.early = True
        try:
            return self._feasible(facts)
        finally:
            self.early = False

    def _feasible(self, facts):
        out = True
        for k, v in facts.items():
            if k[0] == 'lin':
                if len(k[1]) != 1 or k[1][0][1] not in (1, -1):
                    out = None
                    continue
                n = self(k[1][0][0])
                if isinstance(n, bool) or not isinstance(n, int):
                    out = None
                    continue
                n *= k[1][0][1]
                lo, ls, hi, hs, ex = v
                if lo is not None and (n < lo or ls and n == lo) or hi is not None and (n > hi or hs and n == hi) or n in ex:
                    return False
                continue
            h = self.holds(k)
            if h is None:
                out = None
            elif h != v:
                return False
        return out


D, C_, R_ = ('part', 'did'), ('part', 'collection'), ('part', 'rkey')


def outcome(c, r, inst, env, want, msg):
    """Checks every path that this input may take."""
    sure = False
    for p in r.paths:
        ev = Eval(r, p, env)
        f = ev.feasible(p.facts.d)
        if f is False:
            continue
        if want is None:
            if p.kind == 'return':
                if f is None:
                    c.unsure(f"{inst}: whether it's refused")
                    continue
                c.ob(inst, False, p, msg, p)
            sure = sure or p.kind == 'raise'
            continue
        if p.kind == 'raise':
            if f is None:
                continue
            c.ob(inst, False, p, f'fails: {msg}', p)
            continue
        if p.kind != 'return':
            continue
        v = ev(r.S(p, p.value))
        if v is UNKNOWN or isinstance(v, list) and UNKNOWN in v:
            c.unsure(f"{inst}: what it returns isn't recognised")
            return
        if f is None and v != want:
            c.unsure(f'{inst}: when it returns {v}')
            return
        c.ob(inst, v == want, p, f'{msg}: {v}', p)
        sure = True
    if want is None or not sure:
        c.ob(inst, sure, r, msg)


@rules('U09', explanation='''Every path of building and of parsing AT URIs is evaluated over strings whose parts are opaque, ie for
every DID, collection and record key at once.''',
       assumptions=("DIDs, collections and record keys aren't empty, and have no slashes, question marks or number signs",))
def uris(c):
    c.rule('U09.build', "an AT URI is at://, its DID, collection and record key, separated by slashes, and never made without all of them")
    r = c.run(f'{UTIL}.at_uri')
    names = [param(n) for n in ('did', 'collection', 'rkey')]
    full = dict(zip(names, (Text(D), Text(C_), Text(R_))))
    c.some('at_uri', r.returns, 'never returns')
    outcome(c, r, 'at_uri', full, Text(AT, D, SLASH, C_, SLASH, R_), "it isn't made of its parts")
    for n in names:
        for empty in (Text(), None):
            outcome(c, r, f'at_uri without {n[1]}', {**full, n: empty}, None, 'is made without one of its parts')
    c.rule('U09.parse', 'parsing an AT URI returns its own DID or handle, collection and record key, unchanged, or empty ones for those that it lacks')
    r = c.run(f'{UTIL}.parse_at_uri')
    c.some('parse_at_uri', r.returns, 'never returns')
    for inst, pieces, want in (
            ('record', (AT, D, SLASH, C_, SLASH, R_), (D, C_, R_)),
            ('collection', (AT, D, SLASH, C_), (D, C_, None)),
            ('repo', (AT, D), (D, None, None))):
        outcome(c, r, f'parse_at_uri: {inst}', {URI: Text(*pieces)}, [Text(*([x] if x else [])) for x in want], "doesn't return its parts")
    c.rule('U09.refuse', "what isn't an AT URI is refused")
    for inst, v in (('other', Text(OTHER)), ('empty', Text()), ('missing', None)):
        outcome(c, r, f'parse_at_uri: {inst}', {URI: v}, None, "accepts what isn't an AT URI")


@rules('U01')
def keys(c):
    c.rule('U01.keys', 'a new key is random unless a seed is given, on the one curve')
    r = c.run(f'{UTIL}.new_key')
    seed = param('seed')
    for p in r.returns:
        v = r.S(p, p.value)
        if v[0] != 'call' or not fn_is(v[1], 'ec.derive_private_key', 'ec.generate_private_key'):
            c.unsure("how a new key is made isn't recognised")
            continue
        d = dict(v[2])
        curve = d.get('curve', d.get(1 if fn_is(v[1], 'derive_private_key') else 0, NONE))
        c.ob('curve', curve[0] == 'call' and fn_is(curve[1], 'ec.SECP256K1') or fn_is(curve[1], 'ec.SECP256K1'), p, "isn't on the K-256 curve", p)
        if fn_is(v[1], 'derive_private_key'):
            c.ob('derived', d.get(0, d.get('private_value')) == seed and r.isnone(p, seed) is not True and r.truth(p, seed) is not False, p,
                 "is derived from something other than the given seed", p)
        else:
            c.ob('random', r.truth(p, seed) is False or r.isnone(p, seed) is True, p, "ignores the given seed", p)
