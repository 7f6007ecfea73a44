"""Where secrets flow: a whole-program information flow analysis.

Flow-sensitive within functions, field-sensitive for constant keys and
attributes, and interprocedural, with summaries that say what each function's
return value and sinks have of its parameters. Nothing is executed.
"""
import ast
import builtins
import os
import re

NAMES = re.compile(r'TOKEN|PASSWORD|PASSWD|PRIV_?KEY|PRIVATE|SECRET|JWT|_KEYS?$|APIKEY', re.I)
LOGS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log', 'fatal'}
HTTP = {'get', 'post', 'put', 'request', 'head', 'patch', 'delete', 'send'}
KEEP = {'encode', 'decode', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'removeprefix', 'removesuffix', 'replace', 'split', 'rsplit', 'partition', 'rpartition',
        'format', 'join', 'splitlines', 'title', 'zfill', 'ljust', 'rjust', 'center', 'hex', 'copy', 'read', 'items', 'values', 'popitem', 'to_dict', 'json', 'expandtabs',
        'translate', '__str__', '__repr__', 'format_map', '_asdict', '_replace', 'to_wsgi_list', 'getvalue', 'swapcase', 'capitalize', 'casefold', 'tobytes', '__format__',
        'readline', 'readlines', 'getlist', 'get_all', '__dict__', 'to_bytes', 'as_string', 'result', 'get_result'}
KEEPS = {'str', 'repr', 'bytes', 'bytearray', 'ascii', 'format', 'dict', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter',
         'next', 'iter', 'vars', 'memoryview', 'min', 'max', 'sum'}
KEEP_EXT = re.compile(r'^(json|base64|binascii|codecs|copy|pprint|urllib\.parse|textwrap|itertools|html|shlex|quopri|multiformats\.multibase|'
                      r'os\.path|dag_json|pickle|flask|oauth_dropins|lexrpc\.server\.Redirect|jwt\.decode|jwt\.get_unverified)\b')
SECRET_CALLS = {'private_bytes': 'a serialized private key', 'private_numbers': 'a private key\'s numbers'}
SECRET_ATTRS = {'private_value': 'a private key\'s number'}


class T:
    """What a value has of secrets: labels for itself, and for its fields."""
    __slots__ = ('s', 'f', 'm')

    def __init__(self, s=frozenset(), f=None, m=None):
        self.s, self.f, self.m = frozenset(s), f or {}, m

    def all(self, depth=0):
        out = self.s
        if self.m == 'environ':
            out |= {('src', 'the environment')}
        if depth < 5:
            for v in self.f.values():
                out |= v.all(depth + 1)
        return out

    def __eq__(self, o):
        return isinstance(o, T) and self.s == o.s and self.m == o.m and self.f == o.f

    def __hash__(self):
        return hash(self.s)

    def __bool__(self):
        return bool(self.s or self.f or self.m)


NO = T()


def join(*ts, depth=0):
    ts = [t for t in ts if t]
    if not ts:
        return NO
    if len(ts) == 1:
        return ts[0]
    if depth > 4:
        return T(frozenset().union(*(t.all() for t in ts)))
    f = {}
    for t in ts:
        for k, v in t.f.items():
            f.setdefault(k, []).append(v)
    return T(frozenset().union(*(t.s for t in ts)), {k: join(*v, depth=depth + 1) for k, v in f.items()}, next((t.m for t in ts if t.m), None))


def step(s, kind, key):
    """The labels of part of a value."""
    out = set()
    for x in s:
        if x[0] == 'p':
            if len(x[2]) < 4:
                out.add(('p', x[1], x[2] + ((kind, key),)))
        elif kind == 'i':
            out.add(x)   # part of a string
    return frozenset(out)


def item(t, key):
    """t[key]; key is ... if unknown."""
    if t.m == 'environ':
        return T({('src', f'${key}')}) if isinstance(key, str) and NAMES.search(key) else NO
    own = T(step(t.s, 'i', key if key is not ... else '*'))
    if key is ...:
        return join(own, *(v for k, v in t.f.items() if not (isinstance(k, tuple) and k[:1] == ('a',))))
    return join(own, t.f.get(('i', key), NO), t.f.get(('i', '*'), NO))


def get_attr(t, name):
    return join(T(step(t.s, 'a', name)), t.f.get(('a', name), NO))


def elements(t):
    """What iterating over it yields."""
    if t.m == 'environ':
        return NO
    if t.m and t.m[0] in ('query', 'entity'):
        return T(m=('entity', t.m[1]), f=t.f)
    return join(T(step(t.s, 'i', '*')), t.f.get(('i', '*'), NO), *(v for k, v in t.f.items() if k[0] == 'i' and isinstance(k[1], int)))


def resolve(t, path):
    for kind, key in path:
        t = (item(t, ... if key == '*' else key) if kind == 'i' else get_attr(t, key))
    return t


class Summary:
    def __init__(self):
        self.ret = NO
        self.sinks = {}     # (rule, what, where) -> labels
        self.params = []
        self.vararg = self.kwarg = None


class Analysis:
    def __init__(self, prog, extra=()):
        self.prog = prog
        self.mods = dict(prog.modules)
        self.funcs = {}      # full name -> (module, node, class or None)
        self.globs = {}      # module -> env
        self.attrs = {}      # (class full name, attr) -> T
        self.sums = {}
        self.hits = {}       # (rule, what, where) -> source labels
        self.seen = {}       # sinks that were looked at: (rule, where)
        self.models = {}     # class full name -> {property: kind}
        self.handlers = {}   # full name -> NSID or route
        self.sources = set()
        for m in self.mods.values():
            self.index(m, m.tree.body, m.name, None)
        for nsid, f in prog.handlers().items():
            self.handlers[f.full] = nsid
        self.by_method = {}
        for full, (m, node, cls) in self.funcs.items():
            if cls:
                self.by_method.setdefault(node.name, []).append(full)

    def index(self, m, body, prefix, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[f'{prefix}.{s.name}'] = (m, s, cls)
                for d in s.decorator_list:
                    call = d.func if isinstance(d, ast.Call) else d
                    if isinstance(call, ast.Attribute) and call.attr in ('route', 'get', 'post', 'put', 'delete', 'method', 'query', 'procedure', 'subscription',
                                                                           'errorhandler', 'after_request', 'before_request'):
                        name = next((a.value for a in (d.args if isinstance(d, ast.Call) else []) if isinstance(a, ast.Constant)), call.attr)
                        self.handlers[f'{prefix}.{s.name}'] = name
            elif isinstance(s, ast.ClassDef):
                full = f'{prefix}.{s.name}'
                self.index(m, s.body, full, full)
                props = {}
                for x in s.body:
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Call):
                        fn = self.dotted(m, x.value.func)
                        if fn and fn.split('.')[-1].endswith('Property'):
                            for tgt in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                if isinstance(tgt, ast.Name):
                                    props[tgt.id] = fn
                if props:
                    self.models[full] = props
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                self.index(m, [x for x in ast.iter_child_nodes(s) if isinstance(x, ast.stmt)], prefix, cls)

    def dotted(self, m, n):
        d = m._dotted(n)
        return self.prog.canon(d) if d else None

    def encrypted(self, kind):
        """Is this property type an EncryptedProperty?"""
        if kind.split('.')[-1] == 'EncryptedProperty' and not kind.startswith('arroba'):
            return True
        c = self.prog.lookup(kind)
        if c is None or not hasattr(c, 'bases'):
            return False
        return any(self.encrypted(b) for b in c.bases) and not set(c.methods) & {'_to_base_type', '_from_base_type', '_db_set_value', '_put_value', '_datastore_type', '_validate'}

    def run(self):
        for _ in range(20):
            before = ({k: (v.ret, dict(v.sinks)) for k, v in self.sums.items()}, dict(self.attrs), dict(self.globs))
            self.hits = {}
            for m in self.mods.values():
                w = Walk(self, m, f'{m.name}', None, m.tree)
                env = {}
                w.block(m.tree.body, env)
                old = self.globs.get(m.name, {})
                self.globs[m.name] = {k: join(v, old.get(k, NO)) for k, v in {**old, **env}.items()}
                w.finish(env)
            for full, (m, node, cls) in self.funcs.items():
                Walk(self, m, full, cls, node).function({})
            after = ({k: (v.ret, dict(v.sinks)) for k, v in self.sums.items()}, dict(self.attrs), dict(self.globs))
            if before == after:
                self.rounds = _ + 1
                return True
        return False

    def entity(self, cls):
        return T(m=('entity', cls), f={('a', p): T({('src', f'{cls.split(".")[-1]}.{p}')}) for p, k in self.models[cls].items() if 'Encrypted' in k})

    def model_of(self, dotted):
        """(model class, rest of the name)."""
        for cls in self.models:
            if dotted == cls or dotted.startswith(cls + '.'):
                return cls, dotted[len(cls) + 1:]
        return None, None


def headers():
    return T(f={('i', 'Authorization'): T({('src', 'the Authorization header')}), ('i', 'authorization'): T({('src', 'the Authorization header')})})


class Walk:
    """Interprets one function, or a module's body."""
    def __init__(self, an, m, full, cls, node):
        self.an, self.m, self.full, self.cls, self.node = an, m, full, cls, node
        self.bound = None
        self.sum = an.sums.setdefault(full, Summary())
        self.rets = [self.sum.ret]
        self.globals = set()
        self.nested = []
        self.module = isinstance(node, ast.Module)

    # -- functions
    def function(self, outer):
        a = self.node.args
        env = dict(outer)
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.sum.params = ps + [x.arg for x in a.kwonlyargs]
        self.sum.npos = len(ps)
        self.sum.vararg, self.sum.kwarg = a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg
        for p in self.sum.params + [x for x in (self.sum.vararg, self.sum.kwarg) if x]:
            env[p] = T({('p', p, ())})
        if self.full in self.an.handlers and 'input' in env:
            env['input'] = T(f={('i', k): T({('src', f'the input\'s {k}')}) for k in ('password', 'token', 'refreshJwt', 'accessJwt')})
        if self.cls and ps and ps[0] == 'self' and self.cls in self.an.models:
            env['self'] = join(self.an.entity(self.cls), env['self'])
        defaults = a.defaults
        for p, d in list(zip(ps[len(ps) - len(defaults):], defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            env[p] = join(env[p], self.ev(d, dict(outer)))
        self.block(self.node.body, env)
        self.finish(env)

    def finish(self, env):
        if not self.module:
            self.sum.ret = join(*self.rets)
        for node in self.nested:
            w = Walk(self.an, self.m, f'{self.full}.<locals>.{node.name}', self.cls, node)
            w.function(env)

    def where(self, n):
        return f'{self.m.rel}:{getattr(n, "lineno", 0)} ({self.full})'

    def sink(self, rule, what, node, labels):
        where = self.where(node)
        self.an.seen[(rule, self.full, where)] = what
        self.report((rule, what, where), labels)

    def report(self, key, labels):
        src = {x for x in labels if x[0] == 'src'}
        if src:
            self.an.hits.setdefault(key, set()).update(src)
        ps = frozenset(x for x in labels if x[0] == 'p')
        if ps:
            self.sum.sinks[key] = self.sum.sinks.get(key, frozenset()) | ps

    # -- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(d, env)
            if not self.module and not (self.cls and s in getattr(self.node, 'body', ()) and isinstance(self.node, ast.ClassDef)):
                self.nested.append(s)
                env[s.name] = T(m=('func', f'{self.full}.<locals>.{s.name}'))
        elif isinstance(s, ast.ClassDef):
            if self.module:
                for x in s.body:
                    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.Expr)) and getattr(x, 'value', None) is not None:
                        self.ev(x.value, env)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value else NO
            self.rets.append(v)
            self.returned(s, v)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(ast.copy_location(to_load(s.target), s), env)
            v = self.ev(s.value, env)
            if isinstance(s.op, (ast.Add, ast.BitOr, ast.Mod)):
                self.assign(s.target, join(old, v), env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            merge(env, [e for e, body in ((a, s.body), (b, s.orelse)) if not leaves(body)] or [a, b])
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(2):
                body = dict(env)
                if isinstance(s, ast.While):
                    self.ev(s.test, body)
                else:
                    self.iterate(s.target, s.iter, body)
                self.block(s.body, body)
                merge(env, [env, body])
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            start = dict(env)
            self.block(s.body, env)
            outs = [dict(env)]
            for h in s.handlers:
                e = dict(start)
                merge(e, [start, env])
                if h.name:
                    e[h.name] = NO
                self.block(h.body, e)
                if not leaves(h.body):
                    outs.append(e)
            self.block(s.orelse, outs[0])
            merge(env, outs)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                v = self.ev(s.exc, env)
                self.sink('errors', 'an exception', s, v.all())
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
            if s.msg is not None:
                self.sink('errors', 'an assertion', s, self.ev(s.msg, env).all())
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, ast.Delete):
            pass
        elif isinstance(s, ast.Match):
            self.ev(s.subject, env)
            outs = [dict(env)]
            for case in s.cases:
                e = dict(env)
                self.block(case.body, e)
                outs.append(e)
            merge(env, outs)

    def returned(self, node, v):
        h = self.an.handlers.get(self.full)
        if not h:
            return
        if h in ('com.atproto.server.createSession', 'com.atproto.server.refreshSession', 'com.atproto.server.createAccount'):
            # what these are for
            v = T({x for x in v.s if x != ('src', '$REPO_TOKEN')}, {k: x for k, x in v.f.items() if k not in (('i', 'accessJwt'), ('i', 'refreshJwt'))})
        self.sink('responses', f'the response of {h}', node, v.all())

    def assign(self, t, v, env, src=None):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                g = self.an.globs.setdefault(self.m.name, {})
                g[t.id] = join(g.get(t.id, NO), strip_params(v))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, T(v.all()), env)
                else:
                    self.assign(x, item(v, i), env)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id == 'self' and self.cls:
                kept = strip_params(v)
                if kept:
                    k = (self.cls, t.attr)
                    self.an.attrs[k] = join(self.an.attrs.get(k, NO), kept)
            self.stored(base.m[1] if base.m and base.m[0] == 'entity' else None, t.attr, v, t)
            if isinstance(t.value, ast.Name) and t.value.id in env:
                old = env[t.value.id]
                env[t.value.id] = T(old.s, {**old.f, ('a', t.attr): v}, old.m)
        elif isinstance(t, ast.Subscript):
            key = self.const(t.slice)
            self.put(t.value, key, v, env)

    def put(self, target, key, v, env):
        """target[key] = v, or with key ..., adds v to target."""
        self.ev(target, env)
        if not v:
            if isinstance(target, ast.Name) and target.id in env and key is not ... and ('i', key) in env[target.id].f:
                old = env[target.id]
                env[target.id] = T(old.s, {k: x for k, x in old.f.items() if k != ('i', key)}, old.m)
            return
        if isinstance(target, ast.Name):
            old = env.get(target.id)
            if old is None:
                g = self.an.globs.setdefault(self.m.name, {})
                old = g.get(target.id, NO)
                if old.m != 'environ':
                    g[target.id] = join(old, strip_params(T(f={('i', key if key is not ... else '*'): v})))
                return
            k = ('i', key if key is not ... else '*')
            env[target.id] = T(old.s, {**old.f, k: v if key is not ... else join(old.f.get(k, NO), v)}, old.m)
        elif isinstance(target, ast.Subscript):
            self.put(target.value, self.const(target.slice), T(f={('i', key if key is not ... else '*'): v}), env)
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == 'self' and self.cls:
            k = (self.cls, target.attr)
            self.an.attrs[k] = join(self.an.attrs.get(k, NO), T(f={('i', key if key is not ... else '*'): strip_params(v)}))

    def stored(self, cls, attr, v, node):
        """A property of an entity is set."""
        for full, props in self.an.models.items():
            if attr in props and (cls is None or cls == full):
                if self.an.encrypted(props[attr]):
                    self.an.seen[('encrypted', full, attr)] = props[attr]
                else:
                    self.sink('stored', f'{full.split(".")[-1]}.{attr}, which isn\'t encrypted', node, v.all())

    # -- expressions
    def iterate(self, target, it, env):
        src = it
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args:
            v = self.ev(it.func.value, env)
            self.assign(target, T(f={('i', 1): T(v.all()) if v.m == 'environ' else item(v, ...)}), env)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate':
            self.assign(target, T(f={('i', 1): elements(self.ev(it.args[0], env))}), env)
        else:
            v = self.ev(it, env)
            self.assign(target, elements(v), env)

    def ev(self, n, env):
        if n is None:
            return NO
        f = getattr(self, 'ev_' + n.__class__.__name__, None)
        if f:
            return f(n, env)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return NO

    def ev_Constant(self, n, env):
        return NO

    def ev_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        g = self.an.globs.get(self.m.name, {})
        if n.id in g:
            return g[n.id]
        return self.outside(self.an.dotted(self.m, n))

    def outside(self, d):
        if d is None:
            return NO
        if d == 'os.environ':
            return T(m='environ')
        if d in ('flask.request.headers', 'werkzeug.local.request.headers'):
            return headers()
        if d in ('flask.request.authorization',):
            return T({('src', 'the Authorization header')})
        mod, _, name = d.rpartition('.')
        if mod in self.an.globs and name in self.an.globs[mod]:
            return self.an.globs[mod][name]
        if d in self.an.funcs:
            return T(m=('func', d))
        if d in self.an.models:
            return T(m=('model', d))
        return NO

    def ev_Attribute(self, n, env):
        if n.attr in SECRET_ATTRS:
            self.ev(n.value, env)
            return T({('src', SECRET_ATTRS[n.attr])})
        local = root(n) in env
        d = None if local else self.an.dotted(self.m, n)
        if d:
            t = self.outside(d)
            if t:
                return t
            if d.startswith('os.environ.') or d.startswith('flask.request.headers.'):
                return NO
        base = self.ev(n.value, env)
        if n.attr == 'headers' and isinstance(n.value, ast.Attribute) and n.value.attr == 'request':
            return headers()
        if n.attr == '__dict__':
            return base
        out = get_attr(base, n.attr)
        if isinstance(n.value, ast.Name) and n.value.id == 'self' and self.cls:
            for (cls, a), v in self.an.attrs.items():
                if a == n.attr and (cls == self.cls or self.related(cls)):
                    out = join(out, v)
        else:
            for (cls, a), v in self.an.attrs.items():
                if a == n.attr:
                    out = join(out, v)
        for cls, props in self.an.models.items():
            if n.attr in props and 'Encrypted' in props[n.attr]:
                out = join(out, T({('src', f'{cls.split(".")[-1]}.{n.attr}')}))
        # properties
        for full in self.an.by_method.get(n.attr, ()):
            node = self.an.funcs[full][1]
            if any(isinstance(x, ast.Name) and x.id in ('property', 'cached_property') or isinstance(x, ast.Attribute) and x.attr == 'cached_property' for x in node.decorator_list):
                s = self.an.sums.get(full)
                if s:
                    out = join(out, self.subst(s.ret, {'self': base}))
        return out

    def related(self, cls):
        a, b = self.an.prog.cls(cls), self.an.prog.cls(self.cls)
        if not a or not b:
            return False
        names = lambda c: {x.full if hasattr(x, 'full') else x for x in self.an.prog.mro(c)}
        return cls in names(b) or self.cls in names(a)

    def ev_Subscript(self, n, env):
        base = self.ev(n.value, env)
        self.ev(n.slice, env)
        if isinstance(n.slice, ast.Slice):
            return base
        k = self.const(n.slice)
        if base.m and base.m[0] in ('entity', 'query'):
            return elements(base)
        return item(base, k)

    def ev_JoinedStr(self, n, env):
        return T(frozenset().union(*(self.ev(v, env).all() for v in n.values)))

    def ev_FormattedValue(self, n, env):
        return T(self.ev(n.value, env).all())

    def ev_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            return T(a.all() | b.all())
        if isinstance(n.op, (ast.Add, ast.BitOr)):
            return join(a, b)
        return T(a.s) if isinstance(n.op, ast.Mult) else NO

    def ev_BoolOp(self, n, env):
        vals = [self.ev(v, env) for v in n.values]
        return join(*vals)

    def ev_IfExp(self, n, env):
        self.ev(n.test, env)
        return join(self.ev(n.body, env), self.ev(n.orelse, env))

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env[n.target.id] = v
        return v

    def ev_Compare(self, n, env):
        self.ev(n.left, env)
        for x in n.comparators:
            self.ev(x, env)
        return NO

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return NO if isinstance(n.op, ast.Not) else v

    def ev_Starred(self, n, env):
        return self.ev(n.value, env)

    def ev_Await(self, n, env):
        return self.ev(n.value, env)

    def ev_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value else NO
        self.rets.append(T(f={('i', '*'): v}) if v else NO)
        if n.value is not None:
            self.returned(n, v)
        return NO

    def ev_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        self.rets.append(v)
        self.returned(n, v)
        return NO

    def const(self, n):
        """A constant, maybe a module's."""
        k = const(n)
        if k is ... and isinstance(n, (ast.Name, ast.Attribute)):
            if self.bound is None:
                self.bound = {x.id for x in ast.walk(self.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} \
                    | {x.arg for x in ast.walk(self.node) if isinstance(x, ast.arg)}
            if root(n) not in self.bound:
                k = self.an.prog.const_of(self.m, n)
        try:
            hash(k)
        except TypeError:
            return ...
        return k

    def ev_Dict(self, n, env):
        f, s, out = {}, frozenset(), NO
        for k, v in zip(n.keys, n.values):
            t = self.ev(v, env)
            if k is None:
                out = join(out, t)
                continue
            out = T(out.s, {kk: x for kk, x in out.f.items() if kk != ('i', self.const(k))}, out.m)
            self.ev(k, env)
            if t:
                key = self.const(k)
                f[('i', key if key is not ... else '*')] = t
        return join(T(f=f), out)

    def seq(self, n, env):
        f = {}
        for i, x in enumerate(n.elts):
            t = self.ev(x, env)
            if isinstance(x, ast.Starred):
                t = elements(t)
                i = '*'
            if t:
                f[('i', i)] = join(f.get(('i', i), NO), t)
        return T(f=f)
    ev_List = ev_Tuple = ev_Set = seq

    def comp(self, n, env):
        e = dict(env)
        for g in n.generators:
            self.iterate(g.target, g.iter, e)
            for c in g.ifs:
                self.ev(c, e)
        if isinstance(n, ast.DictComp):
            self.ev(n.key, e)
            v = self.ev(n.value, e)
        else:
            v = self.ev(n.elt, e)
        return T(f={('i', '*'): v}) if v else NO
    ev_ListComp = ev_SetComp = ev_GeneratorExp = ev_DictComp = comp

    def ev_Lambda(self, n, env):
        e = dict(env)
        for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            e[x.arg] = NO
        return T(self.ev(n.body, e).all())

    # -- calls
    def subst(self, t, args):
        out = T({x for x in t.s if x[0] != 'p'}, {k: self.subst(v, args) for k, v in t.f.items()}, t.m)
        for x in t.s:
            if x[0] == 'p':
                got = resolve(args.get(x[1], NO), x[2])
                out = join(out, got)
        return out

    def bind(self, full, pos, kw, star, extra, self_t=None):
        s = self.an.sums.get(full)
        if s is None:
            return None, None
        args = {}
        names = s.params[:getattr(s, 'npos', len(s.params))]
        if self_t is not None and names and names[0] in ('self', 'cls'):
            args[names[0]] = self_t
            names = names[1:]
        rest = []
        for i, t in enumerate(pos):
            if i < len(names):
                args[names[i]] = t
            else:
                rest.append(t)
        if rest and s.vararg:
            args[s.vararg] = T(f={('i', i): t for i, t in enumerate(rest)})
        more = {}
        for k, t in kw.items():
            if k in s.params:
                args[k] = t
            else:
                more[('i', k)] = t
        if s.kwarg and (more or extra):
            args[s.kwarg] = join(T(f=more), extra)
        if extra:
            for k in s.params:
                if k not in args:
                    args[k] = item(extra, k)
        if star:
            for k in names:
                if k not in args:
                    args[k] = elements(star)
        return s, args

    def call_program(self, full, n, pos, kw, star, extra, self_t=None):
        s, args = self.bind(full, pos, kw, star, extra, self_t)
        if s is None:
            return NO
        for key, labels in list(s.sinks.items()):
            got = frozenset()
            for x in labels:
                got |= resolve(args.get(x[1], NO), x[2]).all()
            if got:
                self.report(key, got)
        return self.subst(s.ret, args)

    def ev_Call(self, n, env):
        pos, star = [], NO
        for a in n.args:
            t = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star = join(star, t)
            else:
                pos.append(t)
        kw, extra = {}, NO
        for k in n.keywords:
            t = self.ev(k.value, env)
            if k.arg is None:
                extra = join(extra, t)
            else:
                kw[k.arg] = t
        every = lambda: frozenset().union(*(t.all() for t in pos + list(kw.values()) + [star, extra]))
        f = n.func
        local = root(f) in env
        d = None if local else self.an.dotted(self.m, f)
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        base = self.ev(f.value, env) if isinstance(f, ast.Attribute) else NO
        fn_t = self.ev(f, env) if isinstance(f, ast.Name) else NO

        # sinks
        if isinstance(f, ast.Attribute) and name in LOGS and 'log' in ast.unparse(f.value).lower() or d in ('print', 'builtins.print', 'warnings.warn', 'pprint.pprint') \
                or isinstance(f, ast.Name) and f.id in ('print', 'pprint') and not local:
            self.sink('logs', f'{ast.unparse(f)}()', n, every())
            return NO
        if d and re.match(r'(sys\.std(out|err)\.write|os\.write|syslog\.)', d):
            self.sink('logs', f'{d}()', n, every())
            return NO
        if name.endswith(('Error', 'Exception', 'Warning')) or name in ('abort', 'error', 'AssertionError') and not base:
            labels = every()
            self.sink('errors', f'{name}()', n, labels)
            return NO
        if name in ('write_event', 'Event') and not (d or '').startswith(('threading', 'asyncio')):
            self.sink('events', f'{name}()', n, every())
        if name == 'Block' or d and (d.startswith('dag_cbor.encode') or d.endswith('write_car')) or name in ('write_block', 'write_blocks'):
            self.sink('blocks', f'{name}()', n, every())
        if isinstance(f, ast.Attribute) and name in ('set', 'add', 'cas', 'replace', 'set_multi', 'append', 'prepend') and 'memcache' in ast.unparse(f.value).lower():
            self.sink('stored', 'memcache', n, every())
        if self.request(f, d, name, env):
            self.sink('requests', 'a request', n, self.sent(name, d, pos, kw, extra, star))
            return NO

        # sources
        if name in SECRET_CALLS:
            return T({('src', SECRET_CALLS[name])})
        if d in ('jwt.encode',) or name == 'encode' and d and d.startswith('jwt.'):
            return T({('src', 'a JWT')})
        if d in ('os.getenv', 'os.environ.get'):
            k = self.const(n.args[0]) if n.args else ...
            return join(item(T(m='environ'), k), *pos[1:], *kw.values())
        if d and (d.endswith('.read') and 'util' in d) or d in ('open', 'builtins.open') or isinstance(f, ast.Name) and f.id == 'open' and not local:
            k = self.const(n.args[0]) if n.args else ...
            if isinstance(k, str) and NAMES.search(os.path.basename(k)):
                src = T({('src', f'the file {k}')})
                return src if name == 'read' else T(m=('file', k))
            return NO
        if base.m and base.m[0] == 'file' and name in ('read', 'readline', 'readlines'):
            return T({('src', f'the file {base.m[1]}')})

        # containers
        if base.m == 'environ':
            if name in ('get', 'pop', 'setdefault'):
                return join(item(base, self.const(n.args[0]) if n.args else ...), *pos[1:])
            return T(base.all()) if name in ('items', 'values', 'copy', '__str__', '__repr__') else NO
        if isinstance(f, ast.Attribute) and name in ('get', 'pop', 'setdefault', 'getlist', '__getitem__') and n.args and not (base.m and base.m[0] in ('query', 'key')) and d not in self.an.funcs:
            k = self.const(n.args[0])
            if name == 'setdefault' and len(pos) > 1:
                self.put(f.value, k, pos[1], env)
            return join(item(base, k), *pos[1:])
        if isinstance(f, ast.Attribute) and name in ('append', 'add', 'appendleft', 'insert', 'extend', 'update', 'put', 'put_nowait', 'write', 'writelines') and (pos or kw or extra):
            if name == 'update':
                t = join(*pos, T(f={('i', k): v for k, v in kw.items() if v}), extra)
                if t and isinstance(f.value, ast.Name) and f.value.id in env:
                    env[f.value.id] = join(env[f.value.id], t)
            elif name in ('extend', 'writelines'):
                self.put(f.value, ..., elements(pos[0]) if pos else NO, env)
            elif pos:
                self.put(f.value, ..., pos[-1], env)
            return NO

        # entities
        cls, rest = self.an.model_of(d) if d else (None, None)
        if cls is None and fn_t.m and fn_t.m[0] == 'model':
            cls, rest = fn_t.m[1], ''
        if cls is None and base.m and base.m[0] == 'model':
            cls, rest = base.m[1], name
        if cls is None and isinstance(f, ast.Name) and f.id == 'cls' and self.cls in self.an.models:
            cls, rest = self.cls, ''
        if cls is None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'cls' and self.cls in self.an.models:
            cls, rest = self.cls, name
        if cls is not None:
            if d in self.an.funcs or f'{cls}.{rest}' in self.an.funcs:
                return self.call_program(d if d in self.an.funcs else f'{cls}.{rest}', n, pos, kw, star, extra, T(m=('model', cls)))
            if rest in ('', 'get_or_insert', 'get_or_insert_async'):
                for k, t in kw.items():
                    self.stored(cls, k, t, n)
                for k, t in extra.f.items():
                    self.stored(cls, k[1], t, n)
                return self.an.entity(cls)
            if rest in ('get_by_id', 'get_by_id_async'):
                return self.an.entity(cls)
            if rest.startswith(('query', 'gql')):
                return T(m=('query', cls), f=self.an.entity(cls).f)
            return NO
        if d and d.endswith('ndb.Key') or d and d.endswith('ndb.key.Key'):
            m = next((t.m[1] for t in pos if t.m and t.m[0] == 'model'), None)
            return T(m=('key', m)) if m else NO
        if base.m and base.m[0] in ('query', 'key'):
            if name in ('get', 'fetch', 'get_async', 'fetch_async', 'iter', 'fetch_page'):
                return self.an.entity(base.m[1])
            return T(m=base.m, f=base.f)
        if base.m and base.m[0] == 'entity' and name in ('populate',):
            for k, t in kw.items():
                self.stored(base.m[1], k, t, n)
            return NO

        # the program's functions
        if fn_t.m and fn_t.m[0] == 'func':
            return self.call_program(fn_t.m[1], n, pos, kw, star, extra)
        if d:
            target = self.an.prog.lookup(d)
            full = getattr(target, 'full', None)
            if full in self.an.funcs:
                own = self.an.funcs[full][2]
                return self.call_program(full, n, pos, kw, star, extra, NO if own else None)
            if full and f'{full}.__init__' in self.an.funcs:
                self.call_program(f'{full}.__init__', n, pos, kw, star, extra, NO)
                return NO
            fields = getattr(target, 'fields', None)
            if fields:
                out = {('a', k): v for k, v in zip(fields, pos) if v}
                out.update({('a', k): v for k, v in kw.items() if v})
                return T(f=out)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and self.cls:
                k = self.an.prog.cls(self.cls)
                g = self.an.prog.find_method(k, name) if k else None
                if g is not None and g.full in self.an.funcs:
                    return self.call_program(g.full, n, pos, kw, star, extra, base)
            cands = self.an.by_method.get(name, ())
            if len(cands) == 1 and name not in KEEP:
                return self.call_program(cands[0], n, pos, kw, star, extra, base)
            if name in KEEP:
                if name == 'join':
                    return T(base.all() | frozenset().union(*(elements(t).all() for t in pos)))
                if name in ('format', 'format_map'):
                    return T(base.all() | every())
                if name == 'copy' or name == '_replace':
                    return base
                return T(base.all()) if base else T(every()) if d and KEEP_EXT.match(d) else NO
        if isinstance(f, ast.Name) and not local and name == 'locals':
            return T(f={('a', k): v for k, v in env.items() if v})
        if isinstance(f, ast.Name) and not local and name in KEEPS and hasattr(builtins, name):
            if pos and pos[0].m == 'environ' and name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter', 'enumerate', 'next', 'reversed', 'min', 'max', 'filter'):
                return NO
            if name in ('str', 'repr', 'format', 'ascii', 'bytes'):
                return T(every())
            if name in ('list', 'tuple', 'sorted', 'iter', 'set', 'frozenset', 'reversed') and pos:
                els = elements(pos[0])
                f = {k: v for k, v in pos[0].f.items() if k[0] == 'i' and not isinstance(k[1], str)}
                return T(f={('i', '*'): els, **(f if name in ('list', 'tuple', 'iter') else {})}) if els else NO
            if name in ('next', 'min', 'max'):
                return join(elements(pos[0]) if pos else NO, *pos[1:])
            if name == 'filter':
                els = elements(pos[-1]) if pos else NO
                return T(f={('i', '*'): els}) if els else NO
            return join(*pos, T(f={('i', k): v for k, v in kw.items() if v}), extra) if name != 'map' else T(every())
        if d and KEEP_EXT.match(d):
            return T(every())
        return NO

    def request(self, f, d, name, env):
        """Does this call send a request?"""
        if d and re.match(r'(requests|webutil\.util\.requests|urllib\.request|httpx|aiohttp)\.', d) and name in HTTP | {'urlopen'}:
            return True
        if isinstance(f, ast.Name) and f.id in ('get_fn', 'post_fn', 'urlopen'):
            return True
        return isinstance(f, ast.Attribute) and name in HTTP and 'session' in ast.unparse(f.value).lower() and not (d or '').endswith('environ.get')

    def sent(self, name, d, pos, kw, extra, star):
        """What a request has, apart from credentials in its headers."""
        out = frozenset().union(*(t.all() for t in pos), star.all())
        for k, t in list(kw.items()) + [(k[1], t) for k, t in extra.f.items()]:
            if k in ('auth', 'cert'):
                continue
            if k == 'headers':
                for key, v in t.f.items():
                    if str(key[1]).lower() not in ('authorization',):
                        out |= v.all()
            else:
                out |= t.all()
        return out


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        n = n.value if not isinstance(n, ast.Call) else n.func
    return n.id if isinstance(n, ast.Name) else None


def const(n):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        return -n.operand.value
    return ...


def to_load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def strip_params(t):
    f = {k: strip_params(v) for k, v in t.f.items()}
    return T({x for x in t.s if x[0] != 'p'}, {k: v for k, v in f.items() if v}, t.m)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def merge(env, outs):
    outs = [dict(o) for o in outs]
    keys = set().union(*outs)
    new = {k: join(*(o[k] for o in outs if k in o)) for k in keys}
    env.clear()
    env.update(new)
