"""Are names bound when they're used, and do the functions, attributes and parameters that code names exist?

A flow-sensitive definite assignment analysis of syntax trees, partitioned by the conditions that have been tested,
and checks of references and calls against the definitions in the program.
"""
import ast
import builtins

FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUN + (ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MAGIC = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__debug__', '__class__'}
BUILTINS = set(dir(builtins)) | MAGIC
LIMIT = 128
RANGE = '<range>'     # marks what follows a range that may be empty


def children(n):
    """Nodes in the same scope, in source order, without those of nested functions and classes' bodies."""
    for c in ast.iter_child_nodes(n):
        yield c
        if isinstance(c, FUN):
            for x in c.decorator_list + c.args.defaults + [d for d in c.args.kw_defaults if d]:
                yield x
                yield from children(x)
        elif isinstance(c, ast.Lambda):
            for x in c.args.defaults + [d for d in c.args.kw_defaults if d]:
                yield x
                yield from children(x)
        elif isinstance(c, ast.ClassDef):
            for x in c.decorator_list + c.bases + [k.value for k in c.keywords]:
                yield x
                yield from children(x)
        else:
            yield from children(c)


def target_names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)]


def comp_targets(n):
    return {x for g in n.generators for x in target_names(g.target)}


def params(n):
    a = n.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def binds(n):
    """(names that this scope binds, names that it declares global or nonlocal)."""
    out, decl = set(), set()

    def walk(x, hidden):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, FUN + (ast.ClassDef,)):
                out.add(c.name)
                for d in c.decorator_list:
                    walk(ast.Expr(d), hidden)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, COMPS):
                # its targets are its own, but assignment expressions bind here
                for y in ast.walk(c):
                    if isinstance(y, ast.NamedExpr):
                        out.add(y.target.id)
                continue
            if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load):
                out.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                decl.update(c.names)
            elif isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            elif isinstance(c, ast.MatchMapping) and c.rest:
                out.add(c.rest)
            walk(c, hidden)
    walk(ast.Module(body=n.body, type_ignores=[]), ())
    return out - decl, decl


class Part:
    """A partition: which names are unbound, given what was tested."""
    __slots__ = ('un', 'conds', '_h')

    def __init__(self, un, conds):
        self.un, self.conds = un, conds
        self._h = hash((un, conds))

    def __eq__(self, o):
        return self.un == o.un and self.conds == o.conds

    def __hash__(self):
        return self._h


def joined(parts):
    """Merges all partitions."""
    return frozenset([Part(frozenset().union(*(p.un for p in parts)), frozenset())]) if parts else frozenset()


def merged(parts):
    """Merges the partitions in which the same names are unbound."""
    by = {}
    for p in parts:
        by[p.un] = by[p.un] & p.conds if p.un in by else p.conds
    if len(by) > LIMIT:
        by = {u: frozenset() for u in by}
    return frozenset(Part(u, c) for u, c in by.items())


def testable(n):
    return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda) + COMPS) and not
                   (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'bool')) for x in ast.walk(n))


def safe(s):
    """Can a statement not raise anything?"""
    if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Break, ast.Continue)):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and not any(
        isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Compare, ast.Starred, ast.Await, ast.Yield, ast.YieldFrom, ast.FormattedValue)
                   + COMPS) for x in ast.walk(s.value))


def none_test(n):
    return ast.Compare(n, [ast.Is()], [ast.Constant(None)])


def is_none(n):
    """What's compared to None, or None."""
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Is) and isinstance(n.left, ast.Name) \
            and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
        return n.left
    return None


def linear(n):
    """{term: coefficient}, where '' is the constant."""
    if isinstance(n, ast.Constant) and isinstance(n.value, int):
        return {'': n.value} if n.value else {}
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        a, b = linear(n.left), linear(n.right)
        return minus(a, b) if isinstance(n.op, ast.Sub) else minus(a, minus({}, b))
    return {ast.dump(n): 1}


def minus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


class Flow:
    """One scope's flow."""
    def __init__(self, node, locals_, start, track=None):
        # first without partitions, and then for the names that may matter
        self.node, self.locals = node, locals_
        self.same = joined if track is None else merged
        if track is not None:
            start = start & track
        self.track = locals_ if track is None else track
        self.hits = {}       # (line, name) -> (node, in every partition?)
        self.uses = 0
        self.points = []     # collectors of the try statements around
        self.loops = []
        self.tests = {}
        out = self.block(node.body, frozenset([Part(frozenset(start), frozenset())]))
        self.end = out

    # state
    def bind(self, S, name):
        if name not in self.locals:
            return S
        return self.same({Part(p.un - {name}, self.forget(p.conds, name)) for p in S})

    def unbind(self, S, name):
        if name not in self.locals:
            return S
        return self.same({Part(p.un | ({name} & self.track), self.forget(p.conds, name)) for p in S})

    @staticmethod
    def forget(conds, name):
        return frozenset(c for c in conds if name not in c[2]) if conds else conds

    def point(self, S):
        for c in self.points:
            c.update(S)

    # expressions
    def ev(self, n, S, hide=frozenset()):
        if n is None or not S:
            return S
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in hide:
                self.uses += 1
                bad = [p for p in S if n.id in p.un]
                if bad:
                    k = (n.lineno, n.id)
                    old = self.hits.get(k)
                    self.hits[k] = (n, len(bad) == len(S) and (old is None or old[1]),
                                    all(RANGE in p.un for p in bad) and (old is None or old[2]))
                    # it raised there
                    S = frozenset(p for p in S if n.id not in p.un)
            return S
        if isinstance(n, (ast.BoolOp, ast.IfExp)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            if isinstance(n, ast.IfExp):
                t, f = self.cond(n.test, S, hide)
                return self.same(self.ev(n.body, t, hide) | self.ev(n.orelse, f, hide))
            t, f = self.cond(n, S, hide)
            return self.same(t | f)
        if isinstance(n, ast.NamedExpr):
            return self.bind(self.ev(n.value, S, hide), n.target.id)
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                S = self.ev(d, S, hide)
            return S
        if isinstance(n, COMPS):
            h = hide
            outs = None
            for i, g in enumerate(n.generators):
                S = self.ev(g.iter, S, h)
                outs = S if outs is None else outs | S
                h = h | set(target_names(g.target))
                for x in ast.walk(g.target):
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        S = self.ev(x, S, h)
                for c in g.ifs:
                    S, f = self.cond(c, S, h)
                    outs |= f
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                S = self.ev(e, S, h)
            return self.same({Part(p.un, p.conds) for p in outs | S})
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice, ast.FormattedValue)):
                S = self.ev(c, S, hide)
        return S

    def cond(self, n, S, hide=frozenset()):
        """(partitions in which it's true, in which it's false)."""
        if not S:
            return S, S
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, S, hide)
            return f, t
        if isinstance(n, ast.BoolOp):
            left = S
            out = frozenset()
            for v in n.values:
                t, f = self.cond(v, left, hide)
                if isinstance(n.op, ast.And):
                    left, out = t, out | f
                else:
                    left, out = f, out | t
            left, out = self.same(left), self.same(out)
            return (left, out) if isinstance(n.op, ast.And) else (out, left)
        if isinstance(n, ast.Constant):
            return (S, frozenset()) if n.value else (frozenset(), S)
        S = self.ev(n, S, hide)
        if not testable(n) or hide & {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}:
            return S, S
        flip = isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn))
        k = n
        if flip:
            op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(n.ops[0])]()
            k = ast.Compare(n.left, [op], n.comparators)
        key = ast.dump(k)
        self.tests[key] = k
        names = frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
        out = {True: set(), False: set()}
        for p in S:
            got = next((c[1] for c in p.conds if c[0] == key), None)
            for v in (True, False):
                if got is None:
                    extra = {(key, v, names, is_none(k) is not None)}
                    if v and isinstance(k, ast.Name):
                        extra.add((ast.dump(none_test(k)), False, names, True))
                    elif v and is_none(k) is not None:
                        extra.add((ast.dump(is_none(k)), False, names, True))
                    out[v].add(Part(p.un, p.conds | extra))
                elif got is v:
                    out[v].add(p)
        t, f = self.same(out[True]), self.same(out[False])
        return (f, t) if flip else (t, f)

    def store(self, t, S):
        if isinstance(t, ast.Name):
            return self.bind(S, t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                S = self.store(x, S)
            return S
        if isinstance(t, ast.Starred):
            return self.store(t.value, S)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            S = self.ev(t.value, S)
            if isinstance(t, ast.Subscript):
                S = self.ev(t.slice, S)
            # what was tested may have changed
            root = next((x.id for x in ast.walk(t.value) if isinstance(x, ast.Name)), None)
            return self.same({Part(p.un, self.forget(p.conds, root)) for p in S}) if root else S
        return S

    # statements
    def block(self, body, S):
        for s in body:
            if not S:
                break
            S = self.stmt(s, S)
        return S

    def stmt(self, s, S):
        if not safe(s):
            self.point(S)
        S = self.do(s, S)
        if not isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            self.point(S)
        return S

    def do(self, s, S):
        if isinstance(s, ast.Expr):
            return self.ev(s.value, S)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and testable(s.value) \
                and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and s.targets[0].id in self.locals \
                and not any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)):
            # a condition that may be tested later
            x = s.targets[0].id
            out = frozenset()
            for part, v in zip(self.cond(s.value, S), (True, False)):
                know = (ast.dump(ast.Name(x, ast.Load())), v, frozenset([x]), True)
                out |= frozenset(Part(p.un, p.conds | {know}) for p in self.bind(part, x))
            return self.same(out)
        if isinstance(s, ast.Assign):
            S = self.ev(s.value, S)
            for t in s.targets:
                S = self.store(t, S)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant) and t.id in self.locals:
                    x = ast.Name(t.id, ast.Load())
                    known = {(ast.dump(x), bool(s.value.value), frozenset([t.id]), True),
                             (ast.dump(none_test(x)), s.value.value is None, frozenset([t.id]), True)}
                    S = self.same({Part(p.un, p.conds | known) for p in S})
            return S
        if isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Name):
                S = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), S)
            else:
                S = self.ev(t.value, S)
                if isinstance(t, ast.Subscript):
                    S = self.ev(t.slice, S)
            return self.store(t, self.ev(s.value, S))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return S
            return self.store(s.target, self.ev(s.value, S))
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    S = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), S)
                    S = self.unbind(S, t.id)
                else:
                    S = self.ev(t, S)
            return S
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return):
                self.ev(s.value, S)
            else:
                S = self.ev(s.exc, S)
                self.ev(s.cause, S)
            return frozenset()
        if isinstance(s, ast.Break):
            self.loops[-1][0].update(S)
            return frozenset()
        if isinstance(s, ast.Continue):
            self.loops[-1][1].update(S)
            return frozenset()
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, S)
            return self.same(self.block(s.body, t) | self.block(s.orelse, f))
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, S)
            self.ev(s.msg, f)
            return t
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(s, S)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            hides = False
            for i in s.items:
                S = self.ev(i.context_expr, S)
                x = i.context_expr
                hides |= isinstance(x, ast.Call) and ast.unparse(x.func).rsplit('.', 1)[-1] == 'suppress'
                if i.optional_vars is not None:
                    S = self.store(i.optional_vars, S)
            if not hides:
                return self.block(s.body, S)
            pts = set(S)
            self.points.append(pts)
            S = self.block(s.body, S)
            self.points.pop()
            return self.same(S | pts)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.try_(s, S)
        if isinstance(s, FUN):
            for x in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                S = self.ev(x, S)
            return self.bind(S, s.name)
        if isinstance(s, ast.ClassDef):
            for x in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                S = self.ev(x, S)
            return self.bind(S, s.name)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                S = self.bind(S, (a.asname or a.name).split('.')[0])
            return S
        if isinstance(s, ast.Match):
            S = self.ev(s.subject, S)
            out = frozenset()
            for c in s.cases:
                T = S
                for x in ast.walk(c.pattern):
                    for k in ('name', 'rest'):
                        if isinstance(getattr(x, k, None), str):
                            T = self.bind(T, getattr(x, k))
                wild = isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
                if c.guard is not None:
                    T, f = self.cond(c.guard, T)
                out |= self.block(c.body, T)
                if wild and c.guard is None:
                    S = frozenset()
                    break
            return self.same(out | S)
        return S

    def loop(self, s, S):
        head = S
        if not isinstance(s, ast.While):
            head = self.ev(s.iter, S)
        seen = frozenset()
        done, breaks = set(), set()
        if not isinstance(s, ast.While):
            done |= self.empty(s.iter, self.same(head))
        while True:
            new = self.same(seen | head)
            if new == seen:
                break
            seen = new
            if isinstance(s, ast.While):
                t, f = self.cond(s.test, seen)
                done |= f
            else:
                t = self.store(s.target, seen)
            self.loops.append((set(), set()))
            out = self.block(s.body, t)
            b, c = self.loops.pop()
            breaks |= b
            # what's tested may have changed
            again = {Part(p.un, frozenset(x for x in p.conds if x[3])) for p in out | c}
            if not isinstance(s, ast.While):
                done |= again
            head = again
        return self.same(self.block(s.orelse, self.same(done)) | breaks)

    def empty(self, it, S):
        """The partitions in which there may be nothing to loop over."""
        if isinstance(it, ast.Name):
            # maybe it has another name
            vals = [x.value for x in ast.walk(self.node) if isinstance(x, ast.Assign) and any(it.id in target_names(t) for t in x.targets)]
            it = vals[0] if len(vals) == 1 else it
        S -= self.some(it, S)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            return frozenset(Part(p.un | {RANGE}, p.conds) for p in S)
        return S

    def some(self, it, S):
        """The partitions in which a range certainly has something in it."""
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and 1 <= len(it.args) <= 2 and not it.keywords):
            return frozenset()
        lo, hi = it.args if len(it.args) == 2 else (ast.Constant(0), it.args[0])
        want = minus(linear(hi), linear(lo))    # it's at least 1
        return frozenset(p for p in S if want == {'': want.get('', 0)} and want.get('', 0) >= 1 or any(self.implies(c, want) for c in p.conds))

    def implies(self, c, want):
        n = self.tests.get(c[0])
        if not isinstance(n, ast.Compare) or len(n.ops) != 1:
            return False
        op = type(n.ops[0])
        a, b = linear(n.left), linear(n.comparators[0])
        if not c[1]:
            op = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(op)
        if op in (ast.Lt, ast.LtE):
            a, b = b, a
        elif op not in (ast.Gt, ast.GtE):
            return False
        least = 1 if op in (ast.Lt, ast.Gt) else 0
        d = minus(want, minus(a, b))     # want - (a - b) is a constant
        return d is not None and set(d) <= {''} and d.get('', 0) + least >= 1

    def try_(self, s, S):
        # in a block with a finally, the states that it may be left in abruptly
        fin = set(S) if s.finalbody else None
        if fin is not None:
            self.points.append(fin)
        pts = set() if safe(s.body[0]) else set(S)
        self.points.append(pts)
        out = self.block(s.body, S)
        self.points.pop()
        out = self.block(s.orelse, out)
        for h in s.handlers:
            T = self.same(pts)
            T = self.ev(h.type, T)
            if h.name:
                T = self.bind(T, h.name)
            T = self.block(h.body, T)
            if h.name:
                T = self.unbind(T, h.name)
            out |= T
        out = self.same(out)
        if fin is not None:
            self.points.pop()
            self.block(s.finalbody, self.same(fin))
            out = self.block(s.finalbody, out)
        return out


def scopes(tree):
    """(node, enclosing nodes) for the module and every function and class body in it."""
    yield tree, ()

    def walk(n, outer):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUN + (ast.ClassDef,)):
                yield c, outer
                yield from walk(c, outer + (c,))
            else:
                yield from walk(c, outer)
    yield from walk(tree, (tree,))


def loads(n):
    """Names that a scope loads itself, with its lambdas and comprehensions: [(node, hidden names)]."""
    def walk(x, hide):
        for c in ast.iter_child_nodes(x):
            yield from one(c, hide)

    def one(c, hide):
        if isinstance(c, FUN + (ast.ClassDef,)):
            extra = c.decorator_list + (c.bases + [k.value for k in c.keywords] if isinstance(c, ast.ClassDef) else
                                        c.args.defaults + [d for d in c.args.kw_defaults if d])
            for e in extra:
                yield from one(e, hide)
        elif isinstance(c, ast.Lambda):
            for d in c.args.defaults + [d for d in c.args.kw_defaults if d]:
                yield from one(d, hide)
            yield from one(c.body, hide | set(params(c)))
        elif isinstance(c, COMPS):
            h = hide | comp_targets(c)
            yield from walk(c, h)
        elif isinstance(c, (ast.AnnAssign, ast.arg)) or isinstance(c, ast.arguments):
            if isinstance(c, ast.AnnAssign):
                yield from one(c.target, hide)
                if c.value is not None:
                    yield from one(c.value, hide)
        else:
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                yield c, hide
            yield from walk(c, hide)
    for s in n.body:
        yield from one(s, frozenset())


def suites(n):
    """Every list of statements in a scope."""
    for x in ast.walk(n):
        for k in ('body', 'orelse', 'finalbody'):
            v = getattr(x, k, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield v


def with_it(node, name):
    """Is a variable always set together with another one, that's then checked by a call?"""
    other = None
    mine = set()
    for body in suites(node):
        set_ = {x for s in body if not isinstance(s, FUN + (ast.ClassDef,)) for x in (
            [y for t in s.targets for y in target_names(t)] if isinstance(s, ast.Assign) else [])}
        if name in set_:
            mine |= {id(y) for s in body for y in ast.walk(s)}
            other = set_ if other is None else other & set_
    other = (other or set()) - {name}
    for x in ast.walk(node):
        t = x.test if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) else x.value if isinstance(x, ast.Expr) else None
        for c in ast.walk(t) if t is not None and id(x) not in mine else ():
            if isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id in other for a in c.args + [k.value for k in c.keywords]):
                return True
    return False


def unbound(tree):
    """[(scope, name node, always?, or is it unknown?)] of the uses of variables that may not be bound, and how many uses there are."""
    out, n = [], 0
    for node, outer in scopes(tree):
        if isinstance(node, ast.ClassDef):
            continue
        b, decl = binds(node)
        ps = params(node) if isinstance(node, FUN) else []
        f = Flow(node, b | set(ps), b - set(ps))
        n += f.uses
        if f.hits:
            f = Flow(node, b | set(ps), b - set(ps), {x.id for x, _, _ in f.hits.values()})
        for x, always, ranged in f.hits.values():
            # a module's own names may be defined by something it imports
            if isinstance(node, ast.Module) and x.id in BUILTINS:
                continue
            out.append((node, x, always, ranged or not always and with_it(node, x.id)))
    return out, n


def undefined(tree):
    """[(scope, name node)] of the names that nothing defines, and how many names there are."""
    out, n = [], 0
    mod, _ = binds(tree)
    if any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(tree)):
        return out, n
    for node, outer in scopes(tree):
        mod |= binds(node)[1]
    for node, outer in scopes(tree):
        known = set(mod) | BUILTINS
        for o in outer + (node,):
            if isinstance(o, ast.ClassDef) and o is not node:
                continue
            known |= binds(o)[0]
            if isinstance(o, FUN):
                known |= set(params(o))
        for x, hide in loads(node):
            n += 1
            if x.id not in known and x.id not in hide:
                out.append((node, x))
    return out, n
