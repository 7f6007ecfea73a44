"""Loads the analysed program: modules, imports, classes, functions, constants.

Everything is read from the repository's current source with the standard
library's ``ast``; nothing is imported or run.
"""
import ast
import os


class AnalysisError(Exception):
    """The analysis can't give a verdict, eg because an anchor vanished."""


class Func:
    def __init__(self, mod, qual, node, cls=None):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.is_gen = isinstance(node, (ast.FunctionDef,)) and _has_yield(node)

    @property
    def full(self):
        return f'{self.mod.name}.{self.qual}'

    def __repr__(self):
        return f'<Func {self.full}>'


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods = {}
        self.attrs = {}      # class-level assignments: name -> ast value
        self.bases = []      # dotted names
        self.fields = None   # namedtuple fields
        self.defaults = {}

    @property
    def full(self):
        return f'{self.mod.name}.{self.name}'

    def __repr__(self):
        return f'<Class {self.full}>'


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, filename=path)
        self.imports = {}   # local name -> dotted
        self.funcs = {}     # name -> Func (module level)
        self.classes = {}
        self.assigns = {}   # name -> list of value nodes (module level)
        self.volatile = set()   # names rebound via ``global`` in functions
        self._index()

    def _pkg(self):
        return self.name.rsplit('.', 1)[0] if '.' in self.name else ''

    def _index(self):
        def walk(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            self.imports[a.asname] = a.name
                        else:
                            top = a.name.split('.')[0]
                            self.imports[top] = top
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        parts = self.name.split('.')[:-s.level]
                        base = '.'.join(parts + ([base] if base else []))
                    for a in s.names:
                        self.imports[a.asname or a.name] = f'{base}.{a.name}' if base else a.name
                elif isinstance(s, ast.FunctionDef):
                    self.funcs[s.name] = Func(self, s.name, s)
                elif isinstance(s, ast.ClassDef):
                    self._index_class(s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            self.assigns.setdefault(t.id, []).append(s.value)
                            self._maybe_namedtuple(t.id, s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                    self.assigns.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, ast.Try):
                    walk(s.body)
                    for h in s.handlers:
                        # eg ``except ImportError: flask = None``
                        pass
                    walk(s.orelse)
                    walk(s.finalbody)
                elif isinstance(s, (ast.If,)):
                    walk(s.body)
                    walk(s.orelse)
                elif isinstance(s, ast.With):
                    walk(s.body)
        walk(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.volatile.update(n.names)

    def _maybe_namedtuple(self, name, v):
        if (isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute))
                and (getattr(v.func, 'id', None) or getattr(v.func, 'attr', None)) == 'namedtuple'):
            c = Class(self, name, v)
            fields = v.args[1]
            if isinstance(fields, (ast.List, ast.Tuple)):
                c.fields = [e.value for e in fields.elts]
            elif isinstance(fields, ast.Constant):
                c.fields = fields.value.replace(',', ' ').split()
            for kw in v.keywords:
                if kw.arg == 'defaults':
                    d = kw.value
                    if isinstance(d, (ast.List, ast.Tuple)):
                        vals = list(d.elts)
                    elif (isinstance(d, ast.BinOp) and isinstance(d.op, ast.Mult)
                          and isinstance(d.left, (ast.List, ast.Tuple))
                          and isinstance(d.right, ast.Constant)):
                        vals = list(d.left.elts) * d.right.value
                    else:
                        vals = []
                    if vals:
                        for f, val in zip(c.fields[-len(vals):], vals):
                            c.defaults[f] = val
            self.classes[name] = c

    def _index_class(self, s):
        c = Class(self, s.name, s)
        c.bases = [self._dotted(b) for b in s.bases]
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                c.methods[b.name] = Func(self, f'{s.name}.{b.name}', b, cls=c)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.attrs[b.target.id] = b.value
                if c.fields is None and any('NamedTuple' in (x or '') for x in c.bases):
                    c.fields = []
                if c.fields is not None:
                    c.fields.append(b.target.id)
                    if b.value is not None:
                        c.defaults[b.target.id] = b.value
        self.classes[s.name] = c

    def _dotted(self, n):
        if isinstance(n, ast.Name):
            return self.imports.get(n.id) or f'{self.name}.{n.id}'
        if isinstance(n, ast.Attribute):
            b = self._dotted(n.value)
            return f'{b}.{n.attr}' if b else None
        return None


MUTATORS = {'add', 'append', 'appendleft', 'extend', 'extendleft', 'update', 'pop', 'popleft', 'popitem', 'remove', 'discard',
            'clear', 'insert', 'setdefault', 'sort', 'reverse', 'difference_update', 'intersection_update'}


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        for rel in self._files():
            path = os.path.join(root, rel)
            name = rel[:-3].replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            with open(path, encoding='utf-8') as f:
                src = f.read()
            try:
                self.modules[name] = Module(name, path, rel, src)
            except SyntaxError as e:
                raise AnalysisError(f'{rel} does not parse: {e}')

    def _files(self):
        out = []
        for d in ('arroba', 'scripts', '.'):
            full = os.path.join(self.root, d)
            if not os.path.isdir(full):
                continue
            for f in sorted(os.listdir(full)):
                if f.endswith('.py') and (d != '.' or f == 'app.py'):
                    out.append(f if d == '.' else f'{d}/{f}')
        # new subpackages, except tests
        adir = os.path.join(self.root, 'arroba')
        for sub in sorted(os.listdir(adir)) if os.path.isdir(adir) else []:
            full = os.path.join(adir, sub)
            if os.path.isdir(full) and sub not in ('tests', '__pycache__'):
                for f in sorted(os.listdir(full)):
                    if f.endswith('.py'):
                        out.append(f'arroba/{sub}/{f}')
        return out

    # -- name resolution
    def canon(self, dotted, _depth=0):
        """Follows re-exports: arroba.mst.storage.Block -> arroba.storage.Block."""
        if _depth > 10:
            return dotted
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is not None and i < len(parts):
                nxt = parts[i]
                # a submodule?
                if '.'.join(parts[:i + 1]) in self.modules:
                    continue
                if nxt in m.funcs or nxt in m.classes or nxt in m.assigns:
                    # ``from x import y`` later shadowed isn't a concern here
                    return dotted
                if nxt in m.imports:
                    return self.canon('.'.join([m.imports[nxt]] + parts[i + 1:]), _depth + 1)
                return dotted
        return dotted

    def lookup(self, dotted):
        """Returns Func, Class, Module or None for a canonical dotted name."""
        dotted = self.canon(dotted)
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                return m.funcs.get(rest[0]) or m.classes.get(rest[0])
            if len(rest) == 2 and rest[0] in m.classes:
                return self.find_method(m.classes[rest[0]], rest[1])
            return None
        return None

    def cls(self, dotted):
        c = self.lookup(dotted) if dotted else None
        return c if isinstance(c, Class) else None

    def mro(self, c):
        """C3-ish: good enough linearisation for this repository."""
        out = []

        def lin(c):
            seqs = []
            bases = [self.cls(b) for b in c.bases]
            bases = [b for b in bases if b]
            seqs = [lin(b) for b in bases] + [list(bases)]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                res.append(cand)
                for s in seqs:
                    if s and s[0] is cand:
                        s.pop(0)
            return res
        return lin(c)

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def method_writes(self, cls, name):
        """Attributes that a class's method may set on its own object."""
        c = self.cls(cls)
        if c is None:
            return ()
        memo = self.__dict__.setdefault('_method_writes', {})
        if (cls, name) in memo:
            return memo[cls, name]
        todo, seen, out = [name], set(), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for k in (*self.mro(c), *self.subclasses(c)):
                f = k.methods.get(n)
                if f is None or not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        if isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
                        else:
                            todo.append(x.attr)
                    held = x.value if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) else \
                        x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS else None
                    if isinstance(held, ast.Attribute) and isinstance(held.value, ast.Name) and held.value.id == me:
                        out.add(held.attr)
        memo[cls, name] = frozenset(out)
        return memo[cls, name]

    def entity_writes(self, name):
        """Attributes that a method of this name, of a datastore entity, may set on its entity."""
        if not hasattr(self, '_entity_writes'):
            direct, calls = {}, {}
            for m in self.modules.values():
                for c in m.classes.values():
                    if not any(b.endswith('ndb.Model') for k in self.mro(c) for b in k.bases):
                        continue
                    for f in c.methods.values():
                        me = f.node.args.args[0].arg if f.node.args.args else None
                        n = f.node.name
                        for x in ast.walk(f.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                                if isinstance(x.ctx, ast.Store):
                                    direct.setdefault(n, set()).add(x.attr)
                                elif isinstance(x.ctx, ast.Load):
                                    calls.setdefault(n, set()).add(x.attr)
            changed = True
            while changed:
                changed = False
                for n, cs in calls.items():
                    for k in cs:
                        if k != n and not direct.get(k, set()) <= direct.get(n, set()):
                            direct.setdefault(n, set()).update(direct[k])
                            changed = True
            self._entity_writes = direct
        return self._entity_writes.get(name, ())

    def func(self, dotted):
        f = self.lookup(dotted)
        if not isinstance(f, Func):
            raise AnalysisError(f'anchor vanished: function {dotted}')
        return f

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def handlers(self):
        """{NSID: Func} registered with ``server.server.method(NSID)``."""
        out = {}
        for m in self.modules.values():
            if not m.name.startswith('arroba'):
                continue
            for f in m.funcs.values():
                for d in f.node.decorator_list:
                    if (isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute)
                            and d.func.attr == 'method' and d.args):
                        nsid = d.args[0]
                        if isinstance(nsid, ast.Constant) and isinstance(nsid.value, str):
                            out[nsid.value] = f
                        elif isinstance(nsid, ast.Name) or isinstance(nsid, ast.Attribute):
                            v = self.const_of(m, nsid)
                            if isinstance(v, str):
                                out[v] = f
        return out

    def const_of(self, m, node):
        """Constant-folds a literal expression; returns Ellipsis if unknown."""
        try:
            return ast.literal_eval(node)
        except (ValueError, SyntaxError, TypeError):
            pass
        if isinstance(node, ast.Name):
            if node.id in m.assigns and len(m.assigns[node.id]) == 1:
                return self.const_of(m, m.assigns[node.id][0])
            if node.id in m.imports:
                return self.global_const(m.imports[node.id])
        if isinstance(node, ast.Attribute):
            d = m._dotted(node)
            if d:
                return self.global_const(d)
        return ...

    def global_const(self, dotted):
        dotted = self.canon(dotted)
        modname, _, name = dotted.rpartition('.')
        m = self.modules.get(modname)
        if m is None or name not in m.assigns or len(m.assigns[name]) != 1 or name in m.volatile:
            return ...
        return self.const_of(m, m.assigns[name][0])
