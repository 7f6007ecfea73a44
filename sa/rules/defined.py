"""Whether what code names exists: variables, functions, attributes and parameters."""
import ast
import os

from .. import names
from ..program import Module, Func, Class
from .common import *

SAME = {'staticmethod', 'classmethod', 'contextmanager', 'asynccontextmanager', 'abstractmethod', 'cache', 'lru_cache', 'wraps', 'transactional', 'tasklet',
        'method', 'errorhandler', 'route', 'get', 'post', 'override', 'singledispatch', 'ndb_context', 'cached'}
KEYS = {'id', 'key', 'parent', 'namespace', 'project', 'app', 'database', '_id', '_key', '_parent', '_namespace'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__qualname__', '__annotations__', '__subclasses__', '__mro__', '__bases__', '__wrapped__'}
TUPLE = {'_asdict', '_replace', '_fields', '_make', '_field_defaults', 'count', 'index'}
# variables and attributes that always hold one of the program's own objects, by the class of those objects
HOLDS = {'storage': 'arroba.storage.Storage', 'mst': 'arroba.mst.MST'}


def modules(c):
    """The program's modules, and the scripts beside it."""
    got = c.an.__dict__.get('named_modules')
    if got is None:
        got = list(c.prog.modules.values())
        have = {m.rel for m in got}
        for f in sorted(os.listdir(c.prog.root)):
            path = os.path.join(c.prog.root, f)
            if f.endswith('.py') and f not in have and os.path.isfile(path):
                with open(path, encoding='utf-8') as x:
                    src = x.read()
                try:
                    got.append(Module(f[:-3], path, f, src))
                except SyntaxError as e:
                    c.ob(f, False, f'{f}:{e.lineno}', "isn't valid Python")
        c.an.__dict__['named_modules'] = got
    return got


def where(m, node, scope):
    return f'{m.rel}:{node.lineno} ({m.name}{"." + scope.name if hasattr(scope, "name") else ""})'


@rules('U08', explanation=(
    'A definite assignment analysis of every function and script, partitioned by the conditions that each path has tested, finds uses of variables that may not be bound; every '
    'name, attribute of the program\'s own modules and classes, and call of its own functions is resolved against their definitions. Nothing is executed.'),
    assumptions=('libraries define what\'s used from them', 'attributes of objects whose class isn\'t known exist'))
def u08(c):
    c.rule('U08.bound', 'no variable is used on a path on which it isn\'t bound')
    total = 0
    for m in modules(c):
        bad, n = names.unbound(m.tree)
        total += n
        c.ob(m.name, True, f'{m.rel}:1')
        for scope, x, always, ranged in bad:
            if ranged:
                c.unsure(f'{where(m, x, scope)}: whether {x.id} is bound')
                continue
            c.ob(f'{m.name}.{getattr(scope, "name", "<module>")}: {x.id}', False, where(m, x, scope),
                 f'{x.id} {"is never" if always else "may not be"} bound when it\'s used')
    c.anchor(total > 1000, 'variables are used')
    c.rule('U08.defined', 'every name that\'s used is defined')
    total = 0
    for m in modules(c):
        bad, n = names.undefined(m.tree)
        total += n
        c.ob(m.name, True, f'{m.rel}:1')
        for scope, x in bad:
            c.ob(f'{m.name}: {x.id}', False, where(m, x, scope), f'{x.id} isn\'t defined')
    c.anchor(total > 1000, 'names are used')
    res = Resolver(c)
    c.rule('U08.members', 'every attribute of the program\'s own modules, classes and objects that\'s used exists')
    n = 0
    for m, scope, x, what, ok in res.members():
        n += 1
        c.ob(f'{m.name}: {what}', ok, where(m, x, scope), f'{what} doesn\'t exist')
    c.anchor(n > 200, 'the program\'s own attributes are used')
    c.rule('U08.calls', 'every call of one of the program\'s own functions passes the parameters that it has and needs')
    n = 0
    for m, scope, x, f, why in res.calls():
        n += 1
        c.ob(f'{m.name}: {f}', why is None, where(m, x, scope), f'{f} {why}')
    c.anchor(n > 200, 'the program\'s own functions are called')


class Resolver:
    def __init__(self, c):
        self.c, self.prog = c, c.prog
        self.mods = modules(c)
        self.by_name = {m.name: m for m in self.mods}
        self.sets = {}      # attributes that are set on anything, by what they're set on
        self.all_sets = set()
        for m in self.mods:
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    if not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                        self.all_sets.add(x.attr)
                    if isinstance(x.value, ast.Name) and x.value.id in m.imports:
                        self.sets.setdefault(self.prog.canon(m.imports[x.value.id]), set()).add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1:
                    self.all_sets.add(x.args[1].value if isinstance(x.args[1], ast.Constant) else '*')
        self.top = {m.name: self.toplevel(m) for m in self.mods}

    def toplevel(self, m):
        b, _ = names.binds(m.tree)
        return b | m.volatile | names.MAGIC

    # modules
    def has(self, mod, attr):
        return attr in self.top[mod] or f'{mod}.{attr}' in self.by_name or attr in self.sets.get(mod, ()) \
            or any(isinstance(x, ast.FunctionDef) and x.name == '__getattr__' for x in self.by_name[mod].tree.body)

    def scopes(self):
        """(module, scope, its class, names bound around it, parameters)."""
        for m in self.mods:
            for node, outer in names.scopes(m.tree):
                local = set()
                for o in outer + (node,):
                    if isinstance(o, names.FUN):
                        local |= names.binds(o)[0] | set(names.params(o))
                    elif isinstance(o, ast.ClassDef) and o is node:
                        local |= names.binds(o)[0]
                cls = next((o for o in reversed(outer) if isinstance(o, (ast.ClassDef,) + names.FUN)), None)
                k = m.classes.get(cls.name) if isinstance(cls, ast.ClassDef) and isinstance(node, names.FUN) else None
                yield m, node, k, local

    def own(self, node):
        """The scope's own nodes, with its lambdas', and the names that they hide."""
        def walk(x, hide):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, names.FUN + (ast.ClassDef,)):
                    continue
                h = hide
                if isinstance(c, ast.Lambda):
                    h = hide | set(names.params(c))
                elif isinstance(c, names.COMPS):
                    h = hide | names.comp_targets(c)
                yield c, h
                yield from walk(c, h)
        for s in node.body:
            if isinstance(s, names.FUN + (ast.ClassDef,)):
                continue
            yield s, frozenset()
            yield from walk(s, frozenset())

    def dotted(self, m, x, hidden):
        """A dotted name's meaning, if it starts with a module's own name."""
        parts = []
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or x.id in hidden:
            return None
        if x.id in m.imports:
            base = m.imports[x.id]
        elif x.id in m.funcs or x.id in m.classes:
            base = f'{m.name}.{x.id}'
        else:
            return None
        return '.'.join([base] + parts[::-1])

    def self_name(self, node, k):
        if k is None or not node.args.args or any(self.deco(d) == 'staticmethod' for d in node.decorator_list):
            return None
        return node.args.args[0].arg

    @staticmethod
    def deco(d):
        d = d.func if isinstance(d, ast.Call) else d
        return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''

    def closed(self, k):
        """Are all of a class's bases known?"""
        for b in self.prog.mro(k):
            for x in b.bases if isinstance(b.node, ast.ClassDef) else ():
                x = x or ''
                if self.prog.cls(x) is None and x.rsplit('.', 1)[-1] not in ('object', 'NamedTuple', 'ABC', 'Enum'):
                    return False
            if isinstance(b.node, ast.ClassDef) and ({'__getattr__', '__getattribute__'} & set(b.methods) or b.node.keywords or b.node.decorator_list):
                return False
        return True

    def attrs(self, k):
        out = set(OBJECT)
        for b in self.prog.mro(k) + self.prog.subclasses(k):
            out |= set(b.methods) | set(b.attrs) | set(b.fields or ())
            out |= {x.attr for x in ast.walk(b.node) if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load)
                    and isinstance(x.value, ast.Name) and x.value.id == 'self'}
            if b.fields is not None:
                out |= TUPLE
            if isinstance(b.node, ast.ClassDef):
                out |= names.binds(b.node)[0]
                out |= {x.target.id for x in b.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
                if any((x or '').endswith('Enum') for x in b.bases):
                    out |= {'name', 'value', '__members__', '_member_map_', '_value2member_map_'}
        return out | self.all_sets

    def holds(self, v, d):
        """The class of the objects that a variable or attribute, which d resolves to, always holds."""
        t = self.prog.canon(d) if d is not None else None
        if t is not None and (t in self.by_name or self.prog.lookup(t) is not None):
            return None
        return self.prog.cls(HOLDS.get(v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None))

    def members(self):
        for m, node, k, local in self.scopes():
            me = self.self_name(node, k)
            for x, hide in self.own(node):
                hidden = local | hide
                if isinstance(x, ast.ImportFrom):
                    base = x.module or ''
                    if x.level:
                        parts = m.name.split('.')
                        if not m.rel.endswith('__init__.py'):
                            parts = parts[:-1]
                        parts = parts[:len(parts) - x.level + 1]
                        base = '.'.join(parts + ([base] if base else []))
                    if base in self.by_name:
                        for a in x.names:
                            if a.name != '*':
                                yield m, node, x, f'{base}.{a.name}', self.has(base, a.name)
                    elif base.split('.')[0] == 'arroba':
                        yield m, node, x, base, False
                    continue
                if isinstance(x, ast.Import):
                    for a in x.names:
                        if a.name.split('.')[0] == 'arroba':
                            yield m, node, x, a.name, a.name in self.by_name
                    continue
                if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                    continue
                if isinstance(x.value, ast.Name) and x.value.id == me and me not in hide:
                    if self.closed(k):
                        yield m, node, x, f'{k.full}.{x.attr}', x.attr in self.attrs(k) or '*' in self.all_sets
                    continue
                d = self.dotted(m, x.value, hidden)
                k2 = self.holds(x.value, d)
                if d is None or k2 is not None:
                    if k2 is not None and all(self.closed(b) for b in [k2] + self.prog.subclasses(k2)):
                        yield m, node, x, f'{k2.full}.{x.attr}', x.attr in self.attrs(k2) or '*' in self.all_sets
                    continue
                t = self.prog.canon(d)
                if t in self.by_name:
                    yield m, node, x, f'{t}.{x.attr}', self.has(t, x.attr)
                    continue
                cl = self.prog.cls(t)
                if cl is not None and (cl.fields is not None or self.closed(cl)):
                    yield m, node, x, f'{cl.full}.{x.attr}', x.attr in self.attrs(cl) or '*' in self.all_sets

    # calls
    def calls(self):
        for m, node, k, local in self.scopes():
            me = self.self_name(node, k)
            for x, hide in self.own(node):
                if isinstance(x, ast.Call):
                    for f, why in self.called(m, node, k, me, x, local | hide):
                        yield m, node, x, f, why

    def called(self, m, node, k, me, x, hidden):
        f = x.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and k is not None:
            for g, cl in self.methods(k, f.attr):
                yield g.full, self.fits(g, x, True)
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and k is not None:
            for b in self.prog.mro(k)[1:]:
                if f.attr in b.methods:
                    yield b.methods[f.attr].full, self.fits(b.methods[f.attr], x, True)
                    break
            return
        d = self.dotted(m, f, hidden)
        if d is not None and not (isinstance(f, ast.Attribute) and self.holds(f.value, self.dotted(m, f.value, hidden))):
            t = self.prog.canon(d)
            g = self.prog.lookup(t) if t.split('.')[0] in ('arroba', m.name) or t in self.by_name else None
            if g is None and d.startswith(m.name + '.'):
                g = m.funcs.get(d[len(m.name) + 1:]) or m.classes.get(d[len(m.name) + 1:])
            if isinstance(g, Class):
                yield g.full, self.constructs(g, x)
            elif isinstance(g, Func):
                bound = g.cls is not None and any(self.deco(y) == 'classmethod' for y in g.node.decorator_list)
                yield g.full, self.fits(g, x, bound)
            return
        if isinstance(f, ast.Attribute):
            k2 = self.holds(f.value, self.dotted(m, f.value, hidden))
            if k2 is not None:
                for g, cl in self.methods(k2, f.attr):
                    yield g.full, self.fits(g, x, True)

    def methods(self, k, name):
        """What a method call on an object of this class, or one of its subclasses, may call."""
        out = []
        for b in [k] + self.prog.subclasses(k):
            for a in self.prog.mro(b):
                if name in a.methods:
                    if all(a.methods[name] is not g for g, _ in out):
                        out.append((a.methods[name], a))
                    break
        return out

    def constructs(self, k, x):
        for b in self.prog.mro(k):
            if '__init__' in b.methods:
                return self.fits(b.methods['__init__'], x, True)
            if '__new__' in b.methods:
                return None
            if b.fields is not None:
                return self.match([], list(b.fields), [f for f in b.fields if f not in b.defaults], [], [], False, False, x, 0)
            if isinstance(b.node, ast.ClassDef) and any((y or '').endswith('.Model') for y in b.bases):
                known = {a for c in self.prog.mro(k) for a in c.attrs} | KEYS
                bad = [y.arg for y in x.keywords if y.arg is not None and y.arg not in known]
                return f'has no {", ".join(bad)}' if bad else None
        return None

    def fits(self, g, x, bound):
        n = g.node
        decos = [self.deco(d) for d in n.decorator_list]
        if any(d in ('property', 'cached_property', 'setter') for d in decos):
            return None
        if any(d not in SAME for d in decos):
            # eg a decorator that passes something else
            for d in n.decorator_list:
                y = self.prog.lookup(self.prog.canon(g.mod._dotted(d.func if isinstance(d, ast.Call) else d) or ''))
                if not isinstance(y, Func) and self.deco(d) not in SAME:
                    return None
        a = n.args
        pos = [p.arg for p in a.posonlyargs]
        both = [p.arg for p in a.args]
        skip = 1 if bound and 'staticmethod' not in decos and (g.cls is not None) else 0
        nd = len(a.defaults)
        allp = pos + both
        need = allp[:len(allp) - nd] if nd else list(allp)
        kwo = [p.arg for p in a.kwonlyargs]
        kneed = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return self.match(pos, both, need, kwo, kneed, a.vararg is not None, a.kwarg is not None, x, skip)

    @staticmethod
    def match(pos, both, need, kwo, kneed, var, kw, x, skip):
        allp = pos + both
        star = any(isinstance(y, ast.Starred) for y in x.args)
        dstar = any(y.arg is None for y in x.keywords)
        given = len([y for y in x.args if not isinstance(y, ast.Starred)]) + skip
        if given > len(allp) and not var:
            return f'takes {len(allp) - skip} arguments, not {given - skip}'
        for y in x.keywords:
            if y.arg is None:
                continue
            if y.arg not in both + kwo and not kw:
                return f'has no parameter {y.arg}'
            if y.arg in allp[:given] and y.arg not in pos and not star:
                return f'gets {y.arg} twice'
        if not star and not dstar:
            got = set(allp[:given]) | {y.arg for y in x.keywords}
            missing = [p for p in need + kneed if p not in got]
            if missing:
                return f'isn\'t given {", ".join(missing)}'
        elif not dstar and star:
            missing = [p for p in kneed if p not in {y.arg for y in x.keywords}]
            if missing:
                return f'isn\'t given {", ".join(missing)}'
        return None
