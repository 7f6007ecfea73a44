"""What the datastore's entities can hold, and which of their properties can be queried."""
import ast

from .common import *
from .trees import last

UNINDEXED = ('TextProperty', 'BlobProperty', 'WriteOnceBlobProperty', 'EncryptedProperty', 'JsonProperty', 'PickleProperty',
             'CompressedTextProperty', 'LocalStructuredProperty')
STRINGS = ('StringProperty', 'TextProperty')
# what has to be storable: model -> property -> (kinds, is it a list, values that it must allow)
STORED = {
    'AtpRepo': {
        'handles': (STRINGS, True, ()),
        'head': (STRINGS, False, ()),
        'status': (STRINGS, False, ('util.DEACTIVATED', 'util.DELETED', 'util.TOMBSTONED')),
        'created': (('DateTimeProperty',), False, ()),
    },
    'AtpBlock': {
        'repo': (('KeyProperty',), False, ()),
        'encoded': (None, False, ()),
        'seq': (('IntegerProperty',), False, ()),
        'ops': (('StructuredProperty', 'LocalStructuredProperty'), True, ()),
        'created': (('DateTimeProperty',), False, ()),
    },
    'CommitOp': {
        'action': (STRINGS, False, ('create', 'update', 'delete')),
        'path': (STRINGS, False, ()),
        'cid': (STRINGS, False, ()),
        'prev_cid': (STRINGS, False, ()),
    },
    'AtpSequence': {
        'next': (('IntegerProperty',), False, ()),
    },
    'AtpRemoteBlob': {
        'url': (STRINGS, False, ()),
        'cid': (STRINGS, False, ()),
        'size': (('IntegerProperty',), False, ()),
        'mime_type': (STRINGS, False, ()),
        'repos': (('KeyProperty',), True, ()),
        'last_fetched': (('DateTimeProperty',), False, ()),
        'status': (STRINGS, False, ('inactive',)),
        'width': (('IntegerProperty',), False, ()),
        'height': (('IntegerProperty',), False, ()),
        'duration': (('IntegerProperty', 'FloatProperty'), False, ()),
    },
}
# read_many_raw() reads these by name, from the datastore's own representation
RAW = (('AtpBlock', 'encoded'), ('AtpBlock', 'seq'))
# times of creation, which mustn't change when the entity is stored again
ONCE = (('AtpRepo', 'created'), ('AtpBlock', 'created'))
# compared to the current time, which has a time zone
AWARE = (('AtpRemoteBlob', 'last_fetched'),)
# may be longer than an indexed string can be
LONG = (('AtpRemoteBlob', 'url'),)


class Opaque(Exception):
    pass


def value(prog, mod, node, depth=0):
    """A constant expression's value."""
    v = prog.const_of(mod, node)
    if v is not ... and not isinstance(v, ast.AST):
        return v
    if depth > 5:
        raise Opaque
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        return [value(prog, mod, x, depth + 1) for x in node.elts]
    if isinstance(node, (ast.Name, ast.Attribute)):
        d = prog.canon(mod._dotted(node) or '?')
        m, _, name = d.rpartition('.')
        m = prog.modules.get(m)
        if m is None and isinstance(node, ast.Name):
            m, name = mod, node.id
        if m is not None and len(m.assigns.get(name, ())) == 1:
            return value(prog, m, m.assigns[name][0], depth + 1)
        return ('glob', d)
    raise Opaque


def prop(prog, mod, node, depth=0):
    """(kind, keywords, positional arguments, node) of a model property's declaration."""
    if isinstance(node, ast.Name) and len(mod.assigns.get(node.id, ())) == 1 and depth < 3:
        return prop(prog, mod, mod.assigns[node.id][0], depth + 1)
    if not isinstance(node, ast.Call) or any(k.arg is None for k in node.keywords):
        raise Opaque
    d = last(mod._dotted(node.func) or '?')
    if not d.endswith('Property'):
        f = mod.funcs.get(d) if hasattr(mod, 'funcs') else None
        body = f.node.body if f is not None else ()
        if len(body) == 1 and isinstance(body[0], ast.Return) and not node.args and not node.keywords and depth < 3:
            return prop(prog, mod, body[0].value, depth + 1)
        raise Opaque
    return d, {k.arg: k.value for k in node.keywords}, node.args, node


def queried(prog, models):
    """{(model, property): where} for properties that code refers to by their class, as queries do."""
    out = {}
    for mod in prog.modules.values():
        if '.tests' in mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                d = prog.canon(mod._dotted(n.value) or '?')
                m = models.get(d)
                if m is not None and any(n.attr in x.attrs for x in prog.mro(m)):
                    out.setdefault((m.name, n.attr), f'{mod.rel}:{n.lineno}')
    return out


def check(c, name, rule):
    prog = c.an.prog
    models = {k.full: k for m in prog.modules.values() if m.name == DSM for k in m.classes.values()
              if any(last(b or '') == 'Model' for x in prog.mro(k) for b in x.bases)}
    cls = prog.cls(f'{DSM}.{name}')
    c.anchor(cls is not None and cls.full in models, f'{name} is a datastore model')
    used = queried(prog, models)
    found = {}
    for base in prog.mro(cls):
        for n, node in base.attrs.items():
            found.setdefault(n, (base.mod, node))
    for n, (kinds, many, needed) in STORED[name].items():
        where = f'{cls.mod.rel}:{cls.node.lineno} ({cls.full})'
        inst = f'{name}.{n}'
        c.rule(rule, c.rules[rule])
        if n not in found:
            c.ob(inst, False, where, "isn't stored")
            continue
        mod, node = found[n]
        where = f'{mod.rel}:{node.lineno} ({cls.full})'
        try:
            kind, kw, args, decl = prop(prog, mod, node)
            kw = {k: v for k, v in kw.items()}
            get = lambda k: value(prog, mod, kw[k]) if k in kw else None
            if args and kind not in ('KeyProperty', 'StructuredProperty', 'LocalStructuredProperty'):
                kw.setdefault('name', args[0])
            if kinds is not None:
                c.ob(inst, kind in kinds, where, f"can't be stored as a {kind}")
            c.ob(inst, bool(get('repeated')) == many, where, "can't hold " + ('all of them' if many else 'just one'))
            if get('choices') is not None:
                allowed = get('choices')
                want = [value(prog, prog.modules['arroba.util'], ast.Name(x.split('.')[1])) if x.startswith('util.') else x for x in needed]
                if needed:
                    c.ob(inst, all(x in allowed for x in want), where, "can't hold some of its values")
                else:
                    c.unsure(f'{inst} is restricted to some values')
            if 'validator' in kw:
                c.unsure(f'{inst} has a validator')
            indexed = kind not in UNINDEXED and get('indexed') is not False
            if (name, n) in used:
                c.ob(inst, indexed, where, f"isn't indexed, but is queried at {used[name, n]}")
            if (name, n) in LONG:
                c.ob(inst, not indexed, where, "can't hold long values")
            if (name, n) in RAW:
                c.ob(inst, not get('compressed'), where, 'is compressed, which read_many_raw() doesn\'t undo')
                c.ob(inst, get('name') in (None, n), where, 'is stored under a name that read_many_raw() doesn\'t use')
            if (name, n) in ONCE:
                c.ob(inst, not get('auto_now'), where, 'changes whenever it\'s stored')
                if name == 'AtpRepo':
                    c.ob(inst, bool(get('auto_now_add')), where, "isn't set")
            if (name, n) in AWARE:
                c.ob(inst, 'tzinfo' in kw and get('tzinfo') is not None, where, "has no time zone, so it can't be compared to the current time")
        except Opaque:
            c.unsure(f'{inst} is declared in an unrecognised way')
    # entities made on the fly have what's required
    for mod in prog.modules.values():
        for call_ in ast.walk(mod.tree):
            if isinstance(call_, ast.Call) and isinstance(call_.func, ast.Attribute) and call_.func.attr == 'get_or_insert':
                base = call_.func.value
                d = prog.canon(mod._dotted(base) or '?')
                here = d == cls.full or isinstance(base, ast.Name) and base.id == 'cls' and inside(cls.node, call_)
                if not here or any(k.arg is None for k in call_.keywords):
                    continue
                given = {k.arg for k in call_.keywords}
                for n, (m, node) in found.items():
                    try:
                        kind, kw, args, _ = prop(prog, m, node)
                    except Opaque:
                        continue
                    if 'required' in kw and prog.const_of(m, kw['required']) is True and n not in given:
                        ok = 'default' in kw and prog.const_of(m, kw['default']) is not None or any(
                            k in kw and prog.const_of(m, kw[k]) is True for k in ('auto_now', 'auto_now_add'))
                        c.ob(f'{name}.{n} required', ok, f'{mod.rel}:{call_.lineno} ({cls.full})', "is required, but new entities don't have it")


def inside(node, x):
    return any(n is x for n in ast.walk(node))


@rules('C11')
def entities(c):
    c.rule('C11.schema', "the datastore's properties can hold every value that's stored in them, keep it, and are indexed if they're queried")
    for m in ('AtpRepo', 'AtpBlock', 'CommitOp', 'AtpSequence'):
        check(c, m, 'C11.schema')


@rules('X07')
def blob_entities(c):
    c.rule('X07.schema', "blobs' properties can hold every value that's stored in them, keep it, and are indexed if they're queried")
    check(c, 'AtpRemoteBlob', 'X07.schema')
