"""XRPC methods' signatures and results, against their lexicons."""
import ast
import json
import re

from .common import *
from .xrpc import INP, LEX, handler, nsids, runh, short, unjson

OPAQUE_JSON = ('json.loads',)


def signature(f):
    """(positional names, {name: default node}, names without default, takes **kw, takes *args)"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    named = [x.arg for x in a.args + a.kwonlyargs]
    needed = [x.arg for x in pos + a.kwonlyargs if x.arg not in d]
    return [x.arg for x in pos], named, d, needed, a.kwarg is not None, a.vararg is not None


def kind(t):
    """The JSON type of a term, if it's certain."""
    if is_const(t):
        v = cval(t)
        return 'null' if v is None else 'boolean' if isinstance(v, bool) else 'integer' if isinstance(v, int) else 'string' if isinstance(v, str) \
            else 'number' if isinstance(v, float) else 'bytes' if isinstance(v, bytes) else None
    if t[0] == 'fmt':
        return 'string'
    if t[0] in ('list', 'gen', 'set', 'tuple'):
        return 'array'
    if t[0] in ('dict', 'nt'):
        return 'object' if t[0] == 'dict' else None
    if t[0] in ('isnone', 'not', 'cmp', 'isinst', 'in'):
        return 'boolean'
    if t[0] == 'attr' and t[2] == 'cid':
        return 'cid-link' if t[1][0] == 'attr' and t[1][2] == 'head' or t[1][0] == 'call' and fn_is(t[1][1], 'read', 'Block') else None
    if t[0] == 'attr' and t[2] == 'seq':
        return 'integer'
    if t[0] == 'call':
        if fn_is(t[1], 'CID.decode', 'dag_cbor_cid'):
            return 'cid-link'
        if t[1] in ('?.encode',) and dict(t[2]).get(0) in (K('base32'), K('base58btc')) or fn_is(t[1], 'builtins.str', 'int_to_tid', 'next_tid', 'at_uri'):
            return 'string'
        if fn_is(t[1], 'builtins.len', 'builtins.int'):
            return 'integer'
        if fn_is(t[1], 'builtins.bool'):
            return 'boolean'
        if fn_is(t[1], 'builtins.list', 'builtins.sorted'):
            return 'array'
        if fn_is(t[1], 'dag_json.encode', 'dag_cbor.encode', 'write_car'):
            return 'bytes'
    return None


def conforms(c, r, p, where, t, schema):
    """Checks a term against a schema extracted from a lexicon."""
    if 'properties' in schema:
        if t[0] == 'call' and fn_is(t[1], 'json.loads'):
            t = unjson(r, p, t) or t
        if t[0] != 'dict':
            k = kind(t)
            if k is not None:
                c.ob(where, False, p, f'is a {k}, not an object', p)
            return False
        for n, s in schema['properties'].items():
            v = dget(t, n)
            need = n in schema['required']
            if v is ...:
                if need and not spreads(t, n):
                    c.unsure(f"{where}'s {n} is unrecognised")
                continue
            if v is None:
                if need:
                    c.ob(f'{where}: {n}', False, p, 'lacks a property that its lexicon requires', p)
                continue
            if need:
                c.ob(f'{where}: {n}', v != NONE, p, 'is null', p)
            if v == NONE:
                c.ob(f'{where}: {n}', False, p, 'is null', p)
            else:
                conforms(c, r, p, f'{where}: {n}', v, s)
        return True
    if 'items' in schema:
        k = kind(t)
        if k is not None and k != 'array':
            c.ob(where, False, p, f"is a {k}, not an array", p)
        elif t[0] in ('list', 'gen', 'tuple'):
            for v in items(t):
                conforms(c, r, p, f'{where} item', v, schema['items'])
        return True
    k, want = kind(t), schema.get('type')
    if k is not None and want in ('string', 'boolean', 'integer', 'array', 'object', 'bytes', 'cid-link'):
        c.ob(where, k == want, p, f'is a {k}, not a {want}', p)
    return True


def spreads(t, n):
    """Could a spread mapping provide key n?"""
    return any(e[0] != 'kv' for e in t[1])


def items(t):
    if t[0] == 'tuple':
        return list(t[1])
    out = []
    for g in t[1]:
        if g[0] == 'one':
            out.append(g[1])
        elif g[0] == 'loop':
            out += [x[1] for _, segs in g[3] for x in segs if x[0] == 'one']
        elif g[0] == 'spread' and g[1][0] in ('list', 'gen', 'tuple'):
            out += items(g[1])
    return out


def nullable(c, r, p, where, it, facts, t):
    """A stored entity's property that may be unset, returned without a check that it's set."""
    if t[0] == 'dict':
        for e in t[1]:
            if e[0] == 'kv':
                nullable(c, r, p, where, it, facts, e[2])
        return
    if t[0] == 'get' and t[1][0] in ('dict', 'obj') and t[3] == NONE:
        st = with_facts(r, p, facts)
        ok = r.truth(st, t) is True or r.isnone(st, t) is False or any(
            k[0] == 'in' and k[1] == t[2] and k[2] == t[1] and v is True for k, v in st.facts.d.items())
        c.ob(f'{where}: null', ok, p, 'is null when it is missing from a table')
        return
    q = query_of(it)
    if q is None or t[0] != 'attr' or t[1][0] != 'elemof' or t[1][1] != it:
        return
    model, filters, _, _ = q
    mod, cls = model.rsplit('.', 1)
    cl = c.prog.modules[mod].classes.get(cls) if mod in c.prog.modules else None
    val = next((x.value for x in cl.node.body if isinstance(x, ast.Assign) and any(
        isinstance(y, ast.Name) and y.id == t[2] for y in x.targets)), None) if cl else None
    if not isinstance(val, ast.Call) or not getattr(val.func, 'attr', getattr(val.func, 'id', '')).endswith('Property') or any(
            k.arg in ('required', 'default', 'repeated', 'auto_now', 'auto_now_add') or k.arg is None for k in val.keywords):
        return
    st = with_facts(r, p, facts)
    ok = r.truth(st, t) is True or r.isnone(st, t) is False or any(
        f[0] == 'filter' and gname(f[2]) == f'{model}.{t[2]}' for f in filters)
    c.ob(f'{where}: {t[2]} set', ok, p, f"returns a blob's {t[2]} that may not be set", p)


@rules('X08', explanation='''The signature of every registered method against the parameters that its lexicon declares,
and the shape of everything that it returns, on every partition, against its lexicon's output schema.''',
       assumptions=['lexrpc passes the decoded input positionally and declared parameters by name',
                    "data/lexicons.json is what the lexicons bundled with lexrpc declare"])
def lexicons(c):
    lex = json.load(open(LEX))
    hs = nsids(c)
    c.rule('X08.registered', 'every method is registered, under the name that its lexicon has')
    for nsid, f in sorted(hs.items()):
        c.ob(f'{nsid} registered', nsid in lex or not nsid.startswith('com.atproto.'), f, f"is registered as {nsid}, which has no lexicon")
    names = {(n.split('.')[2], re.sub('([A-Z])', lambda m: '_' + m[1].lower(), short(n))) for n in lex}
    used = {}
    for f in ast_funcs(c):
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Name, ast.Attribute)):
                used.setdefault(getattr(x, 'id', None) or x.attr, set()).add(f.full)
    for f in ast_funcs(c):
        m = f.mod.name.rsplit('.', 1)[-1]
        name = f.full.rsplit('.', 1)[-1]
        if not m.startswith('xrpc_') or f.full != f'{f.mod.name}.{name}' or f in hs.values() or used.get(name, set()) - {f.full}:
            continue
        args_ = [a.arg for a in f.node.args.args]
        ok = not ((m[5:], name) in names or args_[:1] == ['input'])
        c.ob(f'{f.full} registered', ok, f, "isn't registered as a method")
    c.rule('X08.params', "every parameter that the method's lexicon declares is accepted under its name, and may be left out if it's optional")
    for nsid, f in sorted(hs.items()):
        d = lex.get(nsid)
        if d is None:
            continue
        n = short(nsid)
        pos, named, defs, needed, kw, va = signature(f)
        params = d.get('parameters') or []
        sub = d['type'] == 'subscription'
        if not sub:
            c.ob(f'{n}: input', bool(pos) and pos[0] not in params or va and not pos, f, "doesn't take the input first")
        for x in params:
            c.ob(f'{n}: {x}', kw or x in named, f, f"doesn't accept {x}")
            if x not in d['needed'] and x in named:
                c.ob(f'{n}: {x} optional', x in defs, f, f"doesn't allow leaving out {x}")
            dv = defs.get(x)
            want = d['defaults'].get(x)
            if dv is not None and isinstance(want, int) and not isinstance(want, bool):
                v = c.prog.const_of(f.mod, dv) if not isinstance(dv, ast.Constant) else dv.value
                if v is None:
                    continue
                if v is ...:
                    c.unsure(f"{n}'s default for {x} is unrecognised")
                else:
                    c.ob(f'{n}: {x} default', v == want, f, f"defaults to {v}, not {want}")
        skip = 0 if sub else 1
        extra = [x for i, x in enumerate(needed) if x not in params and not (pos and skip and x == pos[0])]
        c.ob(f'{n}: no others', not extra, f, f"requires {', '.join(extra)}, which nobody passes")
    c.rule('X08.output', "everything that a method returns has the properties that its lexicon requires, of the right types")
    for nsid, f in sorted(hs.items()):
        d = lex.get(nsid)
        if d is None or d['type'] == 'subscription':
            continue
        n = short(nsid)
        out = d['output']
        r = runh(c, f)
        for p in r.returns:
            v = p.value
            if v[0] == 'tuple' and len(v[1]) >= 2 and is_const(v[1][1]) and isinstance(cval(v[1][1]), int):
                continue    # an error
            if d.get('encoding') == 'application/vnd.ipld.car':
                if v[0] == 'call' and fn_is(v[1], 'write_car'):
                    c.ob(f'{n}: archive', True, p)
                elif kind(r.S(p, v)) in (None, 'bytes'):
                    c.unsure(f'{n} returns something unrecognised')
                else:
                    c.ob(f'{n}: archive', False, p, "doesn't return an archive", p)
                continue
            if not out.get('required'):
                if out.get('properties') and v != NONE:
                    s = unjson(r, p, v)
                    if s is not None:
                        conforms(c, r, p, n, s, out)
                continue
            s = unjson(r, p, v)
            if s is None:
                k = kind(r.S(p, v))
                if k is not None and k != 'object':
                    c.ob(f'{n}: object', False, p, f'returns {k}, not an object', p)
                else:
                    c.unsure(f'{n} returns something unrecognised')
                continue
            conforms(c, r, p, n, s, out)
            for x in subterms(s):
                if x[0] == 'loop' and len(x) == 4:
                    for facts, segs in x[3]:
                        for g in segs:
                            if g[0] == 'one':
                                nullable(c, r, p, n, x[2], facts, g[1])
