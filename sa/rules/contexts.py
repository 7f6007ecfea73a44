"""Datastore contexts and transactions."""
import ast

from .common import *
from .trees import Unk, last
from .trees_walk import attempt

SELF = param('self')
CLASSES = ('DatastoreStorage', 'DatastoreSequences', 'MemcacheSequences')
TX = ('ndb.transactional', 'ndb.transaction', 'ndb.transaction_async', 'ndb.transactional_async')
NON = ('ndb.non_transactional',)
DECO = f'{DSM}.ndb_context'


def models(c):
    return {k.name for m in c.an.prog.modules.values() if m.name == DSM for k in m.classes.values()
            if any(last(b or '') == 'Model' for x in c.an.prog.mro(k) for b in x.bases)}


def model_of(fn, names):
    """The model class that a call is on, or None."""
    return next((x for x in fn.split('.') if x in names), None) if fn.startswith(DSM) else None


def operates(e, names):
    """The kind of datastore entity that an event uses, 'ndb' for an unknown one, or None."""
    if e.kind not in ('call', 'new') or not e.fn:
        return None
    m = model_of(e.fn, names)
    if m:
        return m
    if '.ndb.' in e.fn and last(e.fn) in ('get_multi', 'put_multi', 'delete_multi', 'transaction', 'get_multi_async', 'put_multi_async', 'Key'):
        return used(e, names) or 'ndb'
    if e.fn.startswith('?.') and e.fn[2:] in ('put', 'get', 'fetch', 'iter', 'put_async', 'get_async', 'count', 'delete', 'fetch_page'):
        return used(e, names)
    return None


def used(e, names):
    for t in e.a.values():
        for x in subterms(t):
            if x[0] == 'call' and model_of(x[1], names):
                return model_of(x[1], names)
            if x[0] == 'glob' and model_of(x[1], names):
                return model_of(x[1], names)
    return None


def current(t):
    """Is t the current context, or None?"""
    return t[0] == 'call' and last(t[1]) == 'get_context' and '.context' in t[1]


def enters(t):
    """Whether a with statement's context manager is a datastore context: 'current', 'new', or None."""
    d = dict(t[2]) if t[0] == 'call' else {}
    if t[0] == 'call' and last(t[1]) == 'use' and current(d.get('self', NONE)):
        return 'current'
    if t[0] == 'call' and last(t[1]) == 'context' and d.get('self') == ('attr', SELF, 'ndb_client'):
        return 'new'
    return None


def modes(ev):
    """(in a context, transaction mode, transactions that aren't in a context) at an event.

    The mode is 'caller' for whatever the caller has, 'join' for the caller's
    transaction or a new one, 'own' for a new one, or 'out' for none.
    """
    ctx, mode, early = False, 'caller', []
    for x in ev.ctx:
        t = x[1] if len(x) > 1 and isinstance(x[1], tuple) else None
        if t is None or x[0] not in ('deco', 'with'):
            continue
        fn = t[1] if t[0] in ('call', 'glob') else None
        if x[0] == 'deco' and fn == DECO or x[0] == 'with' and enters(t):
            ctx = True
        elif x[0] == 'deco' and fn and fn_is(fn, *TX):
            if not ctx:
                early.append(t)
            d = dict(t[2]) if t[0] == 'call' else {}
            prop = show(d.get('propagation', NONE))
            alone = d.get('join') == FALSE and 'JOIN' not in prop and 'MANDATORY' not in prop
            if fn_is(fn, 'ndb.transaction', 'ndb.transaction_async') and prop == 'None':
                alone = d.get('join', FALSE) != TRUE
            if mode == 'out' or 'INDEPENDENT' in prop or alone:
                mode = 'own'
            elif mode != 'own':
                mode = 'join'
        elif x[0] == 'deco' and fn and fn_is(fn, *NON):
            if not ctx:
                early.append(t)
            mode = 'out'
    return ctx, mode, early


@rules('U07', explanation=(
    'Abstract interpretation of the datastore classes\' methods, with the decorators, with statements and callbacks that each datastore '
    'operation is in. The context decorator itself is interpreted too. Nothing is executed.'),
    assumptions=('ndb\'s contexts and transactions do what its documentation says', 'methods whose names start with _ are only called by others'))
def u07_decorator(c):
    c.rule('U07.context', 'the context decorator runs its function once, in the current context or, if there is none, in a new one')
    r = c.run(DECO)
    fns = [p.value for p in r.returns]
    c.anchor(fns and all(v[0] == 'func' for v in fns), 'ndb_context returns a function that it defines')
    outer = r.func.node.args.args[0].arg
    f = r.it.closures[fns[0][1]][0]
    r = c.run(f, params={outer: param(outer)})
    inst = 'ndb_context'
    c.some(f'{inst} returns', r.returns, 'never returns')
    for p in r.paths:
        attempt(c, inst, decorated, c, r, p, inst, param(outer))
    c.some(f'{inst} runs', [e for p in r.paths for e in p.events if e.kind == 'call' and e.fn == '()'], 'never runs the function')
    a = f.node.args
    c.ob(f'{inst} arguments', a.vararg is not None and a.kwarg is not None and len(a.args) == 1, r, 'doesn\'t take any arguments')
    for k, dflt in (('ndb_client', None), ('ndb_context_kwargs', {})):
        r = c.run(f'{DSM}.NdbMixin.__init__', f'{DSM}.NdbMixin')
        for p in r.returns:
            v = p.st.attrs.get((SELF, k), NONE)
            ok = v == param(k) or dflt is not None and (r.truth(p, param(k)) is False or param(k) in subterms(v))
            c.ob(f'NdbMixin.{k}', ok, r, f'keeps {show(v)[:60]} as its {k}', p)


def decorated(c, r, p, inst, fn):
    runs = [e for e in p.events if e.kind == 'call' and e.fn == '()' and e.a.get('self') == fn]
    if p.kind == 'raise':
        return
    c.ob(f'{inst} once', len(runs) == 1, r, 'doesn\'t run the function once', p)
    for e in runs:
        ws = [x[1] for x in e.ctx if x[0] == 'with']
        kinds = [enters(t) for t in ws]
        if ws and not any(kinds):
            raise Unk(f'which context it enters: {show(ws[0])[:60]}')
        c.ob(f'{inst} enters', any(kinds), e, 'runs the function outside of a context', p)
        for t, k in zip(ws, kinds):
            if k == 'current':
                c.ob(f'{inst} current', r.truth(p, dict(t[2])['self']) is True, e, 'uses a context that there may not be', p)
            elif k == 'new':
                got = [x.res for x in p.events if x.kind == 'call' and current(x.res or NONE)]
                c.ob(f'{inst} new', any(r.truth(p, x) is False for x in got), e, 'enters a new context when there\'s one already', p)
                c.ob(f'{inst} options', dict(t[2]).get('**') == ('attr', SELF, 'ndb_context_kwargs'), e, 'doesn\'t use its context options', p)
        got = [e.a.get(0), e.a.get(1), e.a.get('**')]
        star = [x[1] if x and x[0] == 'star' else x for x in got]
        c.ob(f'{inst} passes', star[0] == SELF and star[1] is not None and star[1][0] == 'param' and star[2] is not None and star[2][0] == 'param',
             e, 'doesn\'t pass its arguments on', p)
        c.ob(f'{inst} returns', p.value == e.res, e, f'returns {show(p.value)[:60]}', p)
    for e in p.events:
        if e.kind == 'call' and current(e.res or NONE):
            c.ob(f'{inst} none', r.truth(p, e.a.get('raise_context_error', TRUE)) is False, e, 'fails if there\'s no context', p)


def public(c, k):
    """Methods that other classes may call."""
    hooks = {'_commit', '_set_repo_status'} | {m for b in c.an.prog.mro(k)[1:] for m in b.methods}
    return [m for m in k.methods if m != '__init__' and (not m.startswith('_') or m in hooks)]


@rules('U07')
def u07_methods(c):
    c.rule('U07.inside', 'every datastore operation is in a context')
    c.rule('U07.transaction', 'repos are read and updated in the enclosing transaction, sequences in their own, and blocks in none')
    names = models(c)
    n = 0
    for cl in CLASSES:
        k = c.an.prog.cls(f'{DSM}.{cl}')
        c.anchor(k is not None, f'{cl} is a class')
        for m in public(c, k):
            f = k.methods[m]
            r = c.run(f.full, k.full if hasattr(k, 'full') else f'{DSM}.{cl}')
            n += 1
            c.rule('U07.inside', c.rules['U07.inside'])
            if f.is_gen:
                c.ob(f'{cl}.{m} generator', not any(names_deco(d) == 'ndb_context' for d in f.node.decorator_list), r,
                     'leaves the context before its first item is read')
            evs = r.events(lambda e: operates(e, names) or e.kind == 'call' and (e.fn.endswith('Storage._commit') or current(e.res or NONE)))
            for o in r.events(lambda e: e.kind == 'call' and modes(e)[2]):
                c.ob(f'{cl}.{m} order', False, o.ev, 'enters a transaction before its context', o.path)
            for o in evs:
                e = o.ev
                ctx, mode, early = modes(e)
                c.rule('U07.inside', c.rules['U07.inside'])
                inst = f'{cl}.{m}'
                if current(e.res or NONE) and not operates(e, names):
                    if e.a.get('raise_context_error', TRUE) != FALSE:
                        c.ob(f'{inst} context', ctx, e, 'fails if there\'s no context', o.path)
                    continue
                if not ctx and any(x[0] == 'with' and show(x[1]).find('context') >= 0 for x in e.ctx):
                    c.unsure(f'{inst}: which context it\'s in')
                    continue
                c.ob(f'{inst} context', ctx, e, f'{e.fn} may be called without a context', o.path)
                c.ob(f'{inst} order', not early, e, 'enters a transaction before its context', o.path)
                transactions(c, r, cl, m, inst, o, operates(e, names), mode)
    c.some('methods', [1] * n, 'there are none')


def names_deco(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None


def writes(e):
    return last(e.fn) in ('put', 'put_async', 'put_multi', 'put_multi_async')


def transactions(c, r, cl, m, inst, o, model, mode):
    e = o.ev
    c.rule('U07.transaction', c.rules['U07.transaction'])
    if last(e.fn) in ('Key', 'transaction'):
        return
    if e.fn.endswith('Storage._commit'):
        c.ob(f'{inst} commits', mode in ('join', 'own'), e, 'a commit isn\'t in a transaction', o.path)
    elif model == 'AtpSequence' and m == 'allocate':
        c.ob(f'{inst} sequence', mode in ('own', 'out'), e, 'a sequence is used in the caller\'s transaction', o.path)
        if writes(e):
            c.ob(f'{inst} sequence update', mode == 'own', e, 'a sequence isn\'t updated in a transaction', o.path)
            txs = [x for x in decos(e) if x[0] == 'call' and fn_is(x[1], *TX)]
            before = [x for x in o.before if operates(x, {'AtpSequence'}) and not writes(x) and x.res is not None and x.res in set(subterms(e.a['self']))]
            c.ob(f'{inst} sequence read', any(txs and txs[-1] in decos(x) for x in before), e, 'updates a sequence that it read outside of the transaction', o.path)
    elif model == 'AtpRepo':
        if cl == 'DatastoreStorage' and m in ('store_repo', '_set_repo_status', 'load_repo', 'create_repo'):
            c.ob(f'{inst} repo', mode in ('caller', 'join'), e, 'doesn\'t join the caller\'s transaction', o.path)
        if m in ('store_repo', '_set_repo_status'):
            c.ob(f'{inst} repo update', mode == 'join' or e.kind == 'new' or e.fn.endswith('.AtpRepo'), e, 'isn\'t in a transaction', o.path)
    elif model == 'AtpBlock' and m in ('read', 'read_many', 'read_many_raw', 'has', 'write', 'write_blocks'):
        c.ob(f'{inst} blocks', mode in ('out', 'own'), e, 'uses blocks in the caller\'s transaction', o.path)
