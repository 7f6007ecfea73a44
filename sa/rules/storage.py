"""Blocks, sequence numbers, event replay, and what both storages promise."""
import ast

from .common import *
from .commit import _only_called_by
from .contexts import modes
from .trees import Unk, last, mcall
from .trees_walk import attempt, contents

BLOCK = 'arroba.storage.Block'
ATP = f'{DSM}.AtpBlock'
CODEC = (K('dag-cbor'), K(0x71))


def cid_of(enc):
    """CIDv1, dag-cbor, SHA-256, of a term for encoded bytes."""
    return C('multiformats.CID', ANY, K(1), OneOf(*CODEC), C('multiformats.multihash.digest', enc, K('sha2-256')))


def b32(cid):
    return C('?.encode', K('base32'), self=cid)


# ------------------------------------------------------------------ C07
@rules('C07')
def block_class(c):
    c.rule('C07.cid', "a block's CID is either the one it was loaded with or CIDv1/dag-cbor/sha2-256 of its own bytes; its bytes are the DAG-CBOR encoding of its object, and the reverse")
    cached = {'cid': cid_of(A(SELF, 'encoded')), 'encoded': C('dag_cbor.encode', A(SELF, 'decoded')),
              'decoded': C('dag_cbor.decode', A(SELF, 'encoded'))}
    for name, pat in cached.items():
        f = f'_{name}'
        r = c.run(f'{BLOCK}.{name}', BLOCK, inline=('util.dag_cbor_cid',))
        for p in r.returns:
            if r.isnone(p, A(SELF, f)) is False:
                c.ob(f'Block.{name} (cached)', p.value == A(SELF, f), p, "isn't what was stored", p)
            else:
                if name == 'encoded':
                    c.ob('Block.encoded (given)', r.isnone(p, A(SELF, f)) is True or r.truth(p, A(SELF, f)) is False, p,
                         'bytes that were given are encoded again', p)
                c.ob(f'Block.{name}', match(pat, p.value), p, f"{name} isn't derived from the block's own contents", p)
            for e in p.events:
                if e.kind == 'setattr':
                    c.ob(f'Block.{name} (cache)', e.fn == f and e.a['self'] == SELF and e.a['value'] == p.value, e,
                         'caches something else', p)
    r = c.run(f'{BLOCK}.__init__', BLOCK)
    for p in r.returns:
        for a in ('cid', 'encoded', 'decoded'):
            sets = [e for e in p.events if e.kind == 'setattr' and e.fn == f'_{a}']
            c.ob(f'Block.__init__ {a}', bool(sets) and sets[-1].a['value'] == param(a), sets[-1] if sets else p,
                 'not what was given', p)
        sets = [e for e in p.events if e.kind == 'setattr' and e.fn == 'seq']
        c.ob('Block.__init__ seq', bool(sets) and sets[-1].a['value'] == param('seq'), p, 'not what was given', p)
        c.ob('Block.__init__ empty', r.truth(p, param('encoded')) is not False or r.truth(p, param('decoded')) is not False,
             p, 'allows a block with no contents', p)
    r = c.run('arroba.util.dag_cbor_cid')
    for p in r.returns:
        c.ob('util.dag_cbor_cid', match(cid_of(C('dag_cbor.encode', param('obj'))), p.value), p,
             "isn't the CIDv1/dag-cbor/sha2-256 of the object", p)
    c.rule('C07.identity', 'blocks are equal, and hash equal, exactly by CID')
    r = c.run(f'{BLOCK}.__eq__', BLOCK)
    for p in r.returns:
        eq = r.cmp(p, '==', A(SELF, 'cid'), A(param('other'), 'cid'))
        v = mk_bin('-', A(SELF, 'cid'), A(param('other'), 'cid'))
        if p.value in (TRUE, FALSE):
            c.ob('Block.__eq__', eq is cval(p.value), p, "doesn't compare CIDs", p)
        else:
            c.unsure('Block.__eq__ has an unrecognised shape')
    r = c.run(f'{BLOCK}.__hash__', BLOCK)
    for p in r.returns:
        c.ob('Block.__hash__', match(C('builtins.hash', A(SELF, 'cid')), p.value), p, "doesn't hash the CID", p)


@rules('C07')
def block_immutable(c):
    c.rule('C07.immutable', "a block's bytes and CID change nowhere outside Block; its sequence number only while a commit is being built, before it's written")
    ok_seq = {f'{ST}._commit'}
    n = 0
    for f in ast_funcs(c):
        for node in ast.walk(f.node):
            targets = []
            if isinstance(node, ast.Assign):
                targets = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign, ast.For)):
                targets = [node.target]
            elif isinstance(node, ast.Delete):
                targets = node.targets
            elif isinstance(node, ast.Call) and getattr(node.func, 'id', '') in ('setattr', 'delattr'):
                if len(node.args) > 1 and isinstance(node.args[1], ast.Constant) and node.args[1].value in (
                        '_cid', '_encoded', '_decoded', 'encoded'):
                    c.ob(f'setattr in {f.full}', False, at_node(f, node), 'changes a stored block')
                continue
            for t in targets:
                for x in ast.walk(t):
                    if not isinstance(x, ast.Attribute) or isinstance(x.ctx, ast.Load):
                        continue
                    if x.attr in ('_cid', '_encoded', '_decoded'):
                        n += 1
                        cls = f.cls.full if f.cls else None
                        helper = _only_called_by(c.prog, f, {f'{BLOCK}.{m}' for m in c.prog.cls(BLOCK).methods})
                        c.ob(f'{x.attr} set in {f.full}', cls == BLOCK or helper, at_node(f, node),
                             "changes a block's contents after it was made")
                    elif x.attr == 'encoded':
                        c.ob(f'{x.attr} set in {f.full}', False, at_node(f, node), "changes a stored block's bytes")
                    elif x.attr == 'seq':
                        n += 1
                        own = f.cls and isinstance(x.value, ast.Name) and x.value.id == 'self' and f.node.name == '__init__'
                        helper = f.full in ok_seq or _only_called_by(c.prog, f, set(ok_seq) | {f'{BLOCK}.__init__'})
                        c.ob(f'seq set in {f.full}', bool(own or helper), at_node(f, node),
                             "changes a block's sequence number")
    c.anchor(n >= 4, 'Block attributes are set somewhere')
    r = c.run(f'{ST}._commit', ST)
    for p in r.paths:
        wb = [i for i, e in enumerate(p.events) if call('write_blocks')(e)]
        for i, e in enumerate(p.events):
            for x in flat([e]):
                if x.kind == 'setattr' and x.fn == 'seq':
                    c.ob('_commit: seq before write', not wb or i < wb[0], x, 'changes sequence numbers of blocks already written', p)


@rules('C07')
def memory_blocks(c):
    c.rule('C07.memory', 'MemoryStorage only ever adds blocks, under their own CID, and keeps the first of each')
    blocks = A(SELF, 'blocks')
    n = 0
    for name, f in sorted(c.prog.cls(MEM).methods.items()):
        if name == '__init__':
            continue
        r = c.run(f.full, MEM)
        for o in r.events(lambda e: e.kind in ('call', 'setitem', 'delitem', 'setattr', 'mutate') and (
                e.a.get('self') == blocks or e.kind == 'setattr' and e.fn == 'blocks' and e.a['self'] == SELF)):
            e = o.ev
            if e.kind == 'call' and e.fn in ('?.get', '?.values', '?.items', '?.keys', '?.copy', '?.__contains__'):
                continue
            n += 1
            if call('?.setdefault')(e):
                ok = e.a.get(0) == A(e.a.get(1, NONE), 'cid')
            elif e.kind == 'setitem':
                k, v = e.a.get('key'), e.a.get('value')
                ok = k == A(v, 'cid') and r.decide(e, ('in', k, blocks)) is False
            else:
                ok = False
            c.ob(f'{name}:{e.fn}', ok, e, "replaces, removes or misfiles a stored block", o.path)
    for name in ('write', 'write_blocks'):
        r = c.run(f'{MEM}.{name}', MEM)
        for p in r.returns:
            if name == 'write':
                puts = [_stores(e) for e in p.events if _adds(e, blocks)]
                puts += [x for e in p.events if call('write_blocks')(e) and e.a.get('self') == SELF
                         for x in batch_of(r, e)]
                ok = len(puts) == 1 and (puts[0] == p.value or p.value == NONE or p.value in subterms(r.S(p, puts[0]))
                                         or _kept(p.value, blocks))
                c.ob('write stores', ok or not puts and _already(r, p, blocks), p, "doesn't store the block that it returns", p)
            else:
                loops = [lp for lp in all_loops(p) if base_of(lp.iter) == param('blocks')]
                ok = loops and all(any(_adds(e, blocks) and _stores(e) == _elem(lp) for e in flat(b.events)) or
                                   r.decide(b, ('in', A(_elem(lp), 'cid'), blocks)) is True
                                   for lp in loops for b in lp.bodies)
                upd = [e for e in p.events if call('?.update')(e) and e.a.get('self') == blocks]
                if not ok and not loops and upd:
                    c.unsure('MemoryStorage.write_blocks stores blocks in an unrecognised way')
                    continue
                c.ob('write_blocks stores', bool(ok), p, "doesn't store every block", p)
    c.anchor(n, 'MemoryStorage stores blocks')


def batch_of(r, e):
    try:
        return [x[1] for x in contents(r, e, e.a.get('blocks', e.a.get(0, NONE))) if x[0] == 'one']
    except Unk:
        return []


def _kept(t, blocks):
    """What's now stored under a key."""
    return t[0] in ('item', 'get') and t[1] == blocks or callname(t) == '?.setdefault' and dict(t[2]).get('self') == blocks


def _adds(e, blocks):
    return (call('?.setdefault')(e) or e.kind == 'setitem') and e.a.get('self') == blocks


def _stores(e):
    return e.a.get(1) if e.kind == 'call' else e.a.get('value')


def _elem(lp):
    return ('elemof', lp.iter, lp.lid)


def _already(r, p, blocks):
    return any(k[0] == 'in' and k[2] == blocks and v for k, v in p.facts)


@rules('C07')
def datastore_blocks(c):
    c.rule('C07.datastore', "DatastoreStorage only ever inserts blocks that don't exist yet, keyed by their own CID, and never changes or deletes one")
    r = c.run(f'{ATP}.create', inline=('util.dag_cbor_cid',))
    enc = C('dag_cbor.encode', param('data'))
    for p in r.returns:
        ins = [e for e in p.events if call('AtpBlock.get_or_insert')(e)]
        c.ob('AtpBlock.create', len(ins) == 1 and p.value == ins[0].res, p, "isn't an insert that keeps the existing block", p)
        for e in ins:
            k = e.a.get(0)
            k = e.a.get('id', k) if k is None else k
            mine = [x for x in subterms(k or NONE) if (blockval(x) or {}).get('decoded') == param('data')
                    and all(blockval(x).get(y) in (None, NONE) for y in ('cid', 'encoded'))]
            c.ob('AtpBlock.create key', match(b32(cid_of(enc)), k) or any(match(b32(A(x, 'cid')), k) for x in mine), e,
                 "isn't keyed by its own CID", p)
            c.ob('AtpBlock.create contents', (match(enc, e.a.get('encoded')) or any(e.a.get('encoded') == A(x, 'encoded') for x in mine)) and e.a.get('seq') == param('seq'), e,
                 "doesn't store the given bytes and sequence number", p)
    r = c.run(f'{ATP}.from_block', ATP)
    blk = param('block')
    for p in r.returns:
        t = p.value
        if callname(t) != ATP:
            c.unsure('AtpBlock.from_block returns something unrecognised')
            continue
        a = dict(t[2])
        k = a.get('id') or (dict(a['key'][2]).get(1) if callname(a.get('key', ())) else None)
        c.ob('from_block', match(b32(A(blk, 'cid')), k) and a.get('encoded') == A(blk, 'encoded')
             and a.get('seq') == A(blk, 'seq'), p, "changes the block's CID, bytes or sequence number", p)
    r = c.run(f'{DS}.write_blocks', DS, inline=('AtpBlock.from_block',))
    puts = r.events(call('ndb.put_multi', '?.put', '?.put_async', 'ndb.put_multi_async'))
    c.some('write_blocks: puts', puts, 'blocks are never put')
    for o in puts:
        attempt(c, 'DatastoreStorage.write_blocks', put_blocks, c, r, o)
    q = r.events(call('AtpBlock.query', 'ndb.get_multi', 'AtpBlock.get_by_id', '?.get'))
    c.some('write_blocks: looks up existing', q, 'never looks for existing blocks')
    c.rule('C07.atomic', 'what tells which blocks are already stored is read in the transaction that puts the others')
    for o in puts:
        tx = [d for d in decos(o.ev) if d[0] == 'call' and fn_is(d[1], 'ndb.transaction', 'ndb.transactional')]
        same = [x for x in q if tx and tx[-1] in decos(x.ev)]
        c.ob(f'{DS}.write_blocks', bool(same), o.ev,
             "looks for stored blocks outside of the transaction that puts the new ones, so it can overwrite one that another commit stores meanwhile",
             o.path)
    c.rule('C07.no-delete', 'nothing deletes datastore entities or rewrites a stored AtpBlock')
    bad = []
    n = 0
    for f in ast_funcs(c):
        n += 1
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in ('delete_multi', 'delete_multi_async', 'delete_async'):
                bad.append(at_node(f, node))
            if (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'delete'
                    and f.mod.name == DSM):
                bad.append(at_node(f, node))
    for b in bad:
        c.ob(f'delete at {b}', False, b, 'deletes stored data')
    c.ob(f'{DSM}', not bad)
    c.anchor(n > 100, 'functions')
    enc = c.prog.cls(ATP).attrs.get('encoded')
    ok = isinstance(enc, ast.Call) and getattr(enc.func, 'id', getattr(enc.func, 'attr', '')) == 'WriteOnceBlobProperty'
    c.ob('AtpBlock.encoded', ok, f'arroba/datastore_storage.py:{getattr(enc, "lineno", "?")} (AtpBlock)',
         "isn't write-once")


def put_blocks(c, r, o):
    e = o.ev
    if last(e.fn) in ('put', 'put_async'):
        new = S(e.heap, e.a['self'])
        rows = [(e.facts, (('one', new),))]
    else:
        got = contents(r, e, e.a.get(0, e.a.get('entities', NONE)))
        if len(got) != 1 or got[0][0] != 'each':
            raise Unk(f'what it puts: {show(e.a.get(0, NONE))[:60]}')
        it = inner(got[0][1])
        its = [inner(v) for _, v in it[2]] if callname(it) == 'builtins.zip' else [it]
        if not any(all_blocks(r, e, x) for x in its):
            if not any(whole_slice(x) for x in its):
                raise Unk(f'what it puts: {show(it)[:60]}')
            c.ob('write_blocks: all given', False, e, 'puts only some of the blocks', o.path)
            return
        rows = got[0][3]
    skipped = [facts for facts, segs in rows if not segs]
    if last(e.fn) not in ('put', 'put_async'):
        c.ob('write_blocks: skips existing', bool(skipped), e, 'overwrites stored blocks', o.path)
    for facts, segs in rows:
        found = evidence(c, r, e, facts)
        if not segs:
            if not found and any(has(k, Fn(fetch_term)) for k, _ in facts):
                raise Unk('which blocks are skipped')
            c.ob('write_blocks: none skipped', any(v for _, _, v in found), e, "leaves out a block that isn't already stored", o.path)
            continue
        for seg in segs:
            b = dict(seg[1][2]) if seg[0] == 'one' and callname(seg[1]) == ATP else None
            if b is None:
                raise Unk(f'what is put: {show(seg[1])[:60]}')
            if not found and any(has(k, Fn(fetch_term)) for k, _ in facts):
                raise Unk('which blocks are put')
            absent = [(i, blk) for i, blk, v in found if not v]
            c.ob('write_blocks: new only', bool(absent), e, 'overwrites stored blocks', o.path)
            c.ob('write_blocks: keyed', all(match(b32(A(blk, 'cid')) if blk is not None else b32(V('c')), b.get('id'))
                                            and (i is None or i == b.get('id')) for i, blk in absent), e,
                 "tests for a different block than it puts", o.path)


def all_blocks(r, at, t):
    """Does a collection have exactly the given blocks, in order?"""
    t = inner(t)
    if t == param('blocks'):
        return True
    s = r.shape(at, t)
    return s[0] in ('list', 'tuple') and len(s[1]) == 1 and s[1][0][0] == 'spread' and all_blocks(r, at, s[1][0][1])


def whole_slice(t):
    return t[0] == 'item' and isinstance(t[2], tuple) and t[2][0] == 'slice'


def fetch_term(t):
    return t[0] == 'call' and fn_is(t[1], 'AtpBlock.query', 'ndb.get_multi', 'AtpBlock.get_by_id')


def evidence(c, r, e, facts):
    """[(id looked for, block, whether it's stored)]"""
    out = []
    for k, v in facts:
        if k[0] == 'in' and isinstance(v, bool):
            coll = S(e.heap, k[2])
            if not has(coll, Fn(fetch_term)):
                continue
            i = k[1]
            if callname(i) and fn_is(callname(i), 'ndb.Key'):
                i = dict(i[2]).get(1, NONE)
            full = looked_up(r, e, coll)
            c.ob('write_blocks: looks up all', full, e, "doesn't look for every block, so it overwrites stored ones")
            out.append((i, None, v))
        elif k[0] in ('truth', 'isnone') and isinstance(v, bool):
            t, v = k[1], v if k[0] == 'truth' else not v
            if t[0] == 'elemof' and callname(t[1]) and fn_is(callname(t[1]), 'ndb.get_multi'):
                full = keys_of_all(r, e, dict(t[1][2]).get(0, NONE))
                c.ob('write_blocks: looks up all', full, e, "doesn't look for every block, so it overwrites stored ones")
                blk = [x for kk, _ in facts for x in subterms(kk) if x[0] == 'elemof' and x[2] == t[2] and x[1] == param('blocks')]
                out.append((None, blk[0] if blk else ('elemof', param('blocks'), t[2]), v))
            elif callname(t) and fn_is(callname(t), 'AtpBlock.get_by_id'):
                out.append((dict(t[2]).get(0, NONE), None, v))
            elif mcall(t, 'get') and callname(mcall(t, 'get').get('self', NONE)) and fn_is(callname(mcall(t, 'get')['self']), 'ndb.Key'):
                out.append((dict(mcall(t, 'get')['self'][2]).get(1, NONE), None, v))
    return out


def looked_up(r, at, coll):
    """Does a collection have the ids, or keys, of all of the given blocks that are stored?"""
    got = contents(r, at, coll)
    if len(got) != 1 or got[0][0] not in ('each', 'all'):
        raise Unk(f'which blocks are looked up: {show(coll)[:60]}')
    if got[0][0] == 'each':
        for facts, segs in got[0][3]:
            if facts or len(segs) != 1:
                raise Unk(f'which blocks are looked up: {show(coll)[:60]}')
    t = inner(got[0][1])
    if callname(t) and fn_is(callname(t), 'ndb.get_multi'):
        return keys_of_all(r, at, dict(t[2]).get(0, NONE))
    q = query_of(t)
    if q is None or not q[0].endswith('AtpBlock'):
        raise Unk(f'the query {show(t)[:60]}')
    _, filters, _, rest = q
    if len(filters) != 1:
        return False
    for name, d in rest:
        if name not in ('fetch', 'iter', 'fetch_async', 'get_result', 'result'):
            return False
        if {k for k in d if k != 'self'} - {'keys_only', 'projection', 'batch_size'}:
            return False
    d = mcall(filters[0], 'IN')
    if d is None:
        raise Unk(f'the filter {show(filters[0])[:60]}')
    return keys_of_all(r, at, d.get(0, NONE))


def keys_of_all(r, at, keys):
    keys = inner(keys)
    if whole_slice(keys):
        return False
    got = contents(r, at, keys)
    if len(got) != 1 or got[0][0] != 'each':
        raise Unk(f'which keys are looked up: {show(keys)[:60]}')
    if whole_slice(inner(got[0][1])):
        return False
    if not all_blocks(r, at, got[0][1]):
        raise Unk(f'which blocks are looked up: {show(got[0][1])[:60]}')
    for facts, segs in got[0][3]:
        if not segs:
            return False
        if len(segs) != 1 or not any(match(b32(A(('elemof', V('b'), got[0][2]), 'cid')), x) or
                                     match(b32(V('c')), x) and any(y[0] == 'elemof' and y[2] == got[0][2] for y in subterms(x))
                                     for x in subterms(segs[0][1])):
            raise Unk(f'the key {show(segs[0][1])[:60]}')
    return True


@rules('C07')
def imported_blocks(c):
    c.rule('C07.import', "imported blocks keep the CID that reading the archive verified against their bytes")
    r = c.run('arroba.xrpc_repo.import_repo')
    n = 0
    for o in r.events(call(BLOCK)):
        n += 1
        a = o.ev.a
        src = a.get('encoded')
        ok = src is not None and src[0] == 'attr' and src[2] == 'data' and a.get('cid') in (A(src[1], 'cid'), NONE) \
            or src == NONE and a.get('cid') == NONE
        c.ob('import_repo Block', ok, o.ev, "an imported block's CID isn't the verified one of its own bytes", o.path)
    c.anchor(n, 'import_repo makes blocks')
    for o in r.events(call('read_car')):
        v = o.ev.a.get('validate', o.ev.a.get(1, TRUE))
        c.ob('import_repo read_car', v == TRUE, o.ev, "doesn't verify that CIDs match their bytes", o.path)
    c.rule('C07.made', 'every Block made with a given CID gets it and its bytes from one stored or verified block')
    for f in ast_funcs(c):
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and resolved(c, f, node.func) == BLOCK:
                kws = {k.arg: k.value for k in node.keywords}
                if 'cid' not in kws:
                    continue
                ok = f.full in ('arroba.xrpc_repo.import_repo', f'{ATP}.to_block') or _only_called_by(
                    c.prog, f, {'arroba.xrpc_repo.import_repo', f'{ATP}.to_block'})
                if not ok:
                    # the CID of the bytes themselves is fine too
                    e, k = kws.get('encoded'), kws['cid']
                    ok = e is not None and isinstance(e, ast.Attribute) and isinstance(k, ast.Attribute) and \
                        ast.dump(e.value) == ast.dump(k.value)
                    if not ok:
                        c.unsure(f'{at_node(f, node)} makes a Block with a CID of its own')
                        continue
                c.ob(f'Block in {f.full}', ok, at_node(f, node), 'a CID that may not match')
    r = c.run(f'{ATP}.to_block', ATP)
    for p in r.returns:
        b = blockval(p.value)
        if b is None:
            c.unsure('AtpBlock.to_block returns something unrecognised')
            continue
        c.ob('AtpBlock.to_block', b['cid'] in (A(SELF, 'cid'), NONE) and b['encoded'] == A(SELF, 'encoded')
             and b['seq'] == A(SELF, 'seq'), p, "loads a block with a different CID, bytes or sequence number", p)
    r = c.run(f'{ATP}.cid', ATP)
    for p in r.returns:
        c.ob('AtpBlock.cid', match(C('CID.decode', C('?.id', self=A(SELF, 'key'))), p.value), p, "isn't its key", p)


# ------------------------------------------------------------------ C08
SEQS = 'arroba.storage.MemorySequences'
DSEQ = f'{DSM}.DatastoreSequences'
MSEQ = f'{DSM}.MemcacheSequences'
NS = param('nsid')


def independent_tx(ev):
    for d in decos(ev):
        if d[0] == 'call' and fn_is(d[1], 'ndb.transactional', 'ndb.transaction', 'ndb.transaction_async'):
            prop = kwarg(d, 'propagation')
            if prop is not None and fn_is(gname(prop) or '', 'TransactionOptions.INDEPENDENT'):
                return True
    return False


def locked(p, e):
    """Is an event in a lock's critical section?"""
    if any('lock' in show(w).lower() for w in withs(e)):
        return True
    held = None
    for x in p.events:
        if x is e or any(y is e for y in flat([x])):
            return held is not None and any(y.kind == 'call' and last(y.fn) == 'release' and y.a.get('self') == held
                                            for y in p.events[p.events.index(x):])
        if x.kind == 'call' and last(x.fn) in ('acquire', 'release') and 'lock' in show(x.a.get('self', NONE)).lower():
            held = x.a['self'] if last(x.fn) == 'acquire' else None
    return False


@rules('C08')
def shared_seqs(c):
    c.rule('C08.shared', "storages allocate from the sequences, and sequences from the cache, that they're given")
    for cls, name in ((MEM, 'sequences'), (DS, 'sequences'), (MSEQ, 'memcache')):
        r = c.run(f'{cls}.__init__', cls, inline=('*',))
        n = 0
        for p in r.returns:
            if r.truth(p, param(name)) is False or r.isnone(p, param(name)) is True:
                continue
            n += 1
            c.ob(f'{cls} {name}', p.st.attrs.get((SELF, name)) == param(name), p, f"doesn't use the {name} that it was given", p)
        c.anchor(n, f'{cls} takes {name}')


@rules('C08')
def memory_seqs(c):
    c.rule('C08.memory', 'MemorySequences hands out the stored next number, starting at 1, and advances it by one, in one critical section')
    r = c.run(f'{SEQS}.allocate', SEQS)
    seqs = A(SELF, 'sequences')
    n = 0
    for p in r.returns:
        touch = [e for e in flat(p.events) if e.a.get('self') == seqs and e.kind in ('call', 'setitem')]
        c.ob('allocate: locked', bool(touch) and all(locked(p, e) for e in touch), p,
            'the counter is read or advanced outside its lock', p)
        regions = {tuple(id(x) for x in e.ctx if x[0] == 'with') for e in touch}
        enters = [e for e in p.events if e.kind == 'enter' or e.kind == 'call' and last(e.fn) == 'acquire']
        c.ob('allocate: one critical section', len(enters) <= 1, p, 'the lock is released between reading and advancing', p)
        sets = [e for e in p.events if e.kind == 'setitem' and e.a['self'] == seqs]
        c.ob('allocate: advances', len(sets) == 1 and sets[0].a['key'] == NS, p, "doesn't advance this stream's counter once", p)
        if len(sets) != 1:
            continue
        n += 1
        v = sets[0].a['value']
        dfl = [e for e in touch if e.kind == 'call' and call('setdefault', 'get')(e)]
        old = [x for x in subterms(v) if x[0] in ('item', 'get') and x[1] == seqs and x[2] == NS]
        cur = dfl[0].res if dfl else (old[0] if old else None)
        ok = cur is not None and p.value in [e.res for e in dfl] + old + [cur]
        init = (not dfl or dfl[0].a.get(1) == K(1)) and all(x[3] == K(1) for x in old if x[0] == 'get')
        same = {e.res for e in dfl} | set(old) | {cur}
        step = any(x is not None and diff_is(v, x, 1) for x in same)
        # storing the number handed out, and handing out the stored one plus one, is the same thing
        step2 = any(x is not None and diff_is(p.value, x, 1) for x in same) and v == p.value
        c.ob('allocate: value', (ok and step and init) or (step2 and (
            dfl and dfl[0].a.get(1) == K(0) or not dfl and old and all(x[0] == 'get' and x[3] == K(0) for x in old))), p,
             "doesn't return the stored number and store its successor", p)
    c.anchor(n, 'MemorySequences.allocate advances a counter')
    r2 = c.run(f'{SEQS}.last', SEQS)
    for p in r2.returns:
        c.ob('last: pure', not [e for e in flat(p.events) if e.kind in ('setitem',) or e.kind == 'call' and call('setdefault', 'allocate')(e)],
             p, 'allocates or changes a number', p)
        if p.value != NONE:
            x, k = lin1(p.value)
            c.ob('last: value', x is not None and k == (0 if step2 else -1) and has(x, Fn(lambda t: t == seqs)), p,
                 "isn't the last number allocated", p)
    c.rule('C08.callers', 'nothing but allocate changes a counter')
    for f in ast_funcs(c):
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr == 'sequences' and isinstance(node.ctx, ast.Load):
                pass
            if isinstance(node, (ast.Assign, ast.AugAssign)):
                ts = node.targets if isinstance(node, ast.Assign) else [node.target]
                for t in ts:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in ('sequences', 'max_seqs'):
                        ok = {f'{SEQS}.allocate', f'{MSEQ}.allocate'}
                        c.ob(f'{t.value.attr} set in {f.full}', f.full in ok or _only_called_by(c.prog, f, ok),
                             at_node(f, node), 'changes a counter')
                    if isinstance(t, ast.Attribute) and t.attr == 'next' and f.mod.name == DSM:
                        ok = {f'{DSEQ}.allocate', f'{MSEQ}.allocate'}
                        c.ob(f'AtpSequence.next set in {f.full}', f.full in ok or _only_called_by(c.prog, f, ok),
                             at_node(f, node), 'changes a stored counter')


@rules('C08')
def datastore_seqs(c):
    c.rule('C08.datastore', 'DatastoreSequences reads, advances and writes the stored number in one transaction of its own, and hands out the number it read')
    r = c.run(f'{DSEQ}.allocate', DSEQ)
    for p in r.returns:
        got = [e for e in p.events if call('AtpSequence.get_or_insert', 'AtpSequence.get_by_id')(e)]
        sets = [e for e in p.events if e.kind == 'setattr' and e.fn == 'next']
        puts = [e for e in p.events if call('?.put', 'ndb.put')(e)]
        ok = len(sets) == 1 and len(puts) >= 1 and bool(got)
        c.ob('allocate: stores', ok, p, "doesn't store an advanced number", p)
        if not ok:
            continue
        ent = sets[0].a['self']
        c.ob('allocate: entity', puts[-1].a.get('self') == ent and p.events.index(puts[-1]) > p.events.index(sets[0])
             and any(has(ent, Fn(lambda t: t == g.res)) for g in got) and all(g.a.get(0) == NS for g in got), p,
             "doesn't write this stream's own number", p)
        c.ob('allocate: init', all(not call('get_or_insert')(g) or g.a.get('next') == K(1) for g in got), p,
             "doesn't start at 1", p)
        cur = A(ent, 'next')
        c.ob('allocate: value', p.value == cur and diff_is(sets[0].a['value'], cur, 1), p,
             "doesn't hand out the stored number and store its successor", p)
        for e in got + sets + puts:
            c.ob(f'allocate: transaction ({e.fn.rsplit(".", 1)[-1]})', independent_tx(e), e,
                 "isn't in an independent transaction", p)
    r = c.run(f'{DSEQ}.last', DSEQ)
    for p in r.returns:
        c.ob('last: pure', not [e for e in flat(p.events) if e.kind == 'setattr' or call('?.put', 'get_or_insert', 'allocate')(e)],
             p, 'allocates or changes a number', p)
        if p.value != NONE:
            x, k = lin1(p.value)
            c.ob('last: value', k == -1 and x[0] == 'attr' and x[2] == 'next'
                 and bool(calls_in(x, 'AtpSequence.get_by_id')), p, "isn't the last number allocated", p)


@rules('C08')
def memcache_seqs(c):
    mc = A(SELF, 'memcache')
    ms = A(SELF, 'max_seqs')
    BATCH, BUF = G(f'{DSM}.MEMCACHE_SEQUENCE_BATCH'), G(f'{DSM}.MEMCACHE_SEQUENCE_BUFFER')
    r = c.run(f'{MSEQ}.allocate', MSEQ)
    c.anchor(r.returns, 'MemcacheSequences.allocate')
    c.rule('C08.memcache', "MemcacheSequences hands out only what an atomic increment of this stream's cache counter returned")
    for p in r.returns:
        inc = [e for e in p.events if call('?.incr')(e)]
        c.ob('allocate: value', bool(inc) and p.value == inc[-1].res and r.isnone(p, p.value) is not True, p,
             "returns a number that wasn't atomically allocated", p)
        for e in inc:
            c.ob('allocate: incr', e.a.get('self') == mc and e.a.get(1) == K(1), e, 'increments by something else', p)
        keys = {e.a.get(0) for e in p.events if call('?.incr', '?.add')(e)}
        c.ob('allocate: key', len(keys) == 1 and all(has(k, Fn(lambda t: t == NS)) for k in keys), p,
             'mixes up streams', p)
        bad = [e for e in flat(p.events) if e.kind == 'call' and e.a.get('self') == mc and not call('?.incr', '?.add', '?.get')(e)]
        c.ob('allocate: cache', not bad, bad[0] if bad else p, 'overwrites the cache counter', p)
    c.rule('C08.apart', "a stored bound is never read or written in a caller's transaction, which may not commit or may read an old snapshot")
    for cls in (DSEQ, MSEQ):
        r2 = c.run(f'{cls}.allocate', cls)
        for o in r2.events(call('AtpSequence.get_or_insert', 'AtpSequence.get_by_id', '?.put')):
            mode = modes(o.ev)[1]
            c.ob(f'{last(cls)}.allocate: {last(o.ev.fn)}', mode in ('own', 'out'), o.ev, "joins its caller's transaction", o.path)
    c.rule('C08.init', 'a missing cache counter is added, never set, from a stored number that is at least every number handed out')
    n = 0
    for o in r.events(call('?.add')):
        n += 1
        e = o.ev
        v = e.a.get(1)
        sets = [x for x in o.before if x.kind == 'setitem' and x.a['self'] == ms]
        if v[0] == 'item' and v[1] == ms and sets:
            v = sets[-1].a['value']
        x, k = lin1(v)
        got = [x for x in o.before if call('AtpSequence.get_or_insert', 'AtpSequence.get_by_id')(x)]
        ok = x is not None and k >= -1 and x[0] == 'attr' and x[2] == 'next' and bool(
            calls_in(x, 'AtpSequence.get_or_insert', 'AtpSequence.get_by_id'))
        c.ob('allocate: init value', ok, e, 'restarts the counter below numbers already handed out', o.path)
        c.ob('allocate: init source', bool(got) and all(g.a.get(0) == NS and g.a.get('next', K(1)) == K(1) for g in got), e,
             "isn't initialised from this stream's stored number", o.path)
        c.ob('allocate: when missing', any(r.isnone(e, i.res) is True for i in o.before if call('?.incr')(i)), e,
             'reinitialises a counter that exists', o.path)
    c.anchor(n, 'MemcacheSequences initialises its cache counter')
    c.rule('C08.batch', "a number is handed out only below a stored bound that was committed first, in a transaction of its own")
    for p in r.returns:
        seq = p.value
        pu = [e for e in p.events if call('?.put')(e)]
        sets = [e for e in p.events if e.kind == 'setitem' and e.a['self'] == ms]
        # covered: max_seqs says so, or a batch was (re)checked
        cov = _covered(r, p, ms, seq, BUF)
        got = [e for e in p.events if call('AtpSequence.get_or_insert')(e) and independent_tx(e)]
        c.ob('allocate: bound', bool(cov or got), p, 'hands out a number without a stored bound above it', p)
        for e in pu:
            c.ob('allocate: batch transaction', independent_tx(e), e, "isn't in an independent transaction", p)
            nx = [x for x in p.events if x.kind == 'setattr' and x.fn == 'next']
            ok = nx and nx[-1].a['self'] == e.a['self'] and p.events.index(nx[-1]) < p.events.index(e)
            c.ob('allocate: batch entity', bool(ok) and any(g.res == e.a['self'] and g.a.get(0) == NS for g in got), e,
                 "doesn't store this stream's bound", p)
            if not ok:
                continue
            v = nx[-1].a['value']
            c.ob('allocate: batch bound', diff_is(mk_bin('-', v, BATCH), seq, 0) or _at_least(r, nx[-1], v, seq, BATCH), e,
                 "doesn't raise the bound by a batch above this number", p)
            c.ob('allocate: only raises', r.cmp(nx[-1], '<', A(e.a['self'], 'next'), v) is True
                 or r.cmp(nx[-1], '<', A(e.a['self'], 'next'), plus(seq, BUF)) is True, e, 'can lower the stored bound', p)
        if got and not pu and not cov:
            c.ob('allocate: enough left', any(r.cmp(p, '>=', A(g.res, 'next'), plus(seq, BUF)) is True for g in got), p,
                 "doesn't extend a bound that's nearly used up", p)
        nxt = A(got[-1].res, 'next') if got else None
        for s in sets:
            intx = bool([d for d in decos(s) if d[0] == 'call' and fn_is(d[1], 'ndb.transactional', 'ndb.transaction')])
            c.ob('allocate: after commit', not intx, s, 'trusts a bound whose transaction may not commit', p)
            put_before = [x for x in pu if p.events.index(x) < p.events.index(s)]
            v = s.a['value']
            x, k = lin1(v)
            stored = x is not None and x[0] == 'attr' and x[2] == 'next' and k <= 0
            written = bool(put_before) and any(x.kind == 'setattr' and x.fn == 'next' and x.a['value'] == v for x in p.events)
            c.ob('allocate: max_seqs', stored or written, s, "trusts a bound that isn't stored", p)
            c.ob('allocate: max_seqs key', s.a['key'] == NS, s, 'mixes up streams', p)
            c.ob('allocate: max_seqs lock', any('lock' in show(w) for w in withs(s)), s, 'changes the bound outside its lock', p)
        c.ob('allocate: final check', _final(r, p, ms, seq), p, 'can return a number beyond its bound', p)
    c.rule('C08.config', 'batches must be larger than the buffer that triggers them')
    for p in r.returns:
        c.ob('allocate: config', r.cmp(p, '>', BATCH, BUF) is True and r.cmp(p, '>=', BUF, K(1)) is True, p,
             'a batch can be too small', p)
    r = c.run(f'{MSEQ}.last', MSEQ)
    for p in r.returns:
        c.ob('last: pure', not [e for e in flat(p.events) if e.kind in ('setattr', 'setitem') or call(
            '?.put', 'get_or_insert', 'allocate', '?.incr', '?.add', '?.set')(e)], p, 'allocates or changes a number', p)
        if p.value != NONE:
            g = [e for e in p.events if call('?.get')(e)]
            c.ob('last: value', bool(g) and match(OneOf(C('builtins.int', g[0].res), g[0].res), p.value) and
                 g[0].a.get('self') == mc, p, "isn't the last number allocated", p)
    r = c.run(f'{MSEQ}._memcache_key', MSEQ)
    for p in r.returns:
        c.ob('_memcache_key', has(p.value, Fn(lambda t: t == NS)), p, 'streams share a counter', p)


def _maxs(r, ms, at):
    """Terms for the cached bound."""
    return {t for k, _ in at.facts for t in subterms(k)
            if t[0] in ('get', 'item') and t[1] == ms or t[0] == 'call' and t[1] == '?.get' and dict(t[2]).get('self') == ms}


def _covered(r, p, ms, seq, buf):
    return any(r.cmp(p, '>=', t, plus(seq, buf)) is True for t in _maxs(r, ms, p))


def _final(r, p, ms, seq):
    return any(r.cmp(p, '<=', seq, t) is True for t in _maxs(r, ms, p))


def _at_least(r, ev, v, seq, batch):
    return r.cmp(ev, '>=', v, plus(seq, batch)) is True


# ------------------------------------------------------------------ C09
COMMITDATA = 'arroba.storage.CommitData'


def commit_data(t):
    """(commit, blocks, prev) of a constructed CommitData."""
    if t[0] in ('nt', 'call', 'ntup') and 'CommitData' in str(t[1]):
        d = dict(t[2])
        return d.get('commit'), d.get('blocks'), d.get('prev')
    return None


def is_event_fact(at, elem, want=True):
    """Do facts say that this block is (not) a subscribeRepos event?"""
    for k, v in at.facts:
        if k[0] in ('truth', 'call') and has(k, K(f'{NSID}#')) and has(k, Fn(lambda t: t == elem)):
            return v is want
        if k[0] == 'startswith' and has(k, Fn(lambda t: t == elem)):
            return v is want
    return None


def is_commit_fact(r, at, elem, want):
    """Do facts say that this block's fields are (not) exactly a commit's?"""
    for k, v in at.facts:
        if has(k, Fn(lambda t: t == elem)) and (has(k, G('arroba.storage.COMMIT_FIELDS')) or all(
                has(k, K(f)) for f in ('did', 'version', 'rev', 'prev', 'data', 'sig'))):
            if k[0] == 'lin':
                eq = v[:4] == (0, False, 0, False)
                return eq is want
            return v is want
    return None


@rules('C09')
def replay(c):
    r = c.run(f'{ST}.read_events_by_seq', ST)
    fn = 'read_events_by_seq'
    start = param('start')
    c.rule('C09.source', 'events come from every stored block from the given number, except imported ones')
    src = r.events(call('Storage.read_blocks_by_seq'))
    c.anchor(src, f'{fn} reads blocks')
    for o in src:
        a = o.ev.a.get('start')
        args = {v for _, v in a[2]} if a[0] == 'call' and a[1] == 'builtins.max' else None
        ok = args == {start, K(1)} or (a == start and r.cmp(o.ev, '>=', start, K(1)) is True) or (
            a == K(1) and r.cmp(o.ev, '<=', start, K(1)) is True)
        c.ob(f'{fn}: start', ok, o.ev, "doesn't start at the given number, or includes imported blocks", o.path)
        c.ob(f'{fn}: repo', o.ev.a.get('repo') == param('repo'), o.ev, "doesn't read the given repo", o.path)
    c.rule('C09.once', "each block is used once: an event is yielded as it was stored, a commit once it's complete, and nothing else is yielded")
    loops = {}
    for p in r.returns:
        for lp in all_loops(p):
            if any(lp.iter == o.ev.res for o in src):
                loops.setdefault(lp.lid, (lp, []))[1].append(p)
    if not loops:
        c.unsure(f'{fn} has no loop over the stored blocks')
        return
    for lp, paths in loops.values():
        replay_loop(c, r, fn, lp, paths)


def replay_loop(c, r, fn, lp, paths):
    c.rule('C09.once', "each block is used once: an event is yielded as it was stored, a commit once it's complete, and nothing else is yielded")
    elem = ('elemof', lp.iter, lp.lid)
    X = B = None
    for b in lp.bodies:
        for y in yields(flat(b.events)):
            d = commit_data(y.a['value'])
            if d:
                X, B = d[0], d[1]
    if X is None or X[0] != 'lv' or B[0] != 'lv':
        c.unsure(f'{fn} assembles commits in an unrecognised way')
        return
    rows = carries(c, lp)
    SEQ = [lv for lv in inits(lp) if lv not in (X, B) and all(d[lv] in (lv, A(elem, 'seq')) for _, d in rows)]
    c.anchor(len(SEQ) >= 1, f'{fn} tracks the current sequence number')
    SEQ = SEQ[0]
    n = 0
    for b, new in rows:
        n += 1
        ys = yields(b.events)
        ev = [y for y in ys if y.a['value'] == A(elem, 'decoded')]
        cd = [y for y in ys if commit_data(y.a['value'])]
        at = b.events[-1] if b.events else lp
        c.ob(f'{fn}: yields', len(ev) + len(cd) == len(ys) and len(ev) <= 1 and len(cd) <= 1, ys[0] if ys else r,
             'yields something else, or twice')
        same = {r.cmp(st, '==', A(elem, 'seq'), SEQ) for st in r.cases(b)}
        if len(same) > 1 and None not in same:
            # it's both, so it mustn't behave like either
            c.ob(f'{fn}: same', False, cd[0] if cd else r, 'completes a commit before all of its blocks were read' if cd or new.get(B, B) != B
                 else "adds a block to another number's commit")
            continue
        same = same.pop() if len(same) == 1 else None
        if same is None:
            c.unsure(f"{fn} doesn't compare sequence numbers on some path")
            continue
        isev = is_event_fact(b, elem)
        c.ob(f'{fn}: classify', isev is not None, ys[0] if ys else r, "doesn't tell events from blocks")
        c.ob(f'{fn}: event', len(ev) == (1 if isev else 0), ys[0] if ys else r, 'an event is dropped, or a block is served as one')
        # a new number completes the previous commit
        if same is False:
            done = {r.truth(at, X) if r.isnone(at, X) is not True else False for at in r.cases(b)}
            if done == {False, True} and not cd:
                c.ob(f'{fn}: flush', False, r, "a completed commit isn't yielded when the next number starts")
                continue
            done = done.pop() if len(done) == 1 else None
            if done is None:
                c.unsure(f"{fn} doesn't test for a commit when the next number starts")
                continue
            if done is True:
                c.ob(f'{fn}: flush', len(cd) == 1 and commit_data(cd[0].a['value'])[:2] == (X, B), cd[0] if cd else r,
                     "a completed commit isn't yielded when the next number starts")
                if cd and ev:
                    c.ob(f'{fn}: order', b.events.index(cd[0]) < b.events.index(ev[0]), cd[0], 'yields out of order')
            else:
                c.ob(f'{fn}: no commit', not cd, cd[0] if cd else r, "yields a commit that isn't there")
                c.ob(f'{fn}: dangling', r.truth(b, B) is False, r, 'drops blocks that have no commit')
            c.ob(f'{fn}: seq', new.get(SEQ) == A(elem, 'seq'), r, "loses track of the current number")
            s = r.S(b, new.get(B, NONE))
            ok = s[0] == 'dict' and not [x for x in s[1] if x[0] == 'kv' and x[1] != A(elem, 'cid')] \
                and not [x for x in s[1] if x[0] in ('spread', 'loop')]
            c.ob(f'{fn}: new blocks', ok, r, "the next commit starts with the previous one's blocks")
        else:
            c.ob(f'{fn}: same', not cd, cd[0] if cd else r, 'yields a commit before all of its blocks were read')
            c.ob(f'{fn}: same blocks', new.get(B, B) == B, r, "drops blocks of the current commit")
            c.ob(f'{fn}: same seq', new.get(SEQ, SEQ) in (SEQ, A(elem, 'seq')), r, "loses track of the current number")
        if isev is False:
            puts = [e for e in b.events if e.kind == 'setitem' and e.a['key'] == A(elem, 'cid') and e.a['value'] == elem
                    and e.a['self'] == new.get(B, B)]
            c.ob(f'{fn}: keep', len(puts) == 1, puts[0] if puts else r, "a stored block isn't included in its commit")
        isc = is_commit_fact(r, b, elem, True)
        nx = new.get(X, X)
        if isev is False:
            if isc is None and nx == elem:
                c.ob(f'{fn}: not commit', False, r, 'any block is taken for the commit')
            elif isc is None:
                c.unsure(f"{fn} doesn't test for commits on some path")
            elif isc:
                c.ob(f'{fn}: commit', nx == elem, r, "a commit block isn't recognised")
            else:
                c.ob(f'{fn}: not commit', nx == (X if same else NONE), r, 'another block is taken for the commit')
        else:
            c.ob(f'{fn}: event keeps', nx == (X if same else NONE), r, 'an event replaces or repeats a commit')
    c.anchor(n >= 4, f'{fn} iterations')
    i = inits(lp)
    c.ob(f'{fn}: initially', i.get(X) == NONE and i.get(B) == NONE or r.S(paths[0], i.get(B, NONE)) == ('dict', ()), r,
         'starts with a commit already')
    for p in paths:
        ys = yields(p.events)
        cd = [y for y in ys if commit_data(y.a['value']) and commit_data(y.a['value'])[:2] == (X, B)]
        if r.truth(p, B) is False or r.truth(p, X) is False or r.isnone(p, X) is True:
            c.ob(f'{fn}: end', not ys, p, 'yields a commit that isn\'t there', p)
        else:
            c.ob(f'{fn}: last', len(cd) == 1 and len(ys) == 1, p, "the last commit isn't yielded", p)
    c.rule('C09.complete', "each yielded commit has its operations' records, its tree's root and its previous commit")
    outs = [(b, b.events) for b in lp.bodies if b.exit == 'back'] + [(p, p.events) for p in paths]
    m = 0
    for at, events in outs:
        for y in yields(events):
            d = commit_data(y.a['value'])
            if not d:
                continue
            m += 1
            com, blks, prev = d
            dec = A(com, 'decoded')
            c.ob('prev', is_get(prev, dec, 'prev'), y, "doesn't have its previous commit")
            root = I(dec, 'data')
            have = r.decide(y, ('in', root, blks)) is True or any(
                k[0] in ('truth', 'isnone') and k[1][0] in ('item', 'get', 'call') and {blks, root} <= set(subterms(k[1]))
                and v is (k[0] == 'truth') and not any(e.kind == 'setitem' and e.a['self'] == blks and e.a['key'] == root
                                                       and not match(C('Storage.read', cid=root), e.a['value']) for e in events)
                for k, v in r._st(y).facts.d.items())
            put = [e for e in events if e.kind == 'setitem' and e.a['self'] == blks and e.a['key'] == root
                   and match(C('Storage.read', cid=root), e.a['value'])]
            c.ob('tree root', have or bool(put), y, "doesn't have its tree's root block")
            ol = [e.x for e in events if e.kind == 'loop' and e.x.iter == A(com, 'ops')]
            if not ol:
                c.ob('records', False, y, "doesn't look at its operations' records")
                continue
            for l in ol:
                op = ('elemof', l.iter, l.lid)
                cid = A(op, 'cid')
                for b in l.bodies:
                    if b.exit == 'raise':
                        continue
                    put = [e for e in b.events if e.kind == 'setitem' and e.a['self'] == blks and e.a['key'] == cid
                           and match(C('Storage.read', cid=cid), e.a['value'])]
                    act = A(op, 'action')

                    def nouse(b):
                        return (r.cmp(b, '==', act, ACTION('DELETE')) is True or (
                            r.cmp(b, '!=', act, ACTION('CREATE')) is True and r.cmp(b, '!=', act, ACTION('UPDATE')) is True)
                            or r.truth(b, cid) is False or r.isnone(b, cid) is True
                            or r.decide(b, ('in', cid, blks)) is True)
                    c.ob('records', bool(put) or all(nouse(x) for x in r.cases(b)), y,
                         "an operation's record can be left out")
    c.anchor(m, 'commits are yielded')


@rules('C09')
def replay_memory(c):
    c.rule('C09.memory', 'MemoryStorage returns every block at or after the number, of the given repo if any, in order of sequence number')
    r = c.run(f'{MEM}.read_blocks_by_seq', MEM)
    for p in r.returns:
        t = p.value
        s = r.S(p, t)
        if s[0] == 'list' and len(s[1]) == 1 and s[1][0][0] == 'sorted':
            s = ('call', 'builtins.sorted', ((0, ('list', s[1][0][1])),) + tuple(s[1][0][2]), None)
        if s[0] == 'call' and s[1] == 'builtins.iter':
            s = dict(s[2])[0]
        if not (s[0] == 'call' and s[1] == 'builtins.sorted'):
            if s[0] == 'list' and one_loop(s) is not None:
                c.ob('order', False, p, "doesn't return blocks in order", p)
            else:
                c.unsure(f'MemoryStorage.read_blocks_by_seq returns {show(s)[:60]}')
            continue
        d = dict(s[2])
        key, inner_ = d.get('key'), d.get(0)
        c.ob('ascending', d.get('reverse', FALSE) == FALSE, p, 'returns blocks in descending order', p)
        c.ob('order', key is not None and key_of(r, p, key) == ('attr', ('x',), 'seq'), p, "doesn't order blocks by sequence number", p)
        ol = one_loop(inner_)
        if ol is None:
            c.unsure('MemoryStorage.read_blocks_by_seq selects blocks in an unrecognised way')
            continue
        c.ob('all blocks', has(ol[0], Fn(lambda t: t == A(SELF, 'blocks'))), p, "doesn't look at every stored block", p)
        inc = exc = 0
        start, repo = param('start'), param('repo')
        for facts, segs in ol[1]:
            es = [x for k, _ in facts for x in subterms(k) if x[0] in ('elemof', 'valof')]
            b = es[0] if es else None
            if b is None:
                c.ob('filter', False, p, "doesn't filter by sequence number", p)
                continue
            for at in r.cases(with_facts(r, p, facts)):
                ge = r.cmp(at, '>=', A(b, 'seq'), start)
                if segs:
                    inc += 1
                    rp = r.truth(at, repo) is False or r.isnone(at, repo) or r.cmp(at, '==', A(b, 'repo'), repo) is True
                    c.ob('included', ge is True and rp and segs == (('one', b),), p, "includes blocks it wasn't asked for", p)
                else:
                    exc += 1
                    c.ob('excluded', ge is False or (r.truth(at, repo) is True and
                         r.cmp(at, '==', A(b, 'repo'), repo) is False), p, 'leaves out blocks it was asked for', p)
        c.ob('selects', inc > 0 and exc > 0, p, "doesn't select blocks", p)




@rules('C09')
def replay_datastore(c):
    c.rule('C09.datastore', 'DatastoreStorage scans blocks in order of sequence number, from the given one, of the given repo if any, without a limit')
    fn = 'DatastoreStorage.read_blocks_by_seq'
    r = c.run(f'{DS}.read_blocks_by_seq', DS)
    start, repo = param('start'), param('repo')
    SEQ, REPOP = G(f'{DSM}.AtpBlock.seq'), G(f'{DSM}.AtpBlock.repo')
    found = []
    for p in r.paths:
        for lp, outer in any_loops(p.events):
            q = lp.iter is not None and query_of(lp.iter)
            if q and q[0].endswith('AtpBlock') and all(lp.lid != x[0].lid for x in found):
                found.append((lp, outer, q, p))
    c.anchor(found, f'{fn} iterates over a query')
    c.anchor(all(p.kind == 'raise' or any(e.kind in ('loop', 'loopiter') for e in p.events) for p in r.returns),
             f'{fn} always scans')
    for lp, outer, (_, filters, orders, rest), p in found:
        at = (outer.events if outer else p.events)[-1]
        ge = [f for f in filters if f[0] == 'filter' and f[2] == SEQ]
        rf = [f for f in filters if f[0] == 'filter' and f[2] == REPOP]
        c.ob('filters', len(filters) == len(ge) + len(rf), at, 'leaves out blocks')
        c.ob('order', orders == [SEQ], at, "isn't in ascending order")
        weak = [v for n, d in rest for k, v in d.items() if k in ('read_consistency', 'read_policy')
                and 'EVENTUAL' in show(v)]
        c.ob('consistency', not weak, at, "may not see all of a number's blocks yet, and then goes past them")
        c.ob('limit', [n for n, d in rest] == ['iter'] and not ({'limit', 'offset', 'keys_only', 'projection', 'batch_size'}
                                                                 & {k for n, d in rest for k in d} - {'batch_size'}), at,
             'reads only part of the blocks')
        t = r.truth(lp_state(lp, outer, p), repo)
        c.ob('repo', t is not None and bool(rf) == t and all(f[1] == '==' and has(f[3], repo) for f in rf), at,
             "doesn't read exactly the given repo's blocks")
        c.ob('from', len(ge) == 1 and ge[0][1] == '>=', at, "doesn't start at the given number, inclusive")
        if len(ge) != 1:
            continue
        frm = ge[0][3]
        elem = ('elemof', lp.iter, lp.lid)
        seq = A(elem, 'seq')
        oloop = next((l for p2 in r.paths for l, _ in any_loops(p2.events) if frm[0] == 'lv' and l.lid == frm[1]), None)
        if oloop is not None:
            c.ob('starts', inits(oloop).get(frm) == start, at, "doesn't start at the given number")
            restart = [(b, d.get(frm, frm)) for b, d in carries(c, oloop)]
        else:
            c.ob('starts', frm == start, at, "doesn't start at the given number")
            restart = []
        c.rule('C09.resume', 'each scanned block is yielded unless it already was; a rescan starts at the last number read, and only after a lost context')
        i = inits(lp)
        rows = carries(c, lp)
        around = [l for p2 in r.paths for l, _ in any_loops(p2.events) if outer is not None and any(b is outer for b in l.bodies)]
        if oloop is None and any(b.exit == 'back' for l in around for b in l.bodies):
            if any(b.exit == 'back' and not yields(b.events) and r.cmp(b, '<', seq, K(0)) is None and any(
                    k[0] == 'lin' and seq in subterms(k) for k, _ in b.facts.d.items()) and not seen_sets(r, b, elem) for b in lp.bodies):
                c.unsure(f'{fn} skips what it already read in an unrecognised way')
            else:
                c.ob('restart', False, at, "a rescan starts over at the given number, so it reads blocks that were already yielded")
            continue
        CUR = [lv for lv, v in i.items() if v == frm and all(d[lv] in (lv, seq) for _, d in rows)]
        for b, new in rows:
            ev = b.events[-1] if b.events else at
            ys = yields(b.events)
            want = [y for y in ys if match(C('to_block', self=elem), y.a['value'])]
            c.ob('yields', len(ys) <= 1 and want == ys, ev, 'yields something else, or twice')
            known = seen_sets(r, b, elem)
            if not ys:
                # a block is skipped only if its id is in the ids already yielded at its number
                ok = any(v is True and x[0] == 'lv' for x, v in known)
                same = any(r.cmp(b, '<=', seq, lv) is True for lv in CUR)    # never less, since they're read in order
                c.ob('skip', ok and (same or not CUR), ev, "skips a block that wasn't yielded yet")
            elif oloop is not None:
                # it's remembered, in a fresh collection or in the one that the test looks at
                adds = [e for e in b.events if (e.kind == 'mutate' or e.kind == 'call') and
                        (e.fn or '').rsplit('.', 1)[-1] in ('append', 'add') and has(e.a.get(0, NONE), elem)]
                adds += [e for e in b.events if e.kind == 'setitem' and has(e.a['key'], elem)]
                c.ob('remember', bool(adds), ev, 'a block that was yielded can be yielded again after a lost context')
                fresh = [lv for lv, v in new.items() if v is not None and v[0] == 'obj' and lv[0] == 'lv']
                tested = any(v is False for _, v in known + [x for e in b.events for x in seen_sets(r, e, elem)]) or any(
                    r.cmp(b, '==', seq, lv) is False for lv in CUR)
                c.ob('not yet', tested, ev, 'a block that was already yielded is yielded again after a lost context')
                if fresh:
                    c.ob('forget', any(new[lv] == seq for lv in CUR) or
                         any(r.cmp(b, '==', seq, lv) is False for lv in CUR), ev,
                         'forgets the blocks that were yielded at the current number')
            if CUR:
                c.ob('track', any(new[lv] == seq or r.cmp(b, '<=', seq, lv) is True for lv in CUR), ev,
                     "loses track of the current number")
        if oloop is not None and not CUR and restart:
            c.unsure(f'{fn} tracks its position in an unrecognised way')
        ok = {frm, seq} | set(CUR)
        for b, v in restart:
            ev = b.events[-1]
            mine = {x[2] for x in subterms(v) if x[0] == 'elemof'} | {x[1] for x in subterms(v) if x[0] == 'lv'}
            if mine - {lp.lid, oloop.lid}:
                continue    # another partition's scan
            c.ob('restart', v in ok, ev, "a rescan doesn't start at the last number read")
        if oloop is not None:
            for b in oloop.bodies:
                if b.exit == 'back':
                    cat = [e for e in flat(b.events) if e.kind == 'catch']
                    fs = {e.fn for e in cat}
                    c.ob('caught', len(cat) == 1 and all(fn_is(f or '', 'ContextError') for f in fs), cat[0] if cat else b.events[-1],
                         "scans again without having lost its context")
                    new_ctx = [e for e in b.events if e.kind == 'setattr' and e.fn == 'context' and e.a['value'] == NONE]
                    c.ob('new context', bool(new_ctx), b.events[-1], 'scans again with the lost context')
        c.rule('C09.datastore', c.rules['C09.datastore'])
    c.rule('C09.resume', c.rules['C09.resume'])
    for lp, outer, _, p in found:
        ends = [b for p2 in r.paths for l, _ in any_loops(p2.events) if outer is not None and any(x is outer for x in l.bodies)
                for b in l.bodies if b.exit not in ('back', 'raise')]
        for b in ends + [p2 for p2 in r.returns]:
            cat = [e for e in b.events if e.kind == 'catch']
            c.ob('finished', not cat, cat[0] if cat else r, 'ends the scan without having read everything')
    for p in r.raises:
        if p.exc.cls:
            c.ob('not passed on', not r.exc_is(p, 'ContextError'), p, 'a lost context ends the scan', p)


def seen_sets(r, b, elem):
    """[(collection, known membership of elem's id)]"""
    out = []
    for k, v in r._st(b).facts.d.items():
        if k[0] == 'in' and has(k[1], elem) and isinstance(v, bool):
            out.append((k[2], v))
    return out


def lp_state(lp, outer, p):
    return lp.bodies[0] if lp.bodies else p
