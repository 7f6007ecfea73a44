"""The firehose: ordering, completeness, gaps, errors, frames and cursors."""
import ast

from .common import *

FH = 'arroba.firehose'
COL = f'{FH}.Collector'
PE = f'{FH}.process_event'
READ = 'read_events_by_seq'


def glob_is(t, *names):
    n = gname(t)
    return n is not None and fn_is(n, *names)


def read_call(t):
    """The read_events_by_seq call that an iterable is, under enumerate and copies."""
    while t is not None and t[0] == 'call':
        if fn_is(t[1], READ):
            return t
        if t[1] in ('builtins.enumerate', 'builtins.list', 'builtins.iter', 'builtins.tuple') and t[2]:
            t = t[2][0][1]
            continue
        return None
    return None


def frame(v):
    """The pair that a frame is, whether whole or taken apart and put together again."""
    if v[0] == 'tuple' and len(v[1]) == 2:
        a, b = v[1]
        if a[0] == b[0] == 'item' and a[1] == b[1] and a[2] == K(0) and b[2] == K(1):
            return a[1]
    return v


def seq_terms(ev, pe=None):
    """A stored event's sequence number, in every form."""
    out = [I(ev, 'seq'), A(ev, 'commit', 'seq')]
    if pe is not None:
        out.append(I(I(pe, 1), 'seq'))
    return out


def frame_seq(f):
    return I(I(f, 1), 'seq')


def processed(t):
    """The stored event that a process_event result is for."""
    return kwarg(t, 'event') if t[0] == 'call' and fn_is(t[1], 'firehose.process_event') else None


def win_first(t):
    """Is t the sequence number of the window's first event?"""
    return (t[0] == 'item' and t[2] == K('seq') and t[1][0] == 'item' and t[1][2] == K(1)
            and t[1][1][0] == 'item' and t[1][1][2] == K(0) and glob_is(t[1][1][1], 'firehose.rollback'))


def win_last(t):
    return (t[0] == 'item' and t[2] == K('seq') and t[1][0] == 'item' and t[1][2] == K(1)
            and t[1][1][0] == 'item' and t[1][1][2] == K(-1))


def window_copy(t):
    return t[0] == 'call' and t[2] and t[1] in (
        'copy.copy', 'builtins.list', 'builtins.tuple', 'collections.deque', '?.copy') and glob_is(
            t[2][0][1], 'firehose.rollback')


def loop_of(e):
    ls = loops_of(e)
    return ls[-1] if ls else None


def own(body, pred):
    """A body's own effects, not those of loops inside it."""
    return [e for e in body.events if pred(e)]


def publishes(e):
    return (e.kind == 'call' and fn_is(e.fn, 'append', 'put', 'put_nowait') and 'self' in e.a and 0 in e.a
            and (glob_is(e.a['self'], 'firehose.rollback')
                 or (e.a['self'][0] == 'elemof' and glob_is(inner(e.a['self'][1]), 'firehose.subscribers'))))


def event_loops(c, r):
    """Loops over stored events in _collect."""
    out = []
    for p in r.paths:
        for lp, outer in any_loops(p.events):
            if lp.iter is not None and read_call(lp.iter) is not None and lp not in [x for x, _ in out]:
                out.append((lp, outer))
    c.anchor(out, 'the collector reads stored events')
    return out


LAST = ('attr', (SELF, 'last_seq'))


def last_lv(lp):
    return ('lv', lp.lid, 'last_seq', SELF)


def last_init(lp):
    return lp.changed[LAST][0] if LAST in lp.changed else None


def collector_loops(c):
    r = c.run(f'{COL}._collect', COL)
    for lp, outer in event_loops(c, r):
        if LAST not in lp.changed:
            if c.cur == 'F01.collector':
                c.ob("Collector's last number", False, lp, "isn't recorded when an event is published")
                continue
            c.anchor(False, 'the collector keeps its last sequence number')
        L = None
        for b in lp.bodies:
            for t in [x for k in b.facts.d for x in subterms(k)]:
                if t[0] == 'lv' and t[1] == lp.lid and t[2] == 'last_seq':
                    L = t
        c.anchor(L is not None, "the collector compares with its last sequence number")
        yield r, lp, L


def body_event(r, lp, b):
    ev = r.it.elem(b.st, read_call(lp.iter), lp.lid)
    return ev


def body_seq(r, lp, b):
    """The stored event of an iteration, and its sequence number there."""
    ev = body_event(r, lp, b)
    cands = seq_terms(ev)
    for k in b.facts.d:
        for t in subterms(k):
            if processed(t) == ev and I(I(t, 1), 'seq') not in cands:
                cands.append(I(I(t, 1), 'seq'))
    return ev, cands


@rules('F01')
def collector_order(c):
    c.rule('F01.collector', 'the collector publishes an event only if its number is greater than the last one, and records it as the last one before it publishes')
    n = 0
    for r, lp, L in collector_loops(c):
        for b, d in carries(c, lp):
            pubs = [e for e in flat(b.events) if publishes(e)]
            ev, seqs = body_seq(r, lp, b)
            new = [v for k, v in d.items() if k == ('lv', lp.lid, LAST)]
            if not pubs:
                c.ob("Collector's last number, event not published", all(v == L for v in new), lp,
                     'changes without publishing')
                continue
            n += 1
            gt = [s for s in seqs if r.cmp(b, '>', s, L) is True]
            c.ob('published only if greater', bool(gt), pubs[0],
                 "a number that isn't known to be greater than the last one is published")
            c.ob("Collector's last number", len(new) == 1 and new[0] in seqs, pubs[0],
                 "isn't the published event's afterwards")
            sets = [i for i, e in enumerate(b.events) if e.kind == 'setattr' and e.fn == 'last_seq' and e.a['self'] == SELF]
            first = min((i for i, e in enumerate(b.events) if any(publishes(x) for x in flat([e]))), default=None)
            c.ob('recorded before publishing', bool(sets) and first is not None and sets[0] < first, pubs[0],
                 'an error while publishing would make it publish the number again')
            c.ob('one event at a time', all(processed(frame(e.a[0])) == ev for e in pubs), pubs[0],
                 "what is published isn't this event")
        for b in lp.bodies:
            if b.exit == 'raise':
                for i, e in enumerate(b.events):
                    if any(publishes(x) for x in flat([e])):
                        c.ob('recorded before publishing', any(x.kind == 'setattr' and x.fn == 'last_seq' for x in b.events[:i]),
                             e, 'an error while publishing would make it publish the number again')
    c.anchor(n or c.violations, 'the collector publishes events')


@rules('F02')
def collector_complete(c):
    c.rule('F02.publish', "every event the collector reads goes to the window and to every subscriber, in one hold of the lock, unless its number isn't greater than the last one")
    n = 0
    for r, lp, L in collector_loops(c):
        start = kwarg(read_call(lp.iter), 'start')
        x, k = lin1(start) if start is not None else (None, None)
        c.ob('reads from the last number on', x is not None and k <= 1 and _same_attr(x, 'last_seq'), lp,
             'events after the last published one are never read')
        c.ob('reads every repo', kwarg(read_call(lp.iter), 'repo') in (None, NONE), lp, "reads one repo's events")
        for b in lp.bodies:
            pubs = [e for e in flat(b.events) if publishes(e)]
            ev, seqs = body_seq(r, lp, b)
            if b.exit == 'back' and not pubs:
                c.ob('skipped only if not greater', any(r.cmp(b, '<=', s, L) is True for s in seqs), lp,
                     'an event is read and not published')
            if b.exit != 'back' or not pubs:
                continue
            n += 1
            win = [e for e in b.events if publishes(e) and glob_is(e.a['self'], 'firehose.rollback')]
            c.ob('window gets it', len(win) == 1 and fn_is(win[0].fn, 'append'), pubs[0], "a live event isn't appended to the window")
            subs = [e.x for e in b.events if e.kind == 'loop' and e.x.iter is not None
                    and glob_is(inner(r.it.strip_iter(b.st, e.x.iter)), 'firehose.subscribers')]
            c.ob('subscribers get it', len(subs) == 1 and all(
                x.exit in ('back', 'raise') and (x.exit == 'raise' or any(publishes(e) for e in x.events))
                for x in subs[0].bodies), pubs[0], 'a subscriber may not get a live event')
            if len(subs) == 1 and glob_is(inner(subs[0].iter), 'firehose.subscribers'):
                moved = [e for x in subs[0].bodies if x.exit == 'back' for e in flat(x.events)
                         if e.kind in ('call', 'mutate') and glob_is(e.a.get('self', NONE), 'firehose.subscribers')
                         and fn_is(e.fn, 'remove', 'pop', 'insert', 'clear')]
                c.ob('subscribers get it', not moved, moved[0] if moved else pubs[0],
                     'subscribers changes while it goes through it, so the next one may not get a live event')
            c.ob('under the lock', all(holds_lock(e, 'firehose.lock') for e in pubs), pubs[0],
                 'published without the lock')
            exits = [e for e in b.events if e.kind == 'exit' and glob_is(e.a.get('ctx', NONE), 'firehose.lock')]
            c.ob('in one hold', len(exits) == 1, pubs[0], 'the lock is released between the window and the subscribers')
    c.anchor(n, 'the collector publishes events')


def _same_attr(t, name):
    return (t[0] == 'lv' and t[2] == name) or t == A(SELF, name)


# ------------------------------------------------------------------ gaps
DELAY = f'{FH}.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY'
SKIPW = f'{FH}.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW'


def _lost(t):
    return glob_is(t, 'firehose.lost_seqs')


def gap(c, r, b, L, seqs):
    """Is there an unpublished number, not lost, before this event? True/False, or None if the facts don't say."""
    lids = {}
    for e in flat(b.events):
        if e.kind in ('loop', 'loopiter'):
            lids[e.x.lid] = e
    # the first number after the last one that isn't lost
    firsts = []
    for k, v in b.facts.d.items():
        if k[0] == 'in' and _lost(k[2]) and v is False:
            x = k[1]
            if x[0] == 'elemof' and x[1][0] == 'call' and x[1][1] == 'builtins.range':
                a = [t for _, t in x[1][2]]
                if len(a) == 2 and any(lin_eq(a[0], L, 1) for _ in (0,)) and any(
                        lin_eq(a[1], s, 1) or a[1] == s for s in seqs):
                    firsts.append(x)
                else:
                    return None
            elif x[0] == 'lv':
                firsts.append(x)
            else:
                return None
    for f in firsts:
        if f[0] == 'lv':
            lp = r.it.loops.get(f[1])
            if lp is None or not _counts_lost(c, r, lp, f, L):
                return None
        if any(r.cmp(b, '>', s, f) is True for s in seqs):
            return True
        if any(r.cmp(b, '<=', s, f) is True for s in seqs):
            return False
    for f in {x for k in b.facts.d for x in subterms(k) if x[0] == 'lv'}:
        lp = r.it.loops.get(f[1])
        if lp is not None and _counts_lost(c, r, lp, f, L) and any(r.cmp(b, '<=', s, f) is True for s in seqs):
            return False
    # all of them were found lost
    for e in b.events:
        if e.kind == 'loop' and e.x.iter is not None and e.x.iter[0] == 'call' and e.x.iter[1] == 'builtins.range':
            a = [t for _, t in e.x.iter[2]]
            if (len(a) == 2 and lin_eq(a[0], L, 1) and any(lin_eq(a[1], s, 1) or a[1] == s for s in seqs)
                    and all(x.exit != 'back' or any(k[0] == 'in' and _lost(k[2]) and v for k, v in x.facts.d.items())
                            for x in e.x.bodies)):
                return False
    # a collection of the missing ones
    for k, v in b.facts.d.items():
        if k[0] == 'truth' and k[1][0] == 'obj':
            s = r.shape(b, k[1])
            o = one_loop(s)
            if o and o[0][0] == 'call' and o[0][1] == 'builtins.range':
                a = [t for _, t in o[0][2]]
                if (len(a) == 2 and lin_eq(a[0], L, 1) and any(a[1] == q for q in seqs)
                        and all(not segs or any(f[0] == 'in' and _lost(f[2]) and w is False for f, w in facts)
                                for facts, segs in o[1])):
                    return v
    for s in seqs:
        if r.cmp(b, '<=', s, plus(L, K(1))) is True:
            return False
    return None


def lin_eq(t, base, k):
    return diff_is(t, base, k)


def _counts_lost(c, r, lp, f, L):
    ins = inits(lp)
    if f not in ins or ins[f] is None or not diff_is(ins[f], L, 1):
        return False
    for b, d in carries(c, lp):
        if not diff_is(d.get(f, f), f, 1) or not any(
                k[0] == 'in' and k[1] == f and _lost(k[2]) and v for k, v in b.facts.d.items()):
            return False
    return True


def _times(b):
    out = []
    for k in b.facts.d:
        for t in subterms(k):
            if t[0] == 'call' and fn_is(t[1], 'time.time', 'time.monotonic') and t not in out:
                out.append(t)
    return out


def _delays(b):
    out = []
    for k in b.facts.d:
        for t in subterms(k):
            if t[0] == 'call' and t[1].endswith('total_seconds') and has(t, G(DELAY)) and t not in out:
                out.append(t)
    return out


def _lasts(b):
    out = []
    for k in b.facts.d:
        for t in subterms(k):
            if t[0] == 'call' and fn_is(t[1], 'Sequences.last') and t not in out:
                out.append(t)
    return out


def waited(r, b, since):
    """Has the delay passed since the last event? True/False/None."""
    for now in _times(b):
        for d in _delays(b):
            for s in since:
                v = r.cmp(b, '<=', mk_bin('-', now, s), d)
                if v is not None:
                    return not v
                v = r.cmp(b, '<', mk_bin('-', now, s), d)
                if v is not None:
                    return not v
    return None


def behind(r, b, seqs):
    """Is the event too far behind the last allocated number? True/False/None (no last number: False)."""
    for last in _lasts(b):
        if r.isnone(b, last) is True:
            return False
        for s in seqs:
            v = r.cmp(b, '>', mk_bin('-', last, s), G(SKIPW))
            if v is not None:
                return v
    return None


def _since(lp):
    """Loop variables that hold when the last event was published."""
    out = []
    for key, (init, vals) in lp.changed.items():
        if key[0] == 'var' and any(isinstance(v, tuple) and v[0] == 'call' and fn_is(v[1], 'time.time', 'time.monotonic')
                                   for v in vals):
            out.append((('lv', lp.lid, key[2]), init))
    return out


@rules('F03')
def gaps(c):
    c.rule('F03.publish', 'an event is published only if there is no missing number before it, or the delay has passed since the last event, or it is too far behind')
    obs = []
    for r, lp, L in collector_loops(c):
        since = _since(lp)
        sv = [s for s, _ in since]
        if not since:
            sv = [t for b in lp.bodies for t in _times(b)]
            if any(_delays(b) for b in lp.bodies):
                c.ob('reset when publishing', False, lp, "the time it has waited isn't counted from the last event")
            else:
                c.unsure("how the collector measures how long it has waited isn't recognised")
                continue
        for b in lp.bodies:
            if b.exit not in ('back', 'break', 'return'):
                continue
            ev, seqs = body_seq(r, lp, b)
            pubs = [e for e in flat(b.events) if publishes(e)]
            if b.exit == 'back' and not pubs:
                continue
            for case in r.cases(b):
                at = _At(case, b)
                g = gap(c, r, at, L, seqs)
                w, far = waited(r, at, sv), behind(r, at, seqs)
                obs.append((r, lp, L, b, pubs, g, w, far, seqs, at))
    for r, lp, L, b, pubs, g, w, far, seqs, at in obs:
        if not pubs:
            continue
        if g is None and not w and not far:
            if not any(k[0] == 'in' and _lost(k[2]) for k in at.facts.d):
                c.ob('published after a gap', False, pubs[0], 'without checking for missing numbers')
            else:
                _gapless(c, r, at, L, seqs, pubs[0])
            continue
        c.ob('published after a gap', g is False or w is True or far is True, pubs[0],
             'although a number before it may still arrive')
    c.rule('F03.wait', "the collector waits for a missing number only while it isn't lost, the delay hasn't passed, and it's near the last allocated number")
    for r, lp, L, b, pubs, g, w, far, seqs, at in obs:
        if pubs:
            continue
        if b.exit == 'return':
            c.unsure('the collector returns while reading events')
            continue
        if g is None:
            c.unsure('what the collector waits for is not recognised')
            continue
        c.ob('waits only for a missing number', g is True, lp, 'there is none')
        c.ob('waits only until the delay', w is False, lp, 'it may wait longer than the configured delay')
        c.ob('waits only near the end', far is False, lp, 'it waits although it is too far behind')
    c.rule('F03.clock', "the delay is counted from when the last event was published")
    for r, lp, L in collector_loops(c):
        for b, d in carries(c, lp):
            pubs = [e for e in flat(b.events) if publishes(e)]
            for lv, init in _since(lp):
                v = d.get(lv, lv)
                c.ob('reset when publishing' if pubs else 'kept when not', (v[0] == 'call' and fn_is(
                    v[1], 'time.time', 'time.monotonic')) if pubs else v == lv, pubs[0] if pubs else lp,
                    "isn't set to the current time" if pubs else 'is reset without publishing')
        # in the loops around it, too
        names = {lv[2] for lv, _ in _since(lp)}
        for lp2, _ in (x for p in r.paths for x in any_loops(p.events)):
            if lp2 is lp or not any(l is lp for b in lp2.bodies for l, _ in any_loops(b.events)):
                continue
            for b in lp2.bodies:
                now = {e.res: e for e in own(b, lambda e: e.kind == 'call' and fn_is(e.fn, 'time.time', 'time.monotonic'))}
                if own(b, publishes):
                    continue
                inside = [i for l, _ in any_loops(b.events) for lv, i in inits(l).items() if lv[2] in names]
                after = [v for b2, d in carries(c, lp2) if b2 is b for lv, v in d.items() if lv[2] in names]
                for v in inside + after:
                    c.ob('kept between reads', v not in now, now.get(v, lp2), 'is reset without publishing')
    names = {lv[2] for _, lp, _ in collector_loops(c) for lv, _ in _since(lp)}
    r = c.run(f'{COL}._collect', COL)
    for p in r.paths:
        for lp, _ in any_loops(p.events):
            for lv, init in inits(lp).items():
                if lv[2] not in names or init[0] == 'lv':
                    continue
                if init[0] == 'call' or is_const(init):
                    c.ob('at first', fn_is(init[1], 'time.time', 'time.monotonic') if init[0] == 'call' else False, lp,
                         "isn't counted from the time that it started at")
                else:
                    c.unsure('what the delay is first counted from is unrecognised')
    c.rule('F03.lost', 'a number reported lost is remembered')
    r = c.run(f'{FH}.mark_seq_lost')
    for p in r.returns:
        adds = [e for e in p.events if e.kind in ('call', 'mutate') and fn_is(e.fn, 'add', 'update') and _lost(e.a['self'])]
        c.ob('mark_seq_lost', any(e.a.get(0) == param('seq') or has(e.a.get(0, NONE), param('seq')) for e in adds), p,
             "isn't added to lost_seqs", p)
        gone = [e for e in p.events if e.kind in ('call', 'mutate') and fn_is(e.fn, 'clear', 'pop') and _lost(e.a.get('self', NONE))
                or e.kind == 'setglob' and fn_is(e.fn, 'firehose.lost_seqs') and not any(_lost(t) for t in subterms(r.S(p, e.a['value'])))]
        c.ob('mark_seq_lost', not gone, gone[0] if gone else p, 'numbers reported lost earlier are forgotten', p)
    r = c.run(f'{COL}._collect', COL)
    for lp, _ in event_loops(c, r):
        for b in lp.bodies:
            for e in b.events:
                if e.kind == 'loop':
                    for x in e.x.bodies:
                        gone = [y for y in flat(x.events) if y.kind in ('call', 'mutate') and fn_is(y.fn, 'discard', 'remove') and _lost(y.a.get('self', NONE))]
                        on = any(y.kind == 'setattr' and y.fn == 'last_seq' for y in x.events)
                        c.ob('until passed', not gone or on, gone[0] if gone else lp, "a number reported lost is forgotten before it's passed")
    c.rule('F03.wakes', 'while it waits the collector wakes up by itself')
    r = c.run(f'{COL}._collect', COL)
    ws = [e for p in r.paths for lp, _ in any_loops(p.events) for b in lp.bodies for e in own(
        b, lambda e: e.kind == 'call' and fn_is(e.fn, 'wait', 'wait_for') and glob_is(e.a.get('self', NONE), 'firehose.new_events'))]
    for e in ws:
        t = e.a.get(0 if fn_is(e.fn, 'wait') else 1, e.a.get('timeout', NONE))
        c.ob('new_events.wait', t != NONE, e, 'waits for new events without a timeout')
    for b in (b for p in r.paths for lp, _ in any_loops(p.events) for b in back_bodies(lp)):
        w = [e for e in own(b, lambda e: e in ws)]
        if w:
            c.ob('looks', any(read_call(e.res) is not None for e in flat(b.events) if e.res is not None), w[0],
                 'waits again without looking for new events')


class _At:
    """A body's state with one disjunct's facts."""
    def __init__(self, st, b):
        self.facts, self.heap, self.attrs, self.epoch = st.facts, st.heap, st.attrs, st.epoch
        self.st, self.events, self.exit = st, b.events, b.exit


def _gapless(c, r, b, L, seqs, at):
    """Facts mention lost_seqs but in a shape that gap() doesn't understand: is it a plain off-by-something?"""
    for k, v in b.facts.d.items():
        if k[0] == 'in' and _lost(k[2]) and v is False and k[1][0] == 'elemof':
            x = k[1]
            a = [t for _, t in x[1][2]] if x[1][0] == 'call' and x[1][1] == 'builtins.range' else []
            if len(a) == 2:
                x0, k0 = linear(mk_bin('-', a[0], L))
                if not x0:
                    c.ob('published after a gap', False, at, 'the range of missing numbers is wrong, or a smaller gap is ignored')
                    return
    c.unsure("how missing numbers are found isn't recognised")


# ------------------------------------------------------------------ subscribers
class Sub:
    """What subscribe() does, by phase."""
    def __init__(self, c):
        self.c = c
        r = self.r = c.run(f'{FH}.subscribe')
        self.loops = {}       # lid -> (Loop, a path)
        self.bodies = {}      # lid -> enclosing body
        for p in r.paths:
            for lp, outer in any_loops(p.events):
                self.loops.setdefault(lp.lid, (lp, p))
        self.scans = [lp for lp, _ in self.loops.values() if lp.iter is not None and read_call(lp.iter) is not None]
        self.lives, self.serves, self.catchups = [], [], []
        for lp, p in self.loops.values():
            if lp in self.scans:
                continue
            own_y = [e for b in lp.bodies for e in b.events if e.kind == 'yield']
            fr = {frame(e.a['value']) for e in own_y}
            if fr and all(f[0] == 'call' and fn_is(f[1], 'get', 'get_nowait') for f in fr):
                self.lives.append(lp)
            elif fr and all(f[0] == 'elemof' for f in fr):
                self.serves.append((lp, p))
            elif fr:
                c.unsure(f'subscribe yields something unrecognised at line {own_y[0].loc}')
            if any(e.kind == 'call' and fn_is(e.fn, 'put', 'put_nowait') for b in lp.bodies for e in b.events):
                self.catchups.append((lp, p))
        for p in r.paths:
            for e in p.events:
                if e.kind in ('yield', 'yieldfrom'):
                    # outside of a loop, or in the iteration that it left early
                    pass

    def origins(self, t, seen=None):
        """Where a value may come from: terms that aren't loop variables, and the loop variables on the way."""
        seen = set() if seen is None else seen
        if t is None:
            return set(), seen
        if t[0] == 'lv':
            if t in seen:
                return set(), seen
            seen.add(t)
            lp = self.loops.get(t[1], (None,))[0]
            if lp is None:
                return {t}, seen
            out = set()
            for key, (init, vals) in lp.changed.items():
                if ('lv', lp.lid, key[2] if key[0] == 'var' else key) == t:
                    for v in [init] + list(vals):
                        if isinstance(v, tuple):
                            out |= self.origins(v, seen)[0]
            return out, seen
        return {t}, seen

    def nexts(self, b):
        """Terms that this iteration of a scan loop yields, by frame."""
        return [frame(e.a['value']) for e in b.events if e.kind == 'yield']


def thresholds(r, b, s):
    """[(t, k)] such that this iteration's facts say s >= t + k."""
    out = []
    for k in b.facts.d:
        for x in subterms(k):
            if x[0] in ('lv', 'param') and (x, 0) not in out and (x, 1) not in out:
                if r.cmp(b, '>', s, x) is True:
                    out.append((x, 1))
                elif r.cmp(b, '>=', s, x) is True:
                    out.append((x, 0))
    return out


def scan_next(sub, c, t, k, p=None):
    """Is t + k just after whatever the scan loops, on this path, yielded, on every yielding iteration? And its other origins."""
    org, lvs = sub.origins(t)
    ok = True
    here = {lp.lid for lp, _ in any_loops(p.events)} if p is not None else None
    for lp in sub.scans:
        if here is not None and lp.lid not in here:
            continue
        for b, d in carries(c, lp):
            for f in sub.nexts(b):
                s = frame_seq(f)
                if not any(x in lvs and isinstance(v, tuple) and diff_is(plus(v, K(k)), s, 1) for x, v in d.items()):
                    ok = False
    rest = set()
    for o in org:
        if has(o, Fn(lambda x: processed(x) is not None)):
            s = [x for x in subterms(o) if x[0] == 'item' and x[2] == K('seq')]
            if any(diff_is(plus(o, K(k)), y, 1) for y in s):
                continue
        rest.add(o)
    return ok, rest


def lock_holds(events):
    """[(first epoch, last epoch)] of each hold of firehose.lock among these effects."""
    out, start = [], None
    for e in events:
        if e.kind == 'enter' and glob_is(e.a.get('ctx', NONE), 'firehose.lock'):
            start = e
        elif e.kind == 'exit' and glob_is(e.a.get('ctx', NONE), 'firehose.lock') and start is not None:
            out.append((start.epoch, e.epoch))
            start = None
    return out


def epoch_of(t):
    """Epoch of the window that a copy is of."""
    g = t[2][0][1]
    return g[2] if g[0] == 'gv' else None


@rules('F01')
def subscriber_order(c):
    c.rule('F01.storage', 'a subscriber gets an event from storage only if its number is greater than the last one it got')
    sub = Sub(c)
    r = sub.r
    c.anchor(sub.scans, 'subscribe reads stored events')
    for lp in sub.scans:
        ev0 = kwarg(read_call(lp.iter), 'start')
        for b, d in carries(c, lp):
            fr = sub.nexts(b)
            if len(fr) > 1:
                c.ob('one frame per event', False, [e for e in b.events if e.kind == 'yield'][1], 'an event is sent twice')
                continue
            for f in fr:
                y = [e for e in b.events if e.kind == 'yield'][0]
                ev = r.it.elem(b.st, read_call(lp.iter), lp.lid)
                c.ob('the event that was read', processed(f) == ev, y, "what's sent isn't the event read from storage")
                s = frame_seq(f)
                good = False
                for x, v in d.items():
                    if not isinstance(v, tuple) or not diff_is(v, s, 0) and not diff_is(v, s, 1):
                        continue
                    k = 1 if diff_is(v, s, 0) else 0
                    # x + k is just after the last one sent; each case must be past it, or the first
                    if all(r.isnone(st, x) is True or r.truth(st, x) is False or r.cmp(st, '>' if k else '>=', s, x) is True
                           for st in r.cases(b)):
                        good = True
                c.ob('greater than the last', good, y, 'an event from storage may repeat, or go backward')
    c.rule('F01.window', 'a subscriber gets an event from the window only if it comes after everything it got before')
    c.anchor(sub.serves, 'subscribe serves the window')
    for lp, p in sub.serves:
        for b in lp.bodies:
            ys = [e for e in b.events if e.kind == 'yield']
            if len(ys) > 1:
                c.ob('one frame per event', False, ys[1], 'an event is sent twice')
            for e in ys[:1]:
                f = frame(e.a['value'])
                c.ob('each in turn', f[0] == 'elemof' and f[2] == lp.lid, e, "isn't this iteration's event")
                ths = thresholds(r, b, frame_seq(f))
                c.ob('after storage', any(scan_next(sub, c, t, k, p)[0] for t, k in ths), e,
                     'an event that was sent from storage may be sent again')
        c.ob('in window order', not has(lp.iter, C('builtins.reversed')), lp, 'goes backward')
    c.rule('F01.catchup', 'when it starts streaming, a subscriber gets only what comes after the window it was served')
    for lp, p in sub.catchups:
        for b, d in carries(c, lp):
            for e in b.events:
                if not (e.kind == 'call' and fn_is(e.fn, 'put', 'put_nowait')):
                    continue
                f = frame(e.a.get(0, NONE))
                s = frame_seq(f)
                good = None
                for x, v in d.items():
                    if isinstance(v, tuple) and diff_is(v, s, 0) and r.cmp(b, '>', s, x) is True:
                        good = inits(lp)[x]
                # the window itself is in order, so a fixed bound will do
                for x in _fixed_bounds(r, lp, b, s, '>'):
                    if _after_window(sub, c, x, p):
                        good = x
                c.ob('greater than the last', good is not None, e, 'may repeat, or go backward')
                if good is not None:
                    c.ob('after the window', _after_window(sub, c, good, p), e,
                         "doesn't start after the last event that was sent")
    c.anchor(sub.catchups, 'subscribe catches up with the window')
    c.rule('F01.queue', 'live events come from one queue, in order')
    for lp in sub.lives:
        qs = {f[2][0][1] for b in lp.bodies for f in sub.nexts(b)}
        c.ob('one queue', len(qs) == 1, lp, 'live events come from more than one queue')
        for q in qs:
            c.ob('first in, first out', q[0] == 'call' and fn_is(q[1], 'SimpleQueue', 'Queue', 'deque'), lp, "isn't a FIFO queue")
    c.rule('F01.merge', 'older events are put before the window, in order, and only those older than it')
    _merge(c, sub, 'F01')


def _fixed_bounds(r, lp, b, s, op):
    """Terms that don't change in this loop and that the facts compare s with."""
    out = []
    for k in b.facts.d:
        if k[0] == 'lin' and any(s == t for t, _ in k[1]):
            for t, _ in k[1]:
                cands = [t, mk_bin('-', t, K(1))]
                out += [x for x in cands if t != s and not has(t, Fn(lambda y: y[0] in ('elemof', 'lv') and (
                    y[2] == lp.lid or y[1] == lp.lid))) and r.cmp(b, op, s, x) is True and x not in out]
    return out


def _after_window(sub, c, init, p):
    """Is init the last number served from the window, or the last one before the threshold?"""
    ok = True
    for o in sub.origins(init)[0]:
        if win_last(o):
            continue
        x, k = lin1(o)
        if x is not None and k == -1 and (x == param('cursor') or x[0] == 'lv'):
            # only if nothing was served from the window
            served = [e.x.iter for e in p.events if e.kind in ('loop', 'loopiter')
                      and any(e.x is lp for lp, _ in sub.serves)]
            if all(sub.r.truth(p, it) is False for it in served):
                continue
        if o == NONE:
            continue
        ok = False
    return ok


def waits(e):
    """Does a queue's get wait for as long as it takes?"""
    if not fn_is(e.fn, 'get'):
        return False
    return e.a.get(0, e.a.get('block', K(True))) in (K(True), K(1)) and e.a.get(1, e.a.get('timeout', NONE)) == NONE


def _from_cursor(init):
    """Is init the cursor, or where reading from storage got to?"""
    x, k = lin1(init) if isinstance(init, tuple) else (None, 0)
    return x is not None and (x == param('cursor') or x[0] == 'lv' and x[2] == 'cursor')


def _merge(c, sub, which):
    """extendleft(reversed(tail of events from storage older than the window))."""
    r = sub.r
    for lp in sub.scans:
        kept = {e.a['self'] for b in lp.bodies for e in b.events if e.kind == 'mutate' and fn_is(e.fn, 'append', 'add') and processed(frame(e.a.get(0, NONE))) is not None}
        for b in back_bodies(lp):
            if which == 'F02' and kept and any(e.kind == 'yield' for e in b.events):
                c.ob('no gap', any(e.kind == 'mutate' and e.a.get('self') in kept for e in b.events), b,
                     'an event between the ones added to the window may be left out of it')
    for lp in sub.scans:
        for b in lp.bodies:
            for e in b.events:
                if e.kind != 'call' or not glob_is(e.a.get('self', NONE), 'firehose.rollback'):
                    continue
                if fn_is(e.fn, 'copy', 'index', 'count'):
                    continue
                if not fn_is(e.fn, 'extendleft', 'appendleft'):
                    c.ob('window changed only by adding older events', False, e, 'subscribe changes the window otherwise')
                    continue
                c.ob('under the lock', holds_lock(e, 'firehose.lock'), e, 'the window is changed without the lock')
                t = e.a.get(0, NONE)
                if fn_is(e.fn, 'appendleft'):
                    c.unsure('older events are merged one by one')
                    continue
                if not match(C('builtins.reversed', ANY), t) and not (t[0] == 'slice' or has(t, C('builtins.reversed'))):
                    c.ob('in order', t[0] not in ('obj', 'lv', 'item', 'slice'), e, 'extendleft puts them in backward')
                    c.unsure("how older events are merged isn't recognised")
                    continue
                src = t
                while src[0] == 'call' and src[1] in ('builtins.reversed', 'builtins.list', 'builtins.tuple'):
                    src = src[2][0][1]
                lo = None
                if src[0] in ('slice', 'item'):
                    lo, src = src, src[1]
                s = r.shape(b, src)
                o = one_loop(s)
                if o is None and s[0] == 'list' and s[1] and all(g == ('prior', lp.lid) for g in s[1]):
                    c.ob('older than the window', False, e, 'events that the window already has are added to it again')
                    continue
                if o is None:
                    c.unsure("which older events are merged isn't recognised")
                    continue
                filt = True
                for facts, segs in o[1]:
                    for g in segs:
                        if g[0] != 'one':
                            filt = False
                            continue
                        el = frame_seq(g[1])
                        st = with_facts(r, b, facts)
                        firsts = [x for k, _ in facts for x in subterms(k) if win_first(x)]
                        filt = filt and any(r.cmp(st, '<', el, x) is True for x in firsts)
                c.ob('older than the window', filt, e, 'events that the window already has are added to it again')
                if lo is not None:
                    c.ob('next to the window', _tail(lo), e, "the events just before the window aren't the ones added")


def _tail(t):
    """Is t x[-n:]?"""
    sl = t[2] if len(t) > 2 else None
    parts = t[2:] if t[0] == 'slice' else (sl[1:] if sl and sl[0] == 'slice' else None)
    if parts is None:
        return True
    lo, hi = parts[0], parts[1] if len(parts) > 1 else NONE
    if hi != NONE:
        return False
    return lo != NONE


def _window_held(sub, c, b, events, copy):
    """Was this window copy taken in the hold of the lock where the window was found to start early enough?"""
    r = sub.r
    e = epoch_of(copy)
    if e is None:
        return False
    hold = [h for h in lock_holds(events) if h[0] <= e < h[1]]
    if not hold:
        return False
    lo, hi = hold[-1]
    # an empty window
    for k, v in b.facts.d.items():
        if k[0] == 'truth' and v is False and glob_is(k[1], 'firehose.rollback') and lo <= k[1][2] < hi:
            return True
    firsts = {x for k in b.facts.d for x in subterms(k) if win_first(x) and x[1][1][1][0] == 'gv'
              and lo <= x[1][1][1][2] < hi}
    for w in firsts:
        for k in b.facts.d:
            for x in subterms(k):
                if x[0] in ('lv', 'param') or (x[0] == 'item' and x[2] == K('seq') and not win_first(x)):
                    if r.cmp(b, '>=', x, w) is True:
                        return True
    return False


def _no_progress(sub, c, b, facts_at):
    """Do the facts say that the last scan found nothing: its start is the current threshold?"""
    r = sub.r
    for lp in sub.scans:
        st = kwarg(read_call(lp.iter), 'start')
        for k in facts_at.facts.d:
            for x in subterms(k):
                if x[0] in ('lv', 'item', 'sum') and x != st and r.cmp(facts_at, '==', x, st) is True:
                    return True
    return False


def binders(sub, t):
    """(body or path, its effects) where a variable is given the value t."""
    out = []
    for lp, p in sub.loops.values():
        for b in lp.bodies:
            if any(isinstance(fr, dict) and t in fr.values() for fr in b.st.frames.values()):
                out.append((b, b.events))
    return out


@rules('F02')
def subscriber_complete(c):
    c.rule('F02.storage', "every stored event from the cursor on is sent until the window is reached, except one that isn't greater than the last one sent")
    sub = Sub(c)
    r = sub.r
    cur = param('cursor')
    c.anchor(sub.scans, 'subscribe reads stored events')
    for lp in sub.scans:
        call_ = read_call(lp.iter)
        start = kwarg(call_, 'start')
        _, rest = scan_next(sub, c, start, 0)
        c.ob('reads from the cursor on', rest == {cur}, lp, "doesn't start at the cursor")
        c.ob('reads every repo', kwarg(call_, 'repo') in (None, NONE), lp, "reads one repo's events")
        for b, d in carries(c, lp):
            if sub.nexts(b):
                continue
            ev = r.it.elem(b.st, call_, lp.lid)
            ss = {x for k in b.facts.d for x in subterms(k) if x[0] == 'item' and x[2] == K('seq') and has(x, ev)}
            ss |= set(seq_terms(ev))
            good = any(isinstance(x, tuple) and r.cmp(b, '<=', s, x) is True for s in ss for x in d)
            c.ob('skips only repeats', good, lp, 'an event from storage is read and not sent')
        for b in lp.bodies:
            if b.exit == 'break':
                ev = r.it.elem(b.st, call_, lp.lid)
                ss = {x for k in b.facts.d for x in subterms(k) if x[0] == 'item' and x[2] == K('seq') and has(x, ev)}
                firsts = {x for k in b.facts.d for x in subterms(k) if win_first(x)}
                ok = any(r.cmp(b, '>=', s, w) is True for s in ss for w in firsts)
                c.ob('stops only at the window', ok, lp, 'stops reading before it reaches the window')
            elif b.exit == 'return':
                c.ob('stops only at the window', False, lp, 'stops before it reaches the window')
    c.rule('F02.switch', "the window that a subscriber is served is copied in the hold of the lock where it starts at or before what the subscriber needs next, or after a read that found nothing more")
    for p in r.paths:
        serves = [e.x for e in p.events if e.kind in ('loop', 'loopiter') and any(e.x is lp for lp, _ in sub.serves)]
        if not serves:
            if not _registers(p):
                continue
            if _no_cursor(sub, p):
                continue
            c.ob('window is served', False, _registers(p)[0], 'a subscriber with a cursor starts streaming without the window')
            continue
        for lp in serves:
            src = inner(lp.iter)
            src = lp.iter if lp.iter[0] in ('lv',) else lp.iter
            org, lvs = sub.origins(src)
            for o in org - {NONE}:
                if glob_is(o, 'firehose.rollback'):
                    c.ob('a copy of the window', False, lp, 'the live window changes while it is served')
                    continue
                if not window_copy(o):
                    c.unsure("what a subscriber is served isn't recognised as the window")
                    continue
                bs = binders(sub, o)
                held = [x for x in bs if lock_holds(x[1]) and _window_held(sub, c, x[0], x[1], o)]
                if held or _window_held(sub, c, p, p.events, o):
                    c.ob('copied in time', True, lp)
                    continue
                # the fallback, when storage has nothing between
                c.ob('copied in time', _no_progress(sub, c, None, p) or _empty_before(p, o), lp,
                     'the window may move past what the subscriber needs next before it is copied', p)
    c.rule('F02.window', 'every event of the window from the cursor on is sent')
    for lp, p in sub.serves:
        for b in lp.bodies:
            if b.exit in ('break', 'return'):
                c.ob('the whole window', False, lp, "stops before the window's end")
            if b.exit != 'back':
                continue
            el = r.it.elem(b.st, lp.iter, lp.lid)
            fs = [frame(e.a['value']) for e in b.events if e.kind == 'yield']
            f = fs[0] if fs else None
            if f is None:
                below = []
                for k in b.facts.d:
                    for x in subterms(k):
                        if x[0] in ('lv', 'param'):
                            for s in [y for y in subterms(k) if y[0] == 'item' and y[2] == K('seq')]:
                                if r.cmp(b, '<', s, x) is True:
                                    below.append((x, 0))
                                elif r.cmp(b, '<=', s, x) is True:
                                    below.append((x, 1))
                good = False
                for t, k in below:
                    _, rest = scan_next(sub, c, t, k)
                    good = good or rest <= {cur if k == 0 else mk_bin('-', cur, K(1)), NONE}
                c.ob('leaves out only older ones', good, lp, "an event of the window that comes after the cursor isn't sent")
    c.rule('F02.catchup', 'in one hold of the lock, a subscriber gets whatever the window has beyond what it was served, and joins the live stream')
    n = 0
    for p in r.paths:
        regs = _registers(p)
        for e in regs[:1]:
            n += 1
            c.ob('joins under the lock', holds_lock(e, 'firehose.lock'), e, 'joins the live stream without the lock', p)
            q = e.a.get(0)
            gets = {f[2][0][1] for lp in sub.lives for b in lp.bodies for f in sub.nexts(b)}
            c.ob('reads what it joined with', q in gets, e, "the queue it registers isn't the one it reads", p)
            if _no_cursor(sub, p):
                continue
            hold = _hold_of(p.events, e)
            cu = [x for x in hold if x.kind == 'loop' and any(x.x is lp for lp, _ in sub.catchups)]
            c.ob('catches up in the same hold', bool(cu), e, 'events that were published meanwhile are lost', p)
            for x in cu:
                c.ob('from the live window', glob_is(x.x.iter, 'firehose.rollback') or _copy_of_live(x.x.iter), x,
                     "doesn't catch up with the live window", p)
                for b, d in carries(c, x.x):
                    puts = [y for y in b.events if y.kind == 'call' and fn_is(y.fn, 'put', 'put_nowait')]
                    if puts:
                        c.ob('into its own queue', all(y.a['self'] == q for y in puts), puts[0], "catches up in another queue", p)
                        continue
                    good = False
                    for k in b.facts.d:
                        for s in [y for y in subterms(k) if y[0] == 'item' and y[2] == K('seq') and y[1][0] == 'item'
                                  and y[1][1][0] == 'elemof']:
                            for v in inits(x.x):
                                if r.cmp(b, '<=', s, v) is True:
                                    good = True
                            for v in _fixed_bounds(r, x.x, b, s, '<='):
                                good = good or _after_window(sub, c, v, p)
                            good = good or any(r.cmp(b, '<=', s, y) is True for y in subterms(k) if win_last(y))
                    c.ob('leaves out only what it was served', good, x, "an event of the window isn't sent", p)
                if any(b.exit in ('break', 'return') for b in x.x.bodies):
                    c.ob('to the end', False, x, "doesn't catch up to the window's end", p)
                for v, init in inits(x.x).items():
                    if init is not None and has(init, Fn(lambda t: win_last(t))) or _after_ok(init) or _from_cursor(init):
                        c.ob('from what it was served', _after_window(sub, c, init, p), x,
                             "doesn't start after the last event that was sent", p)
    c.anchor(n, 'subscribe joins the live stream')
    c.rule('F02.moved', "a subscriber whose window has moved past it while it was served doesn't silently skip ahead")
    for p in r.paths:
        for e in _registers(p)[:1]:
            if _no_cursor(sub, p):
                continue
            hold = _hold_of(p.events, e)
            cu = [x for x in hold if x.kind == 'loop' and any(x.x is lp for lp, _ in sub.catchups)]
            for x in cu:
                for v, init in inits(x.x).items():
                    if not (isinstance(init, tuple) and win_last(init)):
                        continue
                    firsts = {y for k in p.facts.d for y in subterms(k) if win_first(y)}
                    ok = all(any(r.cmp(st, '>=', init, w) is True for w in firsts)
                             or r.truth(st, init[1][1][1]) is False for st in r.cases(p))
                    c.ob('checked before joining', ok, e, 'the window may have moved past what it was served', p)
    c.rule('F02.live', 'everything put in its queue is sent')
    c.anchor(sub.lives, 'subscribe serves live events')
    for lp in sub.lives:
        for b in lp.bodies:
            if b.exit == 'back':
                gets = [e for e in b.events if e.kind == 'call' and fn_is(e.fn, 'get', 'get_nowait')]
                c.ob('every one', len(gets) == len(sub.nexts(b)) == 1, lp, 'a live event is read and not sent')
                for e in gets:
                    c.ob('waits', waits(e) or any(x.kind == 'catch' for y in lp.bodies for x in y.events), e,
                         'the subscription fails when there are no events for a while')
            elif b.exit in ('break', 'return'):
                c.ob('for as long as it lives', False, lp, 'stops streaming')
    empty_window(c)
    c.rule('F02.merge', 'the window gets no gap when older events are added to it')
    _merge(c, sub, 'F02')
    preload(c)


def empty_window(c):
    c.rule('F02.empty', "a subscription doesn't fail when the window is empty")
    r = c.run(f'{FH}.subscribe')
    if any(e.kind == 'catch' and any(x in e.fn for x in ('IndexError', 'LookupError')) for p in r.paths for e in flat(p.events)):
        return
    ats = list(r.paths) + [b for p in r.paths for lp, _ in any_loops(p.events) for b in lp.bodies]
    wins = {x for b in ats for k in b.facts.d for x in subterms(k) if x[0] == 'gv' and glob_is(x, 'firehose.rollback')}
    first = min(wins, key=lambda x: x[2], default=None)
    for b in ats:
        for k in b.facts.d:
            # where it's compared to the cursor
            if k[0] != 'lin' or not any(t == param('cursor') or t[0] == 'lv' and t[2] == 'cursor' for t in dict(k[1])):
                continue
            for x in subterms(k):
                if x[0] == 'item' and x[1] == first and is_const(x[2]):
                    n = ('call', 'builtins.len', ((0, first),), None)
                    ok = r.truth(b, first) is True or r.cmp(b, '>', n, K(0)) is True or r.truth(b, n) is True
                    other = any(n in set(subterms(f)) for f in b.facts.d)
                    if not ok and other:
                        c.unsure("whether the window is empty is checked in an unrecognised way")
                    else:
                        c.ob('not empty', ok, (b.events[0] if b.events else b) if not hasattr(b, 'where') else b, 'fails if the window is empty')


def _no_cursor(sub, p):
    """Do the facts say that the subscriber has no cursor?"""
    cur = param('cursor')
    return any(k[0] == 'isnone' and v and (k[1] == cur or k[1][0] == 'lv' and cur in sub.origins(k[1])[0])
               for k, v in p.facts.d.items())


def _after_ok(init):
    return isinstance(init, tuple) and init[0] == 'sum'


def _registers(p):
    return [e for e in p.events if e.kind in ('call', 'mutate') and fn_is(e.fn, 'append', 'add')
            and glob_is(e.a.get('self', NONE), 'firehose.subscribers')]


def _hold_of(events, e):
    """Effects in the same hold of the lock as e."""
    i = next(i for i, x in enumerate(events) if x is e)
    lo = i
    while lo >= 0 and not (events[lo].kind == 'enter' and glob_is(events[lo].a.get('ctx', NONE), 'firehose.lock')):
        if events[lo].kind == 'exit' and glob_is(events[lo].a.get('ctx', NONE), 'firehose.lock'):
            return []
        lo -= 1
    hi = i
    while hi < len(events) and not (events[hi].kind == 'exit' and glob_is(events[hi].a.get('ctx', NONE), 'firehose.lock')):
        hi += 1
    return events[max(lo, 0):hi]


def _copy_of_live(t):
    return window_copy(t)


def _empty_before(p, copy):
    """Had the window been empty before this copy of it?"""
    for k, v in p.facts.d.items():
        if k[0] == 'truth' and v is False and (window_copy(k[1]) or glob_is(k[1], 'firehose.rollback')):
            return True
    return False


def preload(c):
    c.rule('F02.preload', 'the collector starts with a window of the latest events, in order, and goes on from its last one')
    r = c.run(f'{COL}.run', COL)
    for p in r.paths:
        sets = [(i, e) for i, e in enumerate(p.events) if e.kind == 'setglob' and fn_is(e.fn, 'firehose.rollback')]
        if not sets:
            continue
        i, e = sets[-1]
        v = e.a['value']
        if not (v[0] == 'call' and fn_is(v[1], 'deque')):
            c.unsure("how the window is made isn't recognised")
            continue
        src = dict(v[2]).get(0, NONE)
        o = one_loop(r.S(p, src))
        if o is None:
            c.unsure("what the window is made of isn't recognised")
            continue
        c.ob('bounded', kwarg(v, 'maxlen') == G(f'{FH}.ROLLBACK_WINDOW') or dict(v[2]).get(1) == G(f'{FH}.ROLLBACK_WINDOW'),
             e, "the window isn't bounded by ROLLBACK_WINDOW", p)
        for facts, segs in o[1]:
            c.ob('every event', len(segs) == 1 and segs[0][0] == 'one' and processed(segs[0][1]) is not None, e,
                 'an event is left out of the window', p)
        t = o[0]
        while True:
            while t[0] == 'call' and t[1] in ('builtins.zip', 'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.enumerate') and t[2]:
                t = t[2][0][1]
            o2 = one_loop(r.S(p, t))
            if o2 is None or o2[0] == t:
                break
            for facts, segs in o2[1]:
                c.ob('every event', len(segs) == 1 and segs[0][0] == 'one', e, 'an event is left out of the window', p)
            t = o2[0]
        rd = [x for x in subterms(r.S(p, src)) if x[0] == 'call' and fn_is(x[1], READ)]
        c.ob('from storage', bool(rd), e, "the window isn't loaded from storage", p)
        last = [x for x in p.events[:i] if x.kind == 'call' and fn_is(x.fn, 'Sequences.last')]
        for x in rd[:1]:
            st = kwarg(x, 'start')
            t = last[0].term if last and hasattr(last[0], 'term') else None
            terms = [y for y in subterms(st) if y[0] == 'call' and fn_is(y[1], 'Sequences.last')]
            ok = bool(terms) and all(
                diff_is(y, plus(mk_bin('-', terms[0], G(f'{FH}.PRELOAD_WINDOW')), K(1)), 0) or is_const(y)
                for y in _max_args(st))
            c.ob('the latest ones', ok, e, "the preloaded window isn't the latest PRELOAD_WINDOW numbers", p)
        after = [x for x in p.events[i:] if x.kind == 'setattr' and x.fn == 'last_seq']
        full = r.truth(p, G('x')) if False else None
        tr = [v2 for k, v2 in p.facts.d.items() if k[0] == 'truth' and glob_is(k[1], 'firehose.rollback')]
        if tr and tr[-1] is False:
            continue
        for x in (x for x in p.events if x.kind == 'call' and fn_is(x.fn, 'read_many')):
            o = one_loop(r.S(p, x.a.get('cids', x.a.get(0, NONE))))
            for facts, segs in o[1] if o else ():
                f = dict(facts)
                for t in (g[1] for g in segs if g[0] == 'one'):
                    null = t == NONE or t[0] == 'get' and t[3] == NONE and f.get(('truth', t)) is not True and f.get(('isnone', t)) is not False
                    c.ob('first commits', not null, x, "fails on a commit that has no previous one", p)
        c.ob("goes on from the window's end", bool(after) and win_last(after[-1].a['value']), e,
             'events between the window and the first live one are lost', p)


def _max_args(t):
    if t[0] == 'call' and t[1] == 'builtins.max':
        out = []
        for _, v in t[2]:
            out += _max_args(v)
        return out
    return [t]


# ------------------------------------------------------------------ robustness
@rules('F04')
def survives(c):
    c.rule('F04.errors', "an error while collecting never ends the collector; it goes on after the last event it published")
    r = c.run(f'{COL}.run', COL)
    n = 0
    for p in r.paths:
        for lp, _ in any_loops(p.events):
            cols = [e for b in lp.bodies for e in b.events if e.kind in ('call', 'raise') and (
                fn_is(e.fn, '_collect') or e.kind == 'raise')]
            if not any(fn_is(e.fn, '_collect') for e in cols):
                continue
            n += 1
            for b in lp.bodies:
                if b.exit == 'raise':
                    cls = b.st.exc_cls if hasattr(b.st, 'exc_cls') else None
                    c.ob('every error is handled', _not_error(r, b), lp, 'an error ends the collector', None)
                elif b.exit == 'break':
                    c.ob('goes on', not any(e.kind == 'catch' for e in b.events), lp, 'an error ends the collector')
                elif b.exit == 'return':
                    c.ob('goes on', not any(e.kind == 'catch' for e in b.events), lp, 'an error ends the collector')
                sets = [e for e in b.events if e.kind == 'setattr' and e.fn == 'last_seq']
                c.ob('goes on after the last one', not sets, lp, 'the last published number changes after an error')
    if not n:
        for p in r.paths:
            if any(e.kind == 'call' and fn_is(e.fn, '_collect') for e in flat(p.events)):
                c.ob('every error is handled', False, p, 'nothing restarts the collector after an error')
                n += 1
    c.anchor(n, 'the collector collects in a loop')
    r = c.run(f'{COL}._collect', COL)
    for p in r.returns:
        c.ob('collects forever', r.isnone(p, A(SELF, 'limit')) is False, p, 'the collector may end without a limit')
    c.rule('F04.leave', 'a subscriber that stops, for any reason, is no longer published to')
    sub = Sub(c)
    r = sub.r
    n = 0
    for p in r.paths:
        for e in _registers(p)[:1]:
            n += 1
            q = e.a[0]
            i = next(i for i, x in enumerate(p.events) if x is e)
            rem = [x for x in p.events[i:] if x.kind in ('call', 'mutate') and fn_is(x.fn, 'remove', 'discard')
                   and glob_is(x.a.get('self', NONE), 'firehose.subscribers') and x.a.get(0) == q]
            if not rem and any(x.kind in ('catch', 'raise') and getattr(x.x, 'ev', None) is not None and fn_is(x.x.ev.fn or '', 'remove')
                               and glob_is(x.x.ev.a.get('self', NONE), 'firehose.subscribers') for x in p.events[i:]):
                continue
            gone = any(k[0] == 'in' and k[1] == q and glob_is(k[2], 'firehose.subscribers') and v is False
                       for k, v in p.facts.d.items())
            c.ob('removed', bool(rem) or gone, e, "stays subscribed after it's gone", p)
            for x in rem:
                c.ob('removed under the lock', holds_lock(x, 'firehose.lock'), x, 'changes subscribers without the lock', p)
    c.anchor(n, 'subscribe registers')
    c.rule('F04.block', 'publishing to a subscriber never waits for it')
    for p in r.paths:
        for e in _registers(p)[:1]:
            q = e.a[0]
            unb = q[0] == 'call' and (fn_is(q[1], 'SimpleQueue', 'deque') and not q[2] or
                                      fn_is(q[1], 'Queue', 'LifoQueue') and all(v in (K(0),) for _, v in q[2]))
            if q[0] != 'call':
                c.unsure("what subscribers get events through isn't recognised")
                continue
            c.ob('unbounded queue', unb, e, 'a slow subscriber blocks the collector, or loses events', p)
    r2 = c.run(f'{COL}._collect', COL)
    for p in r2.paths:
        for lp, _ in any_loops(p.events):
            for b in lp.bodies:
                for e in b.events:
                    if e.kind == 'call' and fn_is(e.fn, 'sleep', 'wait', 'join', 'acquire', 'get') and holds_lock(e, 'firehose.lock'):
                        c.ob('no waiting under the lock', False, e, 'the collector waits while it holds the lock')
    for lp in sub.lives:
        for b in lp.bodies:
            for e in b.events:
                if e.kind in ('yield', 'call') and holds_lock(e, 'firehose.lock'):
                    c.ob('no waiting under the lock', False, e, 'a subscriber waits while it holds the lock')
    for lp in sub.scans + [x for x, _ in sub.serves]:
        for b in lp.bodies:
            for e in b.events:
                if e.kind == 'yield':
                    c.ob('no waiting under the lock', not holds_lock(e, 'firehose.lock'), e,
                         'a subscriber holds the lock while it sends an event')
    c.rule('F04.once', 'starting twice runs one collector')
    r = c.run(f'{FH}.start')
    coll = f'{FH}.collector'
    for p in r.returns:
        starts = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'Collector.start', '?.start')]
        news = [e for e in p.events if e.kind == 'new' and fn_is(e.fn, 'Collector')]
        had = [v for k, v in p.facts.d.items() if k[0] == 'truth' and glob_is(k[1], coll)] + [
            not v for k, v in p.facts.d.items() if k[0] == 'isnone' and glob_is(k[1], coll)]
        if True in had:
            c.ob('second start', not starts and not news, starts[0] if starts else p, 'starts a second collector', p)
            continue
        sets = [e for e in p.events if e.kind == 'setglob' and fn_is(e.fn, coll)]
        c.ob('first start', False in had and len(starts) == 1 and len(sets) == 1, p, "doesn't check for, or record, the collector", p)
        for e in sets:
            c.ob('checked and recorded under the lock', holds_lock(e, 'firehose.lock') and _checked_in_hold(p, e, coll), e,
                 'two threads may both start a collector', p)
        waits = [i for i, e in enumerate(p.events) if e.kind == 'call' and fn_is(e.fn, 'wait') and glob_is(e.a['self'], 'firehose.started')]
        c.ob('start waits', bool(waits), p, "returns before the collector's window is loaded", p)
        for e in p.events:
            if e.kind == 'call' and fn_is(e.fn, 'wait') and glob_is(e.a['self'], 'firehose.started'):
                c.ob('start waits without the lock', not holds_lock(e, 'firehose.lock'), e,
                     'the collector needs the lock to load its window', p)
    c.rule('F04.loaded', "subscribers don't start until the collector's window is loaded")
    r = c.run(f'{FH}.subscribe')
    for p in r.paths:
        w = [i for i, e in enumerate(p.events) if e.kind == 'call' and fn_is(e.fn, 'wait') and glob_is(e.a.get('self', NONE), 'firehose.started')]
        use = [i for i, e in enumerate(p.events) if e.kind in ('loop', 'loopiter', 'yield') or (
            e.kind == 'enter' and glob_is(e.a.get('ctx', NONE), 'firehose.lock'))]
        if use:
            c.ob('subscribe waits', bool(w) and w[0] < use[0], p.events[use[0]], 'a subscriber starts before the window is loaded', p)
    r = c.run(f'{FH}.start')
    for p in r.paths:
        for e in p.events:
            if e.kind == 'call' and fn_is(e.fn, 'set') and glob_is(e.a.get('self', NONE), 'firehose.started'):
                c.ob('announced when loaded', False, e, 'announced before the window is loaded', p)
    r = c.run(f'{COL}.run', COL)
    for p in r.paths:
        for i, e in enumerate(p.events):
            if e.kind == 'call' and fn_is(e.fn, 'set') and glob_is(e.a.get('self', NONE), 'firehose.started'):
                c.ob('announced when loaded', any(x.kind == 'setglob' and fn_is(x.fn, 'firehose.rollback') for x in p.events[:i]), e,
                     'announced before the window is loaded', p)
        if p.kind == 'return':
            c.ob('announced', any(e.kind == 'call' and fn_is(e.fn, 'set') and glob_is(e.a.get('self', NONE), 'firehose.started')
                                  for e in p.events), p, 'subscribers wait forever', p)
    c.rule('F04.callback', 'a new event wakes the collector')
    r = c.run(f'{FH}.send_events')
    for p in r.returns:
        ns = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'notify_all', 'notify') and glob_is(e.a['self'], 'firehose.new_events')]
        c.ob('send_events', bool(ns) and all(any(glob_is(w, 'firehose.new_events') for w in withs(e)) for e in ns), p,
             "doesn't notify the collector", p)


@rules('F04')
def out_of_order(c):
    c.rule('F04.report', 'reporting an event that comes out of order works for commits and other events alike')
    name = f'{FH}.non_monotonic'
    if not c.prog.lookup(name):
        return
    ev = param('event')
    r = c.run(name, log=True)
    c.some('non_monotonic', r.paths, 'never returns')
    for p in r.paths:
        used = {t for e in flat(p.events) for v in e.a.values() for t in subterms(v)
                if t[0] == 'attr' and t[1] == ev or t[0] == 'item' and t[1] == ev}
        for t in used:
            d = r.decide(p, ('isinst', ev, 'builtins.dict'))
            other = any(k[0] in ('isinst', 'hasattr', 'truth', 'in') and ev in set(subterms(k)) for k in p.facts.d)
            want = t[0] == 'item'
            if d is None and other:
                c.unsure('which kind of event is reported')
                continue
            c.ob('event', d is want, p, f'reads {show(t)} of an event that may {"not " if want else ""}be a dict', p)


def _not_error(r, b):
    """Is the exception that leaves this iteration not an Exception (eg GeneratorExit)?"""
    for e in reversed(b.events):
        if e.kind == 'raise':
            t = e.a.get('exc')
            cls = e.fn
            return bool(cls) and cls != '?implicit' and r.it.exc_is(cls, 'builtins.Exception') is False
    return False


def _checked_in_hold(p, e, name):
    """Was the global read, for a fact, in the hold of the lock where e is?"""
    eps = [k[1][2] for k in p.facts.d if k[0] in ('truth', 'isnone') and k[1][0] == 'gv' and fn_is(k[1][1], name)]
    i = next(i for i, x in enumerate(p.events) if x is e)
    enter = [x for x in p.events[:i] if x.kind == 'enter' and glob_is(x.a.get('ctx', NONE), 'firehose.lock')]
    return bool(enter) and any(ep >= enter[-1].epoch for ep in eps)


# ------------------------------------------------------------------ frames
EV = param('event')
CM = A(EV, 'commit')
DEC = A(CM, 'decoded')


@rules('F05')
def frames(c):
    c.rule('F05.other', "an event that isn't a commit goes out unchanged, under its own type")
    r = c.run(PE)
    n = 0
    for p in r.returns:
        if r.decide(p, ('isinst', EV, 'builtins.dict')) is not True:
            continue
        n += 1
        v = p.value
        if v[0] != 'tuple' or len(v[1]) != 2:
            c.unsure("process_event's result isn't recognised")
            continue
        h, pl = r.S(p, v[1][0]), v[1][1]
        ty = OneOf(I(EV, '$type'), C('?.pop', K('$type')), ('get', EV, K('$type')))
        frag = OneOf(C('?.removeprefix', K(NSID), self=ty), ('item', C('?.split', K(NSID), self=ty), ANY),
                     ('item', ty, ('slice', OneOf(K(len(NSID)), C('builtins.len', K(NSID))), NONE, NONE)))
        c.ob('header', set(dkeys(h) or ()) == {'op', 't'} and dget(h, 'op') == K(1) and _contains(frag, dget(h, 't')), p,
             "its header isn't its own type", p)
        src = pl
        if src[0] == 'obj':
            s = r.shape(p, src)
            segs = s[1]
            ok = bool(segs) and segs[0][0] == 'spread' and segs[0][1] == EV and all(
                x[0] == 'del' and x[1] == K('$type') for x in segs[1:])
            o = one_loop(s)
            if o and o[0] == ('call', '?.items', (('self', EV),), None):
                ok = all(_copies_field(facts, x, o[0], s[1][0][1]) for facts, x in o[1])
            elif o and not ok:
                c.unsure("how an event's payload is made isn't recognised")
                continue
            c.ob('payload', ok, p, "its fields change", p)
        else:
            c.ob('payload', match(OneOf(C('copy.copy', EV), C('copy.deepcopy', EV), C('?.copy', self=EV)), src), p,
                 'its fields change, or the stored event itself is changed', p)
            muts = [e for e in p.events if e.kind in ('call', 'mutate', 'setitem', 'delitem') and e.a.get('self') in (src, EV)
                    and fn_is(e.fn or '', 'pop', 'update', 'clear', 'setdefault', 'popitem', 'setitem', 'delitem')]
            for e in muts:
                c.ob('payload fields', e.a.get('self') == src and (e.a.get(0) == K('$type') or e.a.get('key') == K('$type')),
                     e, 'its fields change', p)
            c.ob('no $type', any(True for e in muts), p, "the type is sent in the payload too", p)
    c.anchor(n, 'process_event handles events that are not commits')
    c.rule('F05.commit', "a commit's frame has exactly its DID, CID, sequence number, revision, time and previous root")
    want = {
        'repo': I(DEC, 'did'),
        'commit': A(CM, 'cid'),
        'seq': A(CM, 'seq'),
        'rev': OneOf(C('int_to_tid', num=A(CM, 'seq'), clock_id=K(0)), I(DEC, 'rev')),
        'time': Fn(lambda t: match(C('?.isoformat'), t) and has(t, A(CM, 'time')) and not match(
            C('?.isoformat', self=OneOf(A(CM, 'time'), C('?.astimezone', self=A(CM, 'time')))), t)),
        'rebase': FALSE, 'tooBig': FALSE,
    }
    req = ('seq', 'rebase', 'tooBig', 'repo', 'commit', 'rev', 'since', 'blocks', 'ops', 'blobs', 'time')
    n = 0
    for p in r.returns:
        if r.decide(p, ('isinst', EV, 'builtins.dict')) is True:
            continue
        n += 1
        v = p.value
        h, pl = r.S(p, v[1][0]), r.S(p, v[1][1])
        if pl[0] != 'dict' or dkeys(pl) is None:
            c.unsure("a commit frame's payload isn't recognised")
            continue
        c.ob('header', dget(h, 'op') == K(1) and dget(h, 't') == K('#commit') and len(h[1]) == 2, p, 'wrong frame type', p)
        for f in req:
            c.ob(f'{f} is there', dget(pl, f) is not None, p, 'the lexicon requires it', p)
        for f, pat in want.items():
            t = dget(pl, f)
            if t is None:
                continue
            c.ob(f, t is not ... and match(pat, t), p, "isn't the commit's", p)
        _prev_data(c, r, p, pl)
        t = dget(pl, 'since')
        if t is not None and t is not ... and t != NONE:
            mine = A(CM, 'seq'), I(DEC, 'rev'), A(CM, 'cid')
            own = any(has(t, m) for m in mine) and not any(x[0] == 'call' and fn_is(x[1], 'Storage.read') or x == param('prev_commit') for x in subterms(t))
            if own:
                c.ob('since', False, p, "isn't the previous commit's revision", p)
            elif not any(t == f(b) for b in [param('prev_commit')] + [x for x in subterms(t) if x[0] == 'call' and fn_is(x[1], 'Storage.read')]
                         for f in (lambda b: I(A(b, 'decoded'), 'rev'), lambda b: ('get', A(b, 'decoded'), K('rev'), NONE))):
                c.unsure("what a commit frame's since is isn't recognised")
        _ops(c, r, p, pl)
        _blocks(c, r, p, pl)
    c.anchor(n, 'process_event handles commits')


@rules('F05')
def block_time(c):
    c.rule('F05.time', "a commit's time is when its block was made")
    r = c.run('arroba.storage.Block.__init__', 'arroba.storage.Block')
    f = c.prog.lookup('arroba.storage.Block.__init__')
    d = defaults(f).get('time')
    c.ob('default', d is None or isinstance(d, ast.Constant), at_node(f, f.node), 'is the same for every block')
    n = 0
    for p in r.returns:
        v = p.st.attrs.get((SELF, 'time'))
        if v is None or v == param('time') or r.truth(p, param('time')) is True:
            continue
        n += 1
        ok = v[0] == 'call' and any(e.kind == 'call' and e.res == v for e in flat(p.events))
        c.ob('made', ok, p, "isn't the time at which it's made", p)
    c.some('Block.time', [1] * n, "isn't set when it isn't given")


def _copies_field(facts, segs, it, lid):
    """Does this iteration over an event's items copy the field, or skip just $type?"""
    k = ('keyof', EV, lid)
    is_type = fact(facts, ('eqc', k, K('$type')))
    return segs == (('kv', k, ('valof', EV, lid)),) if is_type is False else not segs and is_type is True


def _contains(pat, t):
    return isinstance(t, tuple) and (match(pat, t) or has(t, pat))


def _prev_data(c, r, p, pl):
    prev = I(DEC, 'prev')
    prevs = (prev, ('get', DEC, K('prev'), NONE), ('get', DEC, K('prev')))
    has_prev = [r.truth(p, x) for x in prevs]
    t = dget(pl, 'prevData')
    given = r.truth(p, param('prev_commit'))
    reads = [x for x in {y for k in p.facts.d for y in subterms(k)} if x[0] == 'call' and fn_is(x[1], 'Storage.read')
             and kwarg(x, 'cid') in prevs]
    blocks = [param('prev_commit')] + reads
    datas = [d for b in blocks for d in (I(A(b, 'decoded'), 'data'), ('get', A(b, 'decoded'), K('data'), NONE),
                                          ('get', A(b, 'decoded'), K('data')))]
    if False in has_prev:
        c.ob('prevData of a first commit', t is None or t == NONE, p, 'it has no previous commit', p)
    elif t is None or t == NONE:
        # allowed only if the previous commit or its data isn't there
        gone = any(r.truth(p, x) is False or r.isnone(p, x) is True for x in reads) or any(
            r.isnone(p, d) is True or r.truth(p, d) is False for d in datas)
        c.ob('prevData', gone, p, "is left out although there's a previous commit", p)
    else:
        ok = t in datas
        c.ob('prevData', ok, p, "isn't the previous commit's tree root", p)


def _ops(c, r, p, pl):
    t = dget(pl, 'ops')
    if t is None:
        return
    if t[0] != 'list':
        c.unsure("a commit frame's ops aren't recognised")
        return
    ops = A(CM, 'ops')
    if not t[1]:
        c.ob('ops of a commit without any', r.truth(p, ops) is False, p, "a commit's operations are left out", p)
        return
    o = one_loop(t)
    if o is None or not has(o[0], ops):
        c.unsure("a commit frame's ops aren't recognised")
        return
    lid = t[1][0][1]
    lp = next((x for q in r.paths for x, _ in any_loops(q.events) if x.lid == lid), None)
    if has(o[0], C('builtins.reversed')) or has(o[0], C('builtins.sorted')):
        c.ob('ops in order', False, p, "aren't in the commit's order", p)
    op = r.it.elem(p.st, ops, lid)
    for facts, segs in o[1]:
        if len(segs) != 1 or segs[0][0] != 'one':
            c.ob('every op once', False, p, 'an operation is left out or repeated', p)
            continue
        e = segs[0][1]
        d = e if e[0] == 'dict' else None
        bodies = [b for b in (lp.bodies if lp else []) if all(b.facts.d.get(k) == v for k, v in facts)]
        for b in bodies:
            d = r.S(b, e)
            if d[0] != 'dict':
                continue
            st = with_facts(r, b, facts)
            dele = r.cmp(st, '==', A(op, 'action'), ACTION('DELETE'))
            crea = r.cmp(st, '==', A(op, 'action'), ACTION('CREATE'))
            c.ob("op's action", match(C('?.lower', self=A(op, 'action', 'name')), dget(d, 'action') or NONE), lp,
                 "isn't the operation's", p)
            c.ob("op's path", dget(d, 'path') == A(op, 'path'), lp, "isn't the operation's", p)
            cid = dget(d, 'cid')
            if dele is True:
                c.ob("delete's cid", cid == NONE, lp, 'must be null', p)
            elif dele is False:
                c.ob("op's cid", cid == A(op, 'cid'), lp, "isn't the record's", p)
            else:
                c.ob("op's cid", False, lp, "doesn't tell deletes from other operations", p)
            prev = dget(d, 'prev')
            if crea is True:
                c.ob("create's prev", prev is None, lp, 'there is none', p)
            elif crea is False or dele is True:
                c.ob("op's prev", prev == A(op, 'prev_cid'), lp, "isn't the record's previous CID", p)
            else:
                c.ob("op's prev", False, lp, "doesn't tell creates from other operations", p)
            if set(dkeys(d)) - {'action', 'path', 'cid', 'prev'}:
                c.ob("op's fields", False, lp, 'has a field that the lexicon lacks', p)
    if lp:
        for b in lp.bodies:
            if b.exit in ('break', 'return'):
                c.ob('every op once', False, lp, 'operations are left out', p)


def _blocks(c, r, p, pl):
    t = dget(pl, 'blocks')
    if t is None:
        return
    m = t[0] == 'call' and fn_is(t[1], 'car.write_car')
    if not m:
        c.unsure("a commit frame's blocks aren't recognised as a CAR")
        return
    d = dict(t[2])
    roots, bl = d.get(0, d.get('roots')), d.get(1, d.get('blocks'))
    c.ob("CAR's root", roots == ('list', (('one', A(CM, 'cid')),)) or roots == ('tuple', (A(CM, 'cid'),)), p,
         "isn't the commit", p)
    o = one_loop(bl)
    BL = A(EV, 'blocks')
    full = None
    cov = [e for e in p.events if e.kind == 'call' and fn_is(e.fn, 'MST.add_covering_proofs')]
    srcs = [BL] + [e.term for e in cov if getattr(e, 'term', None)]
    if o is None or not (o[0][0] == 'call' and fn_is(o[0][1], 'values') and has(o[0], BL) or has(o[0], C('add_covering_proofs'))):
        c.unsure("a commit frame's blocks aren't recognised")
        return
    for facts, segs in o[1]:
        ok = len(segs) == 1 and segs[0][0] == 'one' and segs[0][1][0] == 'call' and fn_is(segs[0][1][1], 'car.Block')
        if ok:
            k = dict(segs[0][1][2])
            b = [x[1] for x in subterms(segs[0][1]) if x[0] == 'attr' and x[1][0] in ('valof', 'elemof')]
            cid, data = k.get('cid', k.get(0)), k.get('data', k.get(1))
            ok = bool(b) and cid == A(b[0], 'cid') and data == A(b[0], 'encoded')
        c.ob("CAR's blocks", ok, p, "a block is left out, or isn't what is stored", p)
    i = [j for j, e in enumerate(p.events) if e in cov]
    build = [j for j, e in enumerate(p.events) if e.kind == 'loop' and e.x.lid == bl[1][0][1]]
    c.ob('covering proofs', bool(i) and bool(build) and i[0] < build[0], p, "aren't in the frame's blocks", p)
    for e in cov:
        c.ob("covering proofs' blocks", e.a.get('blocks') == BL or has(o[0], C('add_covering_proofs')), e,
             "aren't in the frame's blocks", p)
        c.ob("covering proofs' commit", e.a.get('commit') == EV, e, "are another commit's", p)
        new = [x for x in p.events if x.kind == 'new' and fn_is(x.fn, 'MST')]
        c.ob("covering proofs' tree", any(x.a.get('pointer') in (I(DEC, 'data'),) for x in new), e,
             "are for another tree", p)


@rules('F06')
def cursors(c):
    c.rule('F06.cursor', 'future cursors get FutureCursor and nothing else; outdated ones OutdatedCursor and then the window; others are served from exactly there')
    r = c.run('arroba.xrpc_sync.subscribe_repos')
    cur = param('cursor')
    n = 0
    for p in r.returns:
        lasts = [x for x in {y for k in p.facts.d for y in subterms(k)} if x[0] == 'call' and fn_is(x[1], 'Sequences.last')]
        lasts += [e.term for e in p.events if e.kind == 'call' and fn_is(e.fn, 'Sequences.last') and getattr(e, 'term', None)]
        ys = [e for e in p.events if e.kind == 'yield']
        frm = [e for e in p.events if e.kind == 'yieldfrom']
        if any(e.kind in ('loop', 'loopiter') for e in p.events) and not frm:
            c.unsure('subscribeRepos has an unrecognised shape')
            continue
        subs = [e.a['value'] for e in frm]
        if any(not fn_is(s[1] if s[0] == 'call' else '', 'firehose.subscribe') for s in subs):
            c.unsure('subscribeRepos has an unrecognised shape')
            continue
        arg = kwarg(subs[0], 'cursor') if subs else None
        if r.isnone(p, cur) is True:
            c.ob('no cursor', not ys and len(subs) == 1 and arg in (cur, NONE, None), p, 'new events only', p)
            n |= 1
            continue
        last = lasts[0] if lasts else None
        if last is None:
            c.ob('cursor is checked', False, p, 'a cursor is served without comparing it with the last number', p)
            continue
        start = mk_bin('-', last, G(f'{FH}.ROLLBACK_WINDOW'))
        future = r.cmp(p, '>', cur, last)
        if future is True:
            n |= 2
            ok = len(ys) == 1 and not subs
            h, pl = _frame(r, p, ys[0]) if ys else (None, None)
            c.ob('future cursor', ok and dget(h, 'op') == K(-1) and dget(pl, 'error') == K('FutureCursor'), p,
                 "isn't answered with just a FutureCursor error", p)
            continue
        c.ob('other cursors are not in the future', future is False, p, 'a cursor beyond the last number is served', p)
        old = _outdated(r, p, cur, start)
        if old is True:
            n |= 4
            h, pl = _frame(r, p, ys[0]) if ys else (None, None)
            c.ob('outdated cursor', len(ys) == 1 and dget(h, 'op') == K(1) and dget(h, 't') == K('#info')
                 and dget(pl, 'name') == K('OutdatedCursor'), p, "isn't answered with OutdatedCursor", p)
            c.ob('outdated cursor starts at the window', len(subs) == 1 and arg is not None and start in _max_args(arg)
                 and all(x == start or x == K(0) for x in _max_args(arg)), p, "doesn't start at the window", p)
            if ys and frm:
                c.ob('the notice comes first', p.events.index(ys[0]) < p.events.index(frm[0]), p, "doesn't", p)
        elif old is False:
            n |= 8
            c.ob('cursor', not ys and len(subs) == 1 and arg == cur, p, "isn't served from exactly there", p)
        else:
            c.ob('outdated cursors are told apart', False, p, 'a cursor is served without comparing it with the window', p)
    c.anchor(n == 15, 'subscribeRepos tells cursors apart')
    for p in r.raises:
        c.ob('raises only without a sequence', any(k[0] == 'isnone' and v and has(k[1], C('Sequences.last')) for k, v in p.facts.d.items())
             or any(e.kind == 'yieldfrom' for e in p.events), p, 'a cursor makes it raise', p)


def _frame(r, p, e):
    v = r.S(p, e.a['value'])
    return (v[1][0], v[1][1]) if v[0] == 'tuple' and len(v[1]) == 2 else (None, None)


def _outdated(r, p, cur, start):
    """Is the cursor before the window (but not before zero)?"""
    a = r.cmp(p, '<', cur, start)
    for k in p.facts.d:
        for x in subterms(k):
            if x[0] == 'call' and x[1] == 'builtins.max' and set(_max_args(x)) == {start, K(0)}:
                v = r.cmp(p, '<', cur, x)
                if v is not None:
                    return v
    return a
