"""Obligations, violations, known findings and evidence."""
import hashlib
import json
import os
import time

from .program import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    """Collects one property's obligations."""
    def __init__(self, prop, an, tier):
        self.prop, self.an, self.prog, self.tier = prop, an, an.prog, tier
        self.obs = {}       # (rule, instance) -> dict
        self.notes = []
        self.undecided = []
        self.rules = {}     # rule -> description
        self.cur = None
        self.last = None    # the function analysed last

    # -- declaring rules
    def rule(self, rid, text):
        self.cur = rid
        self.rules[rid] = text

    def ob(self, inst, ok, at=None, msg='', path=None):
        """Records one obligation: this construct satisfies the current rule.

        An instance (rule plus construct name) may be checked on many
        partitions; it's discharged only if all of them pass.
        """
        o = self.obs.setdefault((self.cur, inst), {
            'rule': self.cur, 'instance': inst, 'checked': 0, 'ok': True, 'where': None})
        o['checked'] += 1
        loc = _loc(at) or _loc(self.last)
        if o['where'] is None:
            o['where'] = loc
        if not ok and o['ok']:
            o.update(ok=False, where=loc, msg=msg or 'violated',
                     trace=_trace(path) if path is not None else _facts(at))
        return ok

    def none(self, inst, bad, msg, at=None):
        """Obligation: the list of offending effects is empty."""
        if not bad:
            self.ob(inst, True, at)
        for b in bad:
            ev = getattr(b, 'ev', b)
            self.ob(inst, False, ev, msg, getattr(b, 'path', None))

    def some(self, inst, found, msg, at=None):
        """Obligation: at least one construct exists."""
        self.ob(inst, bool(found), getattr(found[0], 'ev', found[0]) if found else at, msg)
        return bool(found)

    def anchor(self, cond, msg):
        if not cond:
            raise AnalysisError(f'anchor vanished: {msg}')

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def unsure(self, msg):
        """A construct that this rule can't decide."""
        m = f'{self.cur}: {msg}'
        if m not in self.undecided:
            self.undecided.append(m)

    def run(self, *a, **kw):
        self.last = self.an.run(*a, **kw)
        return self.last

    @property
    def violations(self):
        return [o for o in self.obs.values() if not o['ok']]


def _loc(at):
    if at is None:
        return None
    if isinstance(at, str):
        return at
    at = getattr(at, 'ev', at)
    if hasattr(at, 'loc'):
        return f'{at.loc} ({at.where})'
    if hasattr(at, 'func'):   # Run
        f = at.func
        return f'{f.mod.rel}:{getattr(f.node, "lineno", "?")} ({f.full})'
    if hasattr(at, 'mod') and hasattr(at, 'node'):   # Func
        return f'{at.mod.rel}:{getattr(at.node, "lineno", "?")} ({getattr(at, "full", "")})'
    if hasattr(at, 'events'):   # Path
        for e in reversed(at.events):
            return f'{e.loc} ({e.where})'
    return None


def _facts(at):
    from .terms import show
    ev = getattr(at, 'ev', at)
    fs = getattr(ev, 'facts', None)
    if fs is None:
        return []
    return [f'{show(k)} = {v}'[:160] for k, v in list(fs)[:12]]


def _trace(path):
    out = []
    for e in path.events[-25:]:
        out.append(repr(e)[:200])
    out.append(f'ends: {path.kind}')
    return out


def known_findings():
    """[(status, property, rest)] from the committed file."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            status, _, rest = line.partition(':')
            d = rest.strip()
            prop = d.split()[0].partition('=')[2]
            out.append((status, prop, d.split(None, 1)[1] if ' ' in d else ''))
    return out


def finish(check, started, level='other', explanation='', assumptions=()):
    """Prints the report, writes evidence, returns the exit code."""
    prop = check.prop
    known = {}
    for status, p, rest in known_findings():
        if status == 'known' and p == prop:
            # known: property=X01 rule=<rule> instance=<instance> | what fails
            keypart, _, what = rest.partition(' | ')
            known[keypart.strip()] = what.strip()
    bad, listed = [], []
    for o in check.violations:
        key = f'rule={o["rule"]} instance={o["instance"]}'
        (listed if key in known else bad).append((key, o))
    print(f'{prop}: {len(check.rules)} rules, {len(check.obs)} obligations, '
          f'{sum(o["checked"] for o in check.obs.values())} checks on '
          f'{check.an.partitions} partitions of {len(check.an.functions)} functions, '
          f'{check.an.calls} call sites')
    for rid, text in check.rules.items():
        n = [o for o in check.obs.values() if o['rule'] == rid]
        print(f'  {rid}: {text} [{sum(o["ok"] for o in n)}/{len(n)}]')
    for n in check.notes:
        print(f'  note: {n}')
    for n in check.undecided:
        print(f'  UNDECIDED: {n}')
    for key, o in listed:
        print(f'KNOWN-FINDING: property={prop} {known[key]}')
    code = 0
    rdir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    if bad:
        code = 1
        replay = os.path.join(rdir, f'{prop}.violation.json')
        with open(replay, 'w') as f:
            json.dump([o for _, o in bad], f, indent=1)
        for key, o in bad:
            print(f'  FAIL {key} at {o["where"]}: {o["msg"]}')
            print(f'       rule: {check.rules[o["rule"]]}')
            for t in o.get('trace') or []:
                print(f'       | {t}')
        print(f'VIOLATION property={prop} replay={replay}')
    ev = {
        'property': prop,
        'tier': check.tier,
        'seed': int(os.environ.get('VERIF_SEED') or 1),
        'level': level,
        'coverage': {
            'explanation': explanation or (
                'Static analysis of the current source: each rule is an obligation on '
                'every partition (abstract path) of the analysed functions.'),
            'obligations': len(check.obs),
            'discharged': sum(o['ok'] for o in check.obs.values()),
            'partition_checks': sum(o['checked'] for o in check.obs.values()),
            'partitions': check.an.partitions,
            'functions_analysed': sorted(check.an.functions),
            'call_sites': check.an.calls,
            'rules': check.rules,
            'instances': [{k: o[k] for k in ('rule', 'instance', 'checked', 'ok', 'where')}
                          for o in check.obs.values()],
            'notes': check.notes,
            'undecided': check.undecided,
            'source_digest': digest(check.prog),
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - started, 3),
        'violations': len(bad),
    }
    with open(os.path.join(rdir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return code


def digest(prog):
    h = hashlib.sha256()
    for n in sorted(prog.modules):
        h.update(n.encode())
        h.update(prog.modules[n].src.encode())
    return h.hexdigest()
