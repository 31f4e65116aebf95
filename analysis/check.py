"""Decide one property: python3 check.py <id> [--thorough].

Nothing of /repo is executed.  build.export() has the compiler dump its MIR for the current tree; the
abstract interpreter derives, for every entry point a property names, the effect trace and result of every
path class; the property's rule is then evaluated on each of them."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import build
from engine import Prog, Unk
from run import run, Missing, show_outcome
from spec import Bad, Und, spans
from terms import show, iv_str, INF


class Ctx:
    def __init__(self, out, tier):
        self.out, self.tier = out, tier
        self.progs, self.cache = {}, {}

    def prog(self, crate):
        if crate not in self.progs:
            p = os.path.join(self.out, crate + '.main.json')
            if not os.path.exists(p):
                raise Missing(crate)
            self.progs[crate] = Prog(p)
        return self.progs[crate]

    def run(self, crate, root, key=None, **kw):
        k = (crate, root, key)
        if k not in self.cache:
            self.cache[k] = run(self.prog(crate), crate + '::' + root, **kw)
        return self.cache[k]


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = self.discharged = 0
        self.und, self.viol = [], []
        self.roots, self.functions = set(), set()
        self.paths = self.blocks = self.calls = self.loops = 0
        self.unmodelled = {}
        self.samples = []
        self._seen = set()

    def engine(self, R):
        if id(R) in self._seen:
            return
        self._seen.add(id(R))
        st = R.E.stats
        self.roots.add(R.name)
        self.functions |= set(st['functions'])
        self.paths += st['paths']
        self.blocks += st['blocks']
        self.calls += st['calls']
        self.loops += st['loops']
        for k, v in st['unmodelled'].items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what and len(self.samples) < 6:
            self.samples.append(what)

    def undetermined(self, where, why):
        self.obligations += 1
        self.und.append('%s: %s' % (where, why))

    def violation(self, key, msg, where, trace='', ident=None):
        self.obligations += 1
        self.viol.append((key, msg, where, trace, ident))

    def outcome(self, R, o, rule, kinds=None, label=''):
        """evaluate one rule on one outcome"""
        from spec import ARITH
        self.engine(R)
        try:
            try:
                rule(R, o)
            except (Bad, Und):
                raise
            except Exception as e:      # a construct the rule cannot interpret
                raise Und('not interpreted: %s %s' % (type(e).__name__, str(e)[:120]))
        except Bad as e:
            if kinds is not None and e.kind not in kinds:
                self.ok()
                return
            if o[1].taint:
                self.undetermined(R.name + label, 'behind a loop that was not fully interpreted (%s): %s' % (o[1].taint[:120], e))
                return
            facts = {}
            for t, f in (e.st or o[1]).facts.items():
                if f[0] == 'iv' and isinstance(t, tuple) and t[0] not in ARITH and t[0] != 'k':
                    facts[strip(show(t))] = f[1]
            ivs = sorted('%s in %s' % (strip(show(t)), iv_str(f[1])) for t, f in (e.st or o[1]).facts.items()
                         if f[0] == 'iv' and isinstance(t, tuple) and t[0] not in ARITH and t[0] != 'k')
            key = '%s|%s|%s' % (R.name + label, e.kind, '; '.join(ivs))
            where = spans(o[1]) or [R.body.get('loc') or ''] + [f for f in R.E.stats['functions'] if 'witness' not in f][:4]
            if o[0] == 'panic':
                where = [str(o[2][1]) + ' in ' + str(o[2][2])] + where
            self.violation(key, '%s: %s' % (R.name.split('::', 1)[1] + label, e), where, show_outcome(R.E, o)[:3000],
                           (R.name + label, e.kind, facts))
        except Und as e:
            self.undetermined(R.name + label, str(e)[:300])
        else:
            self.ok('%s%s: %s' % (R.name, label, show_outcome(R.E, o)[:240]))


def strip(s):
    """drop the allocation numbers of symbolic inputs"""
    import re
    return re.sub(r'#\d+', '', re.sub(r'in\[(\d+)\.', 'in[', s))


def parse_iv(s):
    out = []
    for part in s.split(' or '):
        part = part.strip().strip('[]')
        lo, _, hi = part.partition('..')
        n = lambda x: INF if x == 'inf' else -INF if x == '-inf' else int(x, 0)
        out.append((n(lo), n(hi or lo)))
    return tuple(out)


def known(prop):
    """the listed findings: entry point | kind | constraints on the inputs ## text"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        line = line.rstrip('\n')
        if line.startswith('known: property=%s ' % prop):
            body = line[len('known: property=%s ' % prop):]
            key, _, text = body.partition(' ## ')
            root, kind, cons = key.strip().split('|', 2)
            out.append((root, kind, [(c.rpartition(' in ')[0].strip(), parse_iv(c.rpartition(' in ')[2])) for c in cons.split(';') if c.strip()], text))
    return out


def match(kn, v):
    """the finding a violation belongs to: same entry point and kind, and the inputs lie within those listed"""
    ident = v[4]
    for root, kind, cons, text in kn:
        if ident and ident[:2] == (root, kind) and all(
                c in ident[2] and all(any(lo <= a and b <= hi for lo, hi in iv) for a, b in ident[2][c]) for c, iv in cons):
            return text
    return None


def main(argv):
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    t0 = time.time()
    import props
    if prop not in props.PROPS:
        print('unknown property', prop)
        return 2
    P = props.PROPS[prop]
    rep = Report(prop)
    out = None
    try:
        out = build.export_standin(P['node']) if P['node'] else build.export()
    except build.BuildError as e:
        if not P['node']:
            print('the tree could not be analysed: %s' % str(e)[:2000])
            return 2
        # code that needs more than the stand-ins offer cannot be type-checked here
        rep.undetermined('build', 'not type-checked against the stand-ins: ' + str(e)[-1500:])
    ctx = Ctx(out, tier)
    try:
        if out:
            P['check'](ctx, rep)
    except Missing as e:
        print('entry point %s not found' % e)
        return 2
    kn = known(prop)
    seen, new, ks = set(), [], []
    for v in rep.viol:
        if v[0] in seen:
            continue
        seen.add(v[0])
        t = match(kn, v)
        if t is None:
            new.append(v)
        elif t not in ks:
            ks.append(t)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': P['rule'],
            'obligations': rep.obligations, 'discharged': rep.discharged, 'undetermined': len(rep.und),
            'entry_points': len(rep.roots), 'functions_analysed': len(rep.functions),
            'path_classes': rep.paths, 'basic_blocks_interpreted': rep.blocks, 'call_sites_interpreted': rep.calls,
            'loops_summarised': rep.loops,
            'library_calls_without_model': rep.unmodelled,
            'undetermined_obligations': rep.und[:20],
            'samples': rep.samples,
            'repo_functions': sorted(f for f in rep.functions if 'witness' not in f)[:60],
        },
        'assumptions': props.ASSUMPTIONS,
        'violations': len(new), 'known_findings': len(ks),
        'wall_s': round(time.time() - t0, 3),
    }
    ed = os.path.join(ROOT, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in ks:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    vp = os.path.join(ed, prop + '.violation.txt')
    if os.path.exists(vp):
        os.remove(vp)
    print('%s: %d obligations, %d discharged, %d undetermined, %d violated (%d entry points, %d path classes, %.1f s)' % (
        prop, rep.obligations, rep.discharged, len(rep.und), len(rep.viol), len(rep.roots), rep.paths, time.time() - t0))
    if new:
        with open(vp, 'w') as f:
            for key, msg, where, trace, _ in new:
                f.write('%s\n  key: %s\n  at: %s\n  path: %s\n\n' % (msg, key, ', '.join(where), trace))
        for key, msg, where, trace, _ in new[:10]:
            print('  %s\n    at %s' % (msg, ', '.join(where[:4])))
        print('VIOLATION property=%s replay=%s' % (prop, vp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
