"""Run the abstract interpreter on one entry point."""
from engine import *
from terms import *


class Missing(Exception):
    pass


def arg_value(E, i, tid, body):
    T = E.T[tid]
    name = None
    for n, pl in body.get('names', []):
        if pl == [i + 1]:
            name = n
    s = ('sym', name or 'arg%d' % i, 0, ())
    if T['k'] == 'ref':
        if T.get('e') is not None:
            E.note_type(('*', s), T['e'])
        return ('ref', ('D', s), ())
    E.note_type(s, tid)
    return s


class Result:
    def __init__(self, name, E, outs, body):
        self.name, self.E, self.outs, self.body = name, E, outs, body


def run(P, name, hooks=None, budget=400000, init=None, bid=None, unroll=()):
    """outcomes of the root with this path"""
    bid = P.find(name) if bid is None else bid
    if bid is None:
        raise Missing(name)
    body = P.bodies[bid]
    E = Engine(P, hooks=hooks)
    E.budget = budget
    E.unroll, E.unrolled = unroll, 16
    st = State()
    args = [arg_value(E, i, body['locals'][i + 1], body) for i in range(body['argc'])]
    if init:
        args = init(E, st, args) or args
    try:
        outs = E.exec_body(st, body, args)
    except Unk as e:
        outs = [('unk', st, str(e))]
    except RecursionError:
        outs = [('unk', st, 'recursion')]
    for o in outs:
        o[1].ev = E.stutter(o[1])
    E.stats['paths'] = len(outs)
    R = Result(name, E, outs, body)
    R.args = args
    return R


def show_event(e):
    k = e[0]
    if k in ('W', 'R', 'Wpart'):
        return '%s %s: %s' % (k, show(e[1]) if isinstance(e[1], tuple) else e[1],
                              ' '.join(show(s[1]) if s[0] in ('one',) else show(s) for s in e[2]))
    if k == 'loop':
        return 'loop x%s {%s}' % (show(e[2]), ' | '.join('; '.join(show_event(x) for x in alt) for alt in e[3]))
    return ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in e)


def show_outcome(E, o):
    k, s, v = o
    evs = '; '.join(show_event(e) for e in s.ev)
    if k == 'ret':
        return 'ret %s   [%s]' % (show(v), evs)
    return '%s %s   [%s]' % (k, v if not (isinstance(v, tuple) and v and isinstance(v[0], tuple)) else show(v), evs)


if __name__ == '__main__':
    import sys, os, time
    crate = sys.argv[1]
    P = Prog(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build/out', crate + '.main.json'))
    for name in sys.argv[2:]:
        names = [r['path'] for r in P.roots if r['path'].startswith(name[:-1])] if name.endswith('*') else [name]
        for n in names:
            t = time.time()
            r = run(P, n)
            print('==', n, '%.2fs' % (time.time() - t), {k: v for k, v in r.E.stats.items() if k not in ('functions', 'unmodelled')})
            if r.E.stats['unmodelled']:
                print('   unmodelled', r.E.stats['unmodelled'])
            for o in r.outs:
                print('  ', show_outcome(r.E, o)[:1500])
                iv = {show(t): iv_str(f[1]) for t, f in o[1].facts.items() if f[0] == 'iv' and not (t[0]=='discr' and False)}
                print('       where', {k: v for k, v in iv.items()})
