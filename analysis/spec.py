"""Comparing what the interpreter derived with what a property demands.

Three verdicts: proved (equal in the abstract domain), refuted (an assignment of the free inputs
that satisfies every recorded path fact makes the two sides differ, or puts the path in a class
where the outcome is forbidden), undetermined.  Only refuted obligations are violations."""
import random
from terms import *
from engine import *

EQ, NE, UNDET = 'eq', 'ne', 'undet'

OPAQUE = ('app', 'phi', 'havoc', 'havseq', 'fbits', 'rt')
ARITH = ('i', 'lin', 'trunc', 'flog2', 'B', 'shr', 'min', 'max', 'and', 'or', 'xor', 'div', 'rem', 'cmp', 'not', 'out', 'mul')


def is_opaque(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in OPAQUE or (t[0] == 'sym' and t[1] in ('havoc', 'const', 'constv', 'rt', 'hint', 'count', '?', 'uninit')):
        return True
    return any(is_opaque(x) for x in t if isinstance(x, tuple))


class CantEval(Exception):
    pass


def ev(t, env, pick):
    h = t[0]
    if h == 'i':
        return t[1]
    if h == 'lin':
        return t[1] + sum(k * ev(x, env, pick) for x, k in t[2])
    if h == 'trunc':
        lo, hi = trange(t[2], t[3])
        return (ev(t[1], env, pick) - lo) % (1 << t[2]) + lo
    if h == 'B':
        return (ev(t[1], env, pick) >> (8 * t[2])) & 255
    if h == 'shr':
        return ev(t[1], env, pick) >> t[2]
    if h == 'flog2':
        x = ev(t[1], env, pick)
        if x < 1:
            raise CantEval
        return x.bit_length() - 1
    if h == 'min':
        return min(ev(t[1], env, pick), ev(t[2], env, pick))
    if h == 'max':
        return max(ev(t[1], env, pick), ev(t[2], env, pick))
    if h == 'and':
        r = -1
        for x in t[1:]:
            r &= ev(x, env, pick)
        return r
    if h == 'or':
        r = 0
        for x in t[1:]:
            r |= ev(x, env, pick)
        return r
    if h == 'xor':
        r = 0
        for x in t[1:]:
            r ^= ev(x, env, pick)
        return r
    if h == 'mul':
        r = 1
        for x in t[1:]:
            r *= ev(x, env, pick)
        return r
    if h == 'div':
        b = ev(t[2], env, pick)
        if b == 0:
            raise CantEval
        a = ev(t[1], env, pick)
        return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    if h == 'rem':
        b = ev(t[2], env, pick)
        if b == 0:
            raise CantEval
        a = ev(t[1], env, pick)
        return abs(a) % abs(b) * (1 if a >= 0 else -1)
    if h == 'cmp':
        a, b = ev(t[2], env, pick), ev(t[3], env, pick)
        return int(a < b if t[1] == '<' else a <= b if t[1] == '<=' else a == b)
    if h == 'not':
        return 1 - ev(t[1], env, pick)
    if h == 'out':
        return int(not (t[2] <= ev(t[1], env, pick) <= t[3]))
    if t not in env:
        env[t] = pick(t)
    return env[t]


def pick_iv(iv, rnd):
    iv = [(max(lo, -(1 << 70)), min(hi, 1 << 70)) for lo, hi in iv]
    iv = [x for x in iv if x[0] <= x[1]]
    lo, hi = rnd.choice(iv)
    m = rnd.random()
    if m < 0.25:
        return lo
    if m < 0.5:
        return hi
    if m < 0.6:
        return min(hi, lo + rnd.randrange(4))
    if m < 0.7:
        return max(lo, hi - rnd.randrange(4))
    return rnd.randint(lo, hi)


def no_pick(t):
    raise CantEval


def invert(t, v, env, rnd, d=0):
    """try to make t evaluate to v by choosing unset atoms"""
    if d > 8:
        return
    h = t[0]
    if h == 'flog2':
        return invert(t[1], rnd.randrange(1 << v, 2 << v) if 0 <= v < 200 else 1, env, rnd, d + 1)
    if h in ('sym', 'rb', 'len', 'elem', 'fld', '*', 'discr', 'k', 'pred', 'streq', 'peq', 'fb', 'ordkey', 'app'):
        if t not in env:
            env[t] = v
        return
    if h == 'trunc':
        w = 1 << t[2]
        return invert(t[1], v % w if t[1] in UNSIGNED else v, env, rnd, d + 1)
    if h == 'shr':
        return invert(t[1], (v << t[2]) + rnd.randrange(1 << t[2]), env, rnd, d + 1)
    if h == 'rem':
        try:
            b = ev(t[2], dict(env), no_pick)
        except CantEval:
            b = v + 1 + rnd.randrange(1000)
            invert(t[2], b, env, rnd, d + 1)
        return invert(t[1], v + (b * rnd.randrange(3) if rnd.random() < 0.3 else 0), env, rnd, d + 1)
    if h == 'B':
        if t[2] == 0:
            return invert(t[1], v, env, rnd, d + 1)
        return
    if h == 'lin':
        rest = v - t[1]
        unset = []
        for x, k in sorted(t[2], key=lambda p: -abs(p[1])):
            if x in env:
                rest -= k * env[x]
            else:
                unset.append((x, k))
        if not unset:
            return
        if all(x[0] in ('rb', 'elem', 'B', 'fb') or True for x, k in unset) and all(k > 0 for _, k in unset) and len(unset) > 1:
            for x, k in unset:
                q = max(0, min(255, rest // k)) if x[0] in ('rb', 'elem', 'B') else max(0, rest // k)
                invert(x, q, env, rnd, d + 1)
                rest -= k * env.get(x, q)
            return
        x, k = unset[-1]
        if len(unset) == 1 and rest % k == 0:
            invert(x, rest // k, env, rnd, d + 1)
        return


UNSIGNED = set()


def sample(E, st, tries=60, seed=1, focus=()):
    """assignments of the free inputs that satisfy every fact of st"""
    rnd = random.Random(seed)
    facts = [(t, f[1]) for t, f in st.facts.items() if f[0] == 'iv' and isinstance(t, tuple)]
    facts = [(t, iv) for t, iv in facts if t[0] not in ('pred', 'peq', 'streq', 'strval')]

    def rng(t):
        r = E.ival(st, t)
        return r

    UNSIGNED.clear()
    for t, iv in facts:
        if t[0] == 'trunc':
            r = E.ival(st, t[1])
            if r and r[0][0] >= 0:
                UNSIGNED.add(t[1])

    simple = [x for x in facts if x[0][0] not in ARITH]
    comp = [x for x in facts if x[0][0] in ARITH]
    for _ in range(tries):
        env = {}
        order = comp[:]
        rnd.shuffle(order)
        ss = simple[:]
        # pins first
        for t, iv in ss:
            if len(iv) == 1 and iv[0][0] == iv[0][1]:
                env[t] = iv[0][0]
        if rnd.random() < 0.5:
            for t, iv in ss:
                env.setdefault(t, pick_iv(rng(t), rnd))
        for t, iv in order:
            try:
                invert(t, pick_iv(E.iv(st, t), rnd), env, rnd)
            except (ValueError, IndexError):
                pass
        for t, iv in ss:
            env.setdefault(t, pick_iv(rng(t), rnd))

        def pk(t):
            r = rng(t)
            if not r:
                raise CantEval
            if r == FULL:
                r = ((0, 1 << 20),)
            return pick_iv(r, rnd)
        try:
            if all(any(lo <= ev(t, env, pk) <= hi for lo, hi in iv) for t, iv in facts) and \
                    all(any(lo <= env[t] <= hi for lo, hi in rng(t)) for t in list(env)):
                yield env, pk
        except CantEval:
            continue


def has_phi(t):
    return isinstance(t, tuple) and bool(t) and (t[0] == 'phi' or any(has_phi(x) for x in t))


def opaque_facts(st):
    return any(is_opaque(t) for t, f in st.facts.items() if f[0] == 'iv' and isinstance(t, tuple))


def contradictory(E, st):
    """two facts of the path exclude each other"""
    return any(not iv_meet(E.base_iv(st, t), f[1]) for t, f in st.facts.items()
               if f[0] == 'iv' and isinstance(t, tuple) and t[0] in ARITH)


def feasible(E, st):
    """some input satisfies every fact recorded on the path, and none of them is about a quantity the domain lost"""
    if opaque_facts(st) or contradictory(E, st):
        return False
    for _ in sample(E, st, tries=300):
        return True
    return False


def prove_eq(E, st, a, b):
    """(verdict, detail)"""
    a1, b1 = E.norm_deep(st, a), E.norm_deep(st, b)
    if a1 == b1:
        return EQ, None
    sa, sb = a1[0], b1[0]
    struct = ('agg', 'vec', 's', 'bs', 'utf8', 'clo')
    if sa == 'ref' and sb == 'ref':
        try:
            return prove_eq(E, st, E.read(st, (a1[1], a1[2])), E.read(st, (b1[1], b1[2])))
        except Unk:
            return UNDET, 'references'
    for x, y in ((a1, b1), (b1, a1)):
        if x[0] == 'strfn':
            return changed_string(E, st, x, y)
    if sa in ('utf8', 'bytes') and sb == sa:
        return prove_eq(E, st, a1[1], b1[1])
    if sa == 'agg' and sb == 'agg':
        if a1[1] == b1[1] and a1[2] == b1[2] and len(a1[3]) == len(b1[3]):
            res = EQ, None
            for x, y in zip(a1[3], b1[3]):
                r = prove_eq(E, st, x, y)
                if r[0] == NE:
                    return r
                if r[0] == UNDET:
                    res = r
            return res
        if a1[1] == b1[1] and a1[2] != b1[2]:
            return NE, 'variant %s instead of %s' % (a1[2], b1[2])
    if is_seqy(a1) and is_seqy(b1):
        return seq_eq(E, st, a1, b1)
    if sa in struct or sb in struct:
        if is_opaque(a1) or is_opaque(b1):
            return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])
        if sa in struct and sb in ('i', 'lin') or sb in struct and sa in ('i', 'lin'):
            return NE, '%s instead of %s' % (show(a1)[:200], show(b1)[:200])
        # a structured value against an atom
        if sa == sb:
            return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])
        return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])
    if sa in ('cmp', 'out', 'not') or sb in ('cmp', 'out', 'not'):
        x, y = E.truth(st, a1), E.truth(st, b1)
        if x is not None and y is not None:
            if x == y:
                return EQ, None
            if not is_opaque(a1) and not is_opaque(b1):
                return NE, '%s instead of %s' % (show(a1)[:160], show(b1)[:160])
    d = E.iv(st, sub(a1, b1))
    if d and d[0][0] == d[-1][1] == 0:
        return EQ, None
    if is_opaque(a1) or is_opaque(b1):
        return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])
    if any(has_phi(t) for t, f in st.facts.items() if f[0] == 'iv'):
        return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])
    n = 0
    for env, pk in sample(E, st, tries=400):
        n += 1
        try:
            x, y = ev(a1, env, pk), ev(b1, env, pk)
        except CantEval:
            continue
        if x != y:
            return NE, '%s instead of %s (e.g. %s: %s instead of %s)' % (
                show(a1)[:160], show(b1)[:160], show_env(env), x, y)
        if n > 60:
            break
    return UNDET, '%s vs %s' % (show(a1)[:200], show(b1)[:200])


def changed_string(E, st, x, y):
    """a text function that changes some strings, where the string itself is expected"""
    s = x[2]
    bare = lambda v: v[1] if v[0] in ('utf8', 'bytes', '*') else v
    same = bare(s) == bare(y) or (is_seqy(bare(s)) and is_seqy(bare(y)) and seq_eq(E, st, bare(s), bare(y))[0] == EQ)
    tests = [t for t in st.facts if isinstance(t, tuple) and t[0] in ('pred', 'streq', 'peq') and t[1] != 'utf8' and (has(t, s) or has(t, bare(s)))]
    n = E.iv(st, ('len', bare(s))) or ((0, 0),)
    if same and not tests and (n[-1][1] > 1 or bare(s)[0] == 'vec'):
        return NE, '%s(%s) instead of the string itself' % (x[1], show(s)[:120])
    return UNDET, '%s of a string' % x[1]


def is_seqy(v):
    return v[0] in ('vec', 's', 'bs', 'slice', 'bytes') or (v[0] == 'agg' and v[1] == 'array')


def seq_eq(E, st, a, b):
    sa, sb = segs_of(a), segs_of(b)
    if len(sa) == len(sb):
        res = EQ, None
        for x, y in zip(sa, sb):
            if x == y:
                continue
            if x[0] == 'one' and y[0] == 'one':
                r = prove_eq(E, st, x[1], y[1])
            elif x[0] == 'c' and y[0] == 'c':
                r = prove_eq(E, st, x[1], y[1])
                if r[0] == EQ:
                    r = prove_eq(E, st, x[3], subst(y[3], {y[2]: x[2]}))
            else:
                r = UNDET, 'sequences'
            if r[0] == NE:
                return r
            if r[0] == UNDET:
                res = r
        return res
    r = prove_eq(E, st, seq_len(a), seq_len(b))
    if r[0] == NE:
        return NE, 'length ' + str(r[1])
    return UNDET, '%s vs %s' % (show(a)[:200], show(b)[:200])


def show_env(env):
    return ', '.join('%s=%s' % (show(k), v if abs(v) < 70000 else hex(v)) for k, v in sorted(env.items(), key=repr)[:6])


# ---------------------------------------------------------------- effect streams
class Bad(Exception):
    """refuted obligation; kind classifies it so that each property reports its own"""

    def __init__(self, msg, kind='value', st=None):
        Exception.__init__(self, msg)
        self.kind = kind
        self.st = st


class Und(Exception):
    pass


def events(st):
    return st.ev


WK = ('W', 'Wpart')
RK = ('R', 'Rall', 'Rpart')


def stream(evs, kinds=('W',)):
    """flat items of the effect trace: ('b',t) ('all',t) ('rep',n,K,body) ('probe',v) ('loop',lid,trip,[items])
    ('rall',got,K,body,limit) ('err',e) ..."""
    out = []
    for e in evs:
        k = e[0]
        if k in ('W', 'R'):
            if (k == 'W') != ('W' in kinds):
                continue
            if e[1] == 'mem':
                continue
            for s in e[2]:
                if s[0] == 'one':
                    out.append(('b', s[1], e[3] if len(e) > 3 else None))
                elif s[0] == 'all':
                    out.append(('all', s[1], e[3] if len(e) > 3 else None))
                elif s[0] == 'c':
                    out.append(('rep', s[1], s[2], s[3], e[3] if len(e) > 3 else None))
                elif s[0] in ('probe', 'nested'):
                    out.append((s[0], s[1]))
                else:
                    out.append(('?', s))
        elif k == 'Rall' and 'R' in kinds:
            s = e[2]
            if s[0] == 'c':
                out.append(('rall', s[1], s[2], s[3], e[3], e[4]))
            else:
                out.append(('?', s))
        elif k in ('Wpart',) and 'W' in kinds:
            out.append(('part', e[2], e[3]))
        elif k == 'Rpart' and 'R' in kinds:
            out.append(('?', e))
        elif k == 'Werr' and 'W' in kinds:
            out.append(('err', e[2], e[3] if len(e) > 3 else None))
        elif k == 'Rerr' and 'R' in kinds:
            if e[1] == 'mem':
                continue
            out.append(('err', e[2], e[3] if len(e) > 3 else None))
        elif k == 'loop':
            alts = [stream(a, kinds) for a in e[3]]
            if any(alts):
                out.append(('loop', e[1], e[2], alts))
        elif k in ('peek', 'buffered', 'consume', 'flush', 'unflushed', 'nested'):
            out.append((k,) + tuple(e[1:]))
    return out


def spans(st, n=8):
    """source positions along the path"""
    out = []

    def go(evs):
        for e in evs:
            if e[0] == 'loop':
                for a in e[3]:
                    go(a)
                continue
            for x in e[1:]:
                if isinstance(x, str) and '.rs:' in x and 'registry' not in x and x not in out:
                    out.append(x)
    go(st.ev)
    return out[:n]


# ---------------------------------------------------------------- encodings
NAT0 = (((0, 0x7f), None, 0), ((0x80, 0xffff), 0xfe, 2), ((0x10000, 0xffffffff), 0xfd, 4), ((1 << 32, (1 << 64) - 1), 0xfc, 8))
INTS = (((0, 0x7f), None, 0), ((-0x80, -1), 0xff, 1), ((0x80, 0x7fff), 0xfe, 2), ((-0x8000, -0x81), 0xfe, 2),
        ((0x8000, 0x7fffffff), 0xfd, 4), ((-0x80000000, -0x8001), 0xfd, 4),
        ((0x80000000, (1 << 63) - 1), 0xfc, 8), ((-(1 << 63), -0x80000001), 0xfc, 8))


def enc_cases(E, st, t, table):
    """[(state, [byte terms])] of the canonical encoding of t"""
    out = []
    for iv, prefix, n in table:
        s = st.fork()
        if not E.refine(s, t, (iv,)):
            continue
        if not iv_meet(E.iv(s, t), (iv,)):
            continue
        bs = ([] if prefix is None else [I(prefix)]) + ([E.norm(s, t)] if n == 0 else [E.byte(s, t, i) for i in range(n)])
        out.append((s, bs))
    s = st.fork()
    rest = FULL
    for iv, _, _ in table:
        rest = iv_meet(rest, iv_not((iv,)))
    if E.refine(s, t, rest) and not contradictory(E, s):
        out.append((s, None))
    return out


# expected write items: ('b',t) ('nat0',t) ('int',t) ('all',t) ('probe',v) ('loop',n,fn) ('fb',v,n)
def expand(E, st, items):
    """[(state, flat items)]"""
    cur = [(st, [])]
    for it in items:
        nxt = []
        for s, acc in cur:
            if acc is None:
                nxt.append((s, acc))
            elif it[0] in ('nat0', 'int'):
                nxt += [(s2, None if bs is None else acc + [('b', b) for b in bs])
                        for s2, bs in enc_cases(E, s, it[1], NAT0 if it[0] == 'nat0' else INTS)]
            elif it[0] == 'fb':
                nxt.append((s, acc + [('b', ('fb', it[1], i)) for i in range(it[2])]))
            else:
                nxt.append((s, acc + [it]))
        cur = nxt
    return cur


def match_items(E, st, got, exp, where=''):
    """raise Bad/Und unless the written items are the expected ones"""
    und = None
    for i in range(max(len(got), len(exp))):
        if i >= len(got):
            raise Bad('%sonly %d of %d items are written; %s is missing' % (where, len(got), len(exp), show_item(exp[i])))
        if i >= len(exp):
            raise Bad('%sextra output %s' % (where, show_item(got[i])))
        g, x = got[i], exp[i]
        if g[0] == '?' or g[0] == 'part':
            if g[0] == 'part':
                raise Und('partial write')
            raise Und('unmodelled output')
        if g[0] == 'loop' and x[0] == 'loop':
            r = prove_eq(E, st, g[2], x[1])
            if r[0] == NE:
                raise Bad('%srepetition count %s' % (where, r[1]))
            if r[0] == UNDET:
                und = und or 'repetition count ' + str(r[1])
            K = ('k', g[1])
            for alt in g[3]:
                e2 = expand(E, st, x[2](K))
                done = False
                errs = None
                for s2, ex in e2:
                    try:
                        if ex is None:
                            raise Und('no encoding')
                        match_items(E, s2, alt, ex, where + 'in each repetition: ')
                        done = True
                    except Bad as e:
                        errs = e
                if not done and errs:
                    if len(e2) == 1:
                        raise errs
                    und = und or str(errs)
            continue
        if g[0] == 'loop' or x[0] == 'loop':
            # an unrolled or empty loop
            if x[0] == 'loop' and is_c(E.norm(st, x[1])) and E.norm(st, x[1])[1] <= 64:
                n = E.norm(st, x[1])[1]
                flat = []
                for j in range(n):
                    flat += x[2](I(j))
                rest = expand(E, st, flat + list(exp[i + 1:]))
                for s2, ex in rest:
                    match_items(E, s2, got[i:], ex, where)
                return
            if g[0] == 'loop':
                tr = E.norm(st, g[2])
                if is_c(tr) and tr[1] <= 64 and len(g[3]) == 1:
                    flat = [subst(a, {('k', g[1]): I(j)}) for j in range(tr[1]) for a in g[3][0]]
                    return match_items(E, st, list(got[:i]) + flat + list(got[i + 1:]), exp, where)
            raise Und('loop against %s' % show_item(x if g[0] == 'loop' else g))
        if g[0] != x[0]:
            if {g[0], x[0]} <= {'b', 'all', 'rep'}:
                ln = {'b': lambda y: ONE, 'all': lambda y: seq_len(y[1]), 'rep': lambda y: y[1]}
                if 'b' in (g[0], x[0]):
                    # a single byte where a whole sequence of arbitrary length is expected (or vice versa)
                    r = prove_eq(E, st, ln[g[0]](g), ln[x[0]](x))
                    if r[0] == NE:
                        raise Bad('%s%s is written where %s is expected' % (where, show_item(g), show_item(x)))
                raise Und('%s vs %s' % (show_item(g), show_item(x)))
            raise Bad('%s%s is written where %s is expected' % (where, show_item(g), show_item(x)))
        if g[0] in ('b', 'probe', 'nested', 'all'):
            r = prove_eq(E, st, g[1], x[1])
            if r[0] == NE:
                raise Bad('%s%s written: %s' % (where, {'b': 'byte %d' % i}.get(g[0], g[0]), r[1]))
            if r[0] == UNDET:
                if g[0] in ('probe', 'nested', 'all') and not is_opaque(g[1]) and not is_opaque(x[1]) \
                        and g[1][0] in ('fld', '*', 'elem', 'sym') and x[1][0] in ('fld', '*', 'elem', 'sym'):
                    raise Bad('%s%s is written where %s is expected' % (where, show(g[1]), show(x[1])))
                und = und or str(r[1])
            continue
        if g[0] == 'rep':
            raise Und('repetition')
    if und:
        raise Und(und)


def show_item(x):
    if x[0] == 'loop':
        return 'a repetition'
    return ' '.join(show(y) if isinstance(y, tuple) else str(y) for y in x[:2])


def result_kind(v):
    """'ok', payload | 'err', payload | None"""
    if v[0] == 'agg' and v[1] == RES:
        return ('ok', v[3][0] if v[3] else UNIT) if v[2] == 0 else ('err', v[3][0])
    return None, v


# ---------------------------------------------------------------- reading
class Cur:
    __slots__ = ('E', 'st', 'items', 'pos')

    def __init__(self, E, st, items, pos=0):
        self.E, self.st, self.items, self.pos = E, st, items, pos

    def at(self, st=None, pos=None):
        return Cur(self.E, st or self.st, self.items, self.pos if pos is None else pos)

    def more(self):
        return self.pos < len(self.items) and self.items[self.pos][0] != 'err'


def VAL(v):
    return ('val', v)


def bind(rs, f):
    out = []
    for c, r in rs:
        if r[0] == 'val':
            out += f(c, r[1])
        else:
            out.append((c, r))
    return out


def rd_bytes(c, n):
    """n single bytes"""
    bs = []
    p = c.pos
    for _ in range(n):
        if p >= len(c.items) or c.items[p][0] == 'err':
            return [(c, ('short', p))]
        it = c.items[p]
        if it[0] == '?':
            return [(c, ('und', 'unmodelled input'))]
        if it[0] != 'b':
            return [(c, ('mism', 'a byte is expected, the code reads %s' % show_item(it)))]
        bs.append(it[1])
        p += 1
    return [(c.at(pos=p), VAL(bs))]


def cases(c, t, table):
    """table: [(interval set, fn(cur))]; everything else is invalid"""
    out = []
    rest = FULL
    for iv, f in table:
        s = c.st.fork()
        rest = iv_meet(rest, iv_not(iv))
        if c.E.refine(s, t, iv):
            out += f(c.at(st=s))
    s = c.st.fork()
    if c.E.refine(s, t, rest):
        out.append((c.at(st=s), ('err', 'invalid ' + show(t))))
    return out


def le(c, bs, signed):
    return c.E.le_compose(c.st, bs, signed)


def rd_nat0(c, hi=(1 << 64) - 1):
    def ranged(c, v):
        if hi >= (1 << 64) - 1:
            return [(c, VAL(v))]
        return cases(c, v, [(((0, hi),), lambda c: [(c, VAL(c.E.norm(c.st, v)))])])

    def go(c, bs):
        b = bs[0]
        return cases(c, b, [
            (((0, 127),), lambda c: ranged(c, c.E.norm(c.st, b))),
            (((0xfe, 0xfe),), lambda c: bind(rd_bytes(c, 2), lambda c, x: ranged(c, le(c, x, False)))),
            (((0xfd, 0xfd),), lambda c: bind(rd_bytes(c, 4), lambda c, x: ranged(c, le(c, x, False)))),
            (((0xfc, 0xfc),), lambda c: bind(rd_bytes(c, 8), lambda c, x: ranged(c, le(c, x, False))))])
    return bind(rd_bytes(c, 1), go)


def rd_int(c, lo, hi):
    def ranged(c, v):
        return cases(c, v, [(((lo, hi),), lambda c: [(c, VAL(c.E.norm(c.st, v)))])])

    def go(c, bs):
        b = bs[0]
        return cases(c, b, [
            (((0, 127),), lambda c: ranged(c, c.E.norm(c.st, b))),
            (((0xff, 0xff),), lambda c: bind(rd_bytes(c, 1), lambda c, x: ranged(c, le(c, x, True)))),
            (((0xfe, 0xfe),), lambda c: bind(rd_bytes(c, 2), lambda c, x: ranged(c, le(c, x, True)))),
            (((0xfd, 0xfd),), lambda c: bind(rd_bytes(c, 4), lambda c, x: ranged(c, le(c, x, True)))),
            (((0xfc, 0xfc),), lambda c: bind(rd_bytes(c, 8), lambda c, x: ranged(c, le(c, x, True))))])
    return bind(rd_bytes(c, 1), go)


def rd_flag(c, t, f):
    """0 -> f, 1 -> t, anything else invalid"""
    return bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [(((0, 0),), f), (((1, 1),), t)]))


def rd_blob(c, n):
    """n raw bytes as a sequence value"""
    if not c.more():
        # nothing is read: fine when n is zero
        s0, s1 = c.st.fork(), c.st.fork()
        out = []
        if c.E.refine(s0, n, ((0, 0),)):
            out.append((c.at(st=s0), VAL(('vec', ()))))
        if c.E.refine(s1, n, ((1, INF),)):
            out.append((c.at(st=s1), ('short', c.pos)))
        return out
    it = c.items[c.pos]
    if it[0] == 'rall':
        got, K, body, limit = it[1], it[2], it[3], it[4]
        if limit is None:
            return [(c, ('mism', 'the code reads to the end of the input'))]
        r = prove_eq(c.E, c.st, limit, n)
        if r[0] != EQ:
            return [(c, ('mism' if r[0] == NE else 'und', 'the number of bytes read is %s' % r[1]))]
        out = []
        s = c.st.fork()
        if c.E.refine(s, sub(n, got), ((0, 0),)):
            out.append((c.at(st=s, pos=c.pos + 1), VAL(mk_vec((('c', got, K, body),)))))
        s = c.st.fork()
        if c.E.refine(s, sub(n, got), ((1, INF),)):
            out.append((c.at(st=s, pos=c.pos + 1), ('err', 'end of input')))
        return out
    if it[0] == 'rep':
        r = prove_eq(c.E, c.st, it[1], n)
        if r[0] != EQ:
            return [(c, ('mism' if r[0] == NE else 'und', 'the number of bytes read is %s' % r[1]))]
        return [(c.at(pos=c.pos + 1), VAL(mk_vec((('c', it[1], it[2], it[3]),))))]
    return [(c, ('und', 'bytes read by %s' % it[0]))]


def rd_string(c):
    def utf(c, v):
        p = ('pred', 'utf8', v)
        out = []
        if v == ('vec', ()):
            return [(c, VAL(('utf8', v)))]
        if p not in c.st.facts:
            # the code may have tested the same bytes under another name
            for g, f in c.st.facts.items():
                if isinstance(g, tuple) and g[:2] == ('pred', 'utf8'):
                    r = prove_eq(c.E, c.st, g[2], v)
                    if r[0] == EQ:
                        return [(c, VAL(('utf8', v)) if f[1] == ((1, 1),) else ('err', 'not UTF-8'))]
                    if r[0] != NE and is_opaque(g[2]):
                        return [(c, ('und', 'UTF-8 test of %s' % show(g[2])[:100]))]
        s = c.st.fork()
        if c.E.assume(s, p, True):
            out.append((c.at(st=s), VAL(('utf8', v))))
        s = c.st.fork()
        if c.E.assume(s, p, False):
            out.append((c.at(st=s), ('err', 'not UTF-8')))
        return out
    return bind(rd_nat0(c), lambda c, n: bind(rd_blob(c, n), utf))


def rd_probe(c):
    if not c.more():
        return [(c, ('short', c.pos))]
    it = c.items[c.pos]
    if it[0] != 'probe':
        return [(c, ('mism', 'a nested value is expected, the code reads %s' % show_item(it)))]
    return [(c.at(pos=c.pos + 1), VAL(it[1]))]


def rd_probes(c, n):
    rs = [(c, VAL(()))]
    for _ in range(n):
        rs = bind(rs, lambda c, acc: bind(rd_probe(c), lambda c, v: [(c, VAL(acc + (v,)))]))
    return rs


def rd_nested(c, rule):
    """a value read under this rule"""
    if not c.more():
        return [(c, ('short', c.pos))]
    it = c.items[c.pos]
    if it[0] != 'nested':
        return [(c, ('und' if it[0] == '?' else 'mism', 'a nested value is expected, the code reads %s' % show_item(it)))]
    r = prove_eq(c.E, c.st, it[1][1], rule)
    if r[0] != EQ:
        differ = r[0] == NE or distinct(it[1][1], rule)
        return [(c, ('mism' if differ else 'und', 'a value is read under the rule %s instead of %s' % (show(it[1][1])[:100], show(rule)[:100])))]
    return [(c.at(pos=c.pos + 1), VAL(it[1]))]


def distinct(a, b):
    """two inputs that are different places of the layout or value (their contents are arbitrary)"""
    atom = ('fld', '*', 'elem', 'sym', 'agg')
    return a != b and not is_opaque(a) and not is_opaque(b) and a[0] in atom and b[0] in atom and \
        not (a[0] == 'agg' and b[0] == 'agg' and a[1:3] == b[1:3] and not any(distinct(x, y) for x, y in zip(a[3], b[3])))


def rd_nesteds(c, rules):
    rs = [(c, VAL(()))]
    for r in rules:
        rs = bind(rs, lambda c, acc, r=r: bind(rd_nested(c, r), lambda c, v: [(c, VAL(acc + (v,)))]))
    return rs


def rd_loop_probes(c, n, rule=None, wrap=None, pre=()):
    """n nested values (under rule(K)); pre: elements read one by one before a loop"""
    E = c.E
    if c.more() and c.items[c.pos][0] in ('probe', 'nested'):
        out = []
        j = I(len(pre))
        s = c.st.fork()
        if E.refine(s, sub(n, j), ((0, 0),)):
            out.append((c.at(st=s), VAL(mk_vec(pre))))
        s = c.st.fork()
        if E.refine(s, sub(n, j), ((1, INF),)):
            el = rd_nested(c.at(st=s), rule(j)) if rule else rd_probe(c.at(st=s))
            out += bind(el, lambda c, v: rd_loop_probes(c, n, rule, wrap, pre + (('one', wrap(j, v) if wrap else v),)))
        return out
    if pre:
        n = sub(n, I(len(pre)))
        if rule:
            rule0, rule = rule, lambda K: rule0(add(K, I(len(pre))))
        if wrap:
            wrap0, wrap = wrap, lambda K, x: wrap0(add(K, I(len(pre))), x)
    if not c.more():
        s0, s1 = c.st.fork(), c.st.fork()
        out = []
        if E.refine(s0, n, ((0, 0),)):
            out.append((c.at(st=s0), VAL(mk_vec(pre) if pre else ('vec', ()))))
        if E.refine(s1, n, ((1, INF),)):
            out.append((c.at(st=s1), ('short', c.pos)))
        return out
    it = c.items[c.pos]
    if it[0] != 'loop':
        return [(c, ('und', 'nested values read by %s' % it[0]))]
    K = ('k', it[1])
    bodies = set()
    for alt in it[3]:
        if len(alt) == 1 and alt[0][0] == 'nested' and rule is not None:
            r = prove_eq(E, c.st, alt[0][1][1], rule(K))
            if r[0] != EQ:
                differ = r[0] == NE or distinct(alt[0][1][1], rule(K))
                return [(c, ('mism' if differ else 'und', 'an element is read under the rule %s instead of %s' % (
                    show(alt[0][1][1])[:100], show(rule(K))[:100])))]
        elif len(alt) != 1 or alt[0][0] != 'probe' or rule is not None:
            if any(x[0] == '?' for x in alt):
                return [(c, ('und', 'unmodelled input'))]
            return [(c, ('mism', 'one nested value per element is expected, the code reads %s' % ', '.join(map(show_item, alt))))]
        bodies.add(alt[0][1])
    last = c.pos + 1 >= len(c.items) or c.items[c.pos + 1][0] == 'err'
    if last and c.pos + 1 < len(c.items):
        # the loop ended in a failure: it must have had more to read
        s = c.st.fork()
        if E.refine(s, sub(n, it[2]), ((1, INF),)):
            return [(c.at(st=s, pos=c.pos + 1), ('short', c.pos + 1))]
        return [(c, ('mism', 'reads more than the announced number of elements'))]
    r = prove_eq(E, c.st, it[2], n)
    if r[0] != EQ:
        return [(c, ('mism' if r[0] == NE else 'und', 'element count: %s' % r[1]))]
    if len(bodies) != 1:
        return [(c, ('und', 'several element readers'))]
    return [(c.at(pos=c.pos + 1), VAL(mk_vec(pre + (('c', it[2], K, (wrap or (lambda K, x: x))(K, bodies.pop())),))))]


def check_read(E, out, spec, want=None):
    """compare one outcome of a reader with its specification; raises Bad / Und"""
    kind, st, v = out
    if kind in ('unk', 'cut'):
        raise Und('%s %s' % (kind, str(v)[:160]))
    items = stream(st.ev, ('R',))
    und = None
    if kind == 'panic':
        rk, pl = 'panic', v
    else:
        rk, pl = result_kind(v)
        if rk is None:
            raise Und('result ' + show(v)[:100])
    ioerr = items and items[-1][0] == 'err'
    for i, it in enumerate(items[:-1]):
        if it[0] == 'err':
            if feasible(E, st):
                raise Bad('input is read again after a failed read', 'after')
            raise Und('read after failure')
    for c, r in spec(Cur(E, st, items)):
        if contradictory(E, c.st):
            continue
        end = c.pos >= len(items) - (1 if ioerr else 0)

        def bad(msg, kind):
            if not feasible(E, c.st):
                raise Und('not shown reachable: ' + msg)
            ex = next(iter(sample(E, c.st)), None)
            raise Bad(msg + (' (e.g. %s)' % show_env(ex[0]) if ex and ex[0] else ''), kind)
        try:
            if r[0] == 'und':
                und = und or r[1]
            elif r[0] == 'mism':
                bad(r[1], 'shape')
            elif rk == 'ok':
                if ioerr:
                    bad('a failed read is reported as success', 'swallow')
                if r[0] == 'err':
                    bad('invalid input is accepted (%s)' % r[1], 'accept')
                if r[0] == 'short':
                    bad('returns a value before reading all of its encoding', 'shape')
                if not end:
                    bad('reads more than the encoding: %s' % show_item(items[c.pos]), 'shape')
                d = prove_eq(E, c.st, pl, r[1])
                if d[0] == NE:
                    bad('wrong value: %s' % d[1], 'value')
                if d[0] == UNDET:
                    und = und or 'value: %s' % d[1]
            elif rk == 'panic':
                if r[0] != 'err':
                    bad('panics (%s)' % (pl[0],), 'panic')
                else:
                    bad('panics on invalid input (%s)' % (pl[0],), 'panic')
            else:
                if ioerr:
                    if r[0] == 'val':
                        bad('reads past the end of a complete value', 'shape')
                else:
                    if r[0] == 'val':
                        bad('a valid encoding is rejected', 'reject')
                    if r[0] == 'short':
                        bad('rejects the input before all of a valid encoding was read', 'reject')
        except Und as e:
            und = und or str(e)
    if und:
        raise Und(und)


def check_write(E, out, exp):
    """exp(E, st) -> [(state, expected items | None when the value must be refused)]"""
    kind, st, v = out
    if kind in ('unk', 'cut'):
        raise Und('%s %s' % (kind, str(v)[:160]))
    if kind == 'panic':
        if not feasible(E, st):
            raise Und('panic not shown reachable')
        raise Bad('panics (%s)' % (v[0],), 'panic')
    rk, pl = result_kind(v)
    if rk is None:
        raise Und('result ' + show(v)[:100])
    items = stream(st.ev, ('W',))
    for i, it in enumerate(items):
        if it[0] == 'err' and i + 1 < len(items):
            if feasible(E, st):
                raise Bad('output is written after a failed write', 'after')
            raise Und('write after failure')
    if items and items[-1][0] == 'err':
        if rk == 'ok':
            if feasible(E, st):
                raise Bad('a failed write is reported as success', 'swallow')
            raise Und('swallowed')
        return
    und = None
    for s1, want in exp(E, st):
        try:
            if want is None:
                if rk == 'ok':
                    raise Bad('a value that has no encoding is written', 'noenc')
                if items:
                    raise Und('output before the value is refused')
                continue
            if rk == 'err':
                raise Bad('a value is refused', 'refuse')
            for s2, ex in expand(E, s1, want):
                if contradictory(E, s2):
                    continue
                try:
                    if ex is None:
                        raise Bad('a value that has no encoding is written', 'noenc', s2)
                    match_items(E, s2, items, ex)
                except Bad as e:
                    if feasible(E, s2):
                        raise
                    und = 'not shown reachable: %s' % e
                except Und as e:
                    und = str(e)
        except Bad as e:
            if feasible(E, s1):
                raise
            und = 'not shown reachable: %s' % e
        except Und as e:
            und = str(e)
    if und:
        raise Und(und)
