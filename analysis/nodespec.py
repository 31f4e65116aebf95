"""Merkle proofs and chain selection (crates type-checked against stand-in dependencies)."""
from spec import *
from terms import *
from engine import *
import models


def plain(t):
    """the value whose order an encoded value has: hexadecimal keeps the order of the bytes"""
    while t[0] == 'app' and t[1] == 'hex':
        t = t[2]
    return t


def key(t):
    return ('ordkey', plain(t))


def hook_opaque(E, st, f, args, sp):
    name = (f.get('rpath') or f.get('path')).split('::')[-1]
    return [('ret', st, ('app', name) + tuple(settle(E, st, models.val(E, st, a) if a[0] == 'ref' else a) for a in args))]


def settle(E, st, v):
    """the constant a number is known to be"""
    v = E.norm_deep(st, v)
    if v[0] in ARITH or v[0] == 'len':
        r = E.iv(st, v)
        if r and r[0][0] == r[-1][1]:
            return I(r[0][0])
    return v


def hook_hex(E, st, f, args, sp):
    return [('ret', st, ('app', 'hex', models.val(E, st, args[0])))]


def opaque(v):
    return v[0] == 'app' and (v[1] == 'hex' or v[1].startswith('opaque_'))


def hook_cmp(E, st, f, args, sp):
    path = f.get('path') or ''
    a, b = (models.val(E, st, x) for x in args)
    for _ in range(2):
        a, b = (models.val(E, st, x) if x[0] == 'ref' else x for x in (a, b))
    if not (opaque(a) and opaque(b)):
        return None
    m = path.split('::')[-1]
    a, b = key(a), key(b)
    if m == 'cmp':
        return [('ret', st, ('cmp3', a, b))]
    if m == 'partial_cmp':
        return [('ret', st, Some(('cmp3', a, b)))]
    t = {'eq': ('cmp', '==', a, b), 'ne': ('not', ('cmp', '==', a, b)), 'lt': ('cmp', '<', a, b), 'le': ('cmp', '<=', a, b),
         'gt': ('cmp', '<', b, a), 'ge': ('cmp', '<=', b, a)}.get(m)
    return None if t is None else [('ret', st, t)]


HOOKS = ((lambda p: p.split('::')[-1].startswith('opaque_'), hook_opaque),
         (lambda p: p in ('hex::encode', 'hex::encode_upper'), hook_hex),
         (lambda p: p.split('::')[-1] in ('cmp', 'partial_cmp', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'), hook_cmp))


# ================================================================ a specification as a decision procedure
class Dead(Exception):
    pass


class T:
    """runs a specification on one path class: each question either has the answer the path implies, or
    the path class is divided and the specification is run on both parts"""

    def __init__(self, E, st, script):
        self.E, self.st, self.script, self.i, self.todo = E, st, script, 0, []

    def test(self, *conds):
        """the common truth value of conditions that are equivalent"""
        E = self.E
        if len(conds) == 1 and conds[0][0] == 'pred' and conds[0][1] in JOINS and E.truth(self.st, conds[0]) is None:
            return bool(JOINS[conds[0][1]](self.test(conds[0][2]), self.test(conds[0][3])))
        for c in conds:
            x = E.truth(self.st, c)
            if x is None:
                x = implied(E, self.st, c)
            if x is not None:
                break
        else:
            if self.i < len(self.script):
                x = self.script[self.i]
            else:
                x = 1
                self.todo.append(self.script[:self.i] + [0])
                self.script = self.script + [1]
            self.i += 1
        for c in conds:
            if not E.assume(self.st, c, x):
                raise Dead
        return bool(x)


def implied(E, st, c):
    """truth of a comparison that one fact decides together with the ranges of the rest"""
    if c[0] != 'cmp' or c[1] == '==':
        return None
    d = sub(c[2], c[3])
    for t, f in st.facts.items():
        if f[0] == 'iv' and isinstance(t, tuple) and t[0] == 'lin' and f[1]:
            for k in (1, -1):
                r = E.iv(st, sub(d, scale(t, k)))
                if not r:
                    continue
                lo, hi = (f[1][0][0], f[1][-1][1]) if k == 1 else (-f[1][-1][1], -f[1][0][0])
                lo, hi = lo + r[0][0], hi + r[-1][1]
                if hi < 0 or (hi == 0 and c[1] == '<='):
                    return 1
                if lo > 0 or (lo == 0 and c[1] == '<'):
                    return 0
    return None


def explore(E, st, spec, cap=4000):
    work, n = [[]], 0
    while work:
        n += 1
        if n > cap:
            raise Und('too many cases')
        s = st.fork()
        t = T(E, s, work.pop())
        try:
            spec(t)
        except Dead:
            pass
        work += t.todo


def decide_eq(E, st, a, b, d=0):
    """compare two values; opaque functions are uninterpreted and injective in what distinguishes their arguments"""
    a, b = E.norm_deep(st, a), E.norm_deep(st, b)
    if a == b:
        return EQ, None
    if a[0] == 'fld' and b[0] == 'fld' and a[2:] == b[2:]:
        r = decide_eq(E, st, a[1], b[1], d + 1)
        if r[0] == EQ or (r[0] == NE and opq(a[1]) and opq(b[1])):
            return r
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and len(a) == len(b):
        res = EQ, None
        for x, y in zip(a[2:], b[2:]):
            r = decide_eq(E, st, x, y, d + 1)
            if r[0] == NE:
                return r
            if r[0] == UNDET:
                res = r
        return res
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1]:
        if a[2] != b[2]:
            return NE, '%s instead of %s' % (show(a)[:160], show(b)[:160])
        res = EQ, None
        for x, y in zip(a[3], b[3]):
            r = decide_eq(E, st, x, y, d + 1)
            if r[0] == NE:
                return r
            if r[0] == UNDET:
                res = r
        return res
    for x, y in ((a, b), (b, a)):
        if x[0] == 'agg' and y[0] not in ('agg', 'upd'):
            adt = E.p.adts.get(x[1])
            if adt and adt['k'] == 'enum':
                k = E.truth(st, ('cmp', '==', ('discr', y), I(E.discrs(x[1])[x[2]])))
                if k == 0:
                    return NE, '%s instead of %s' % (show(a)[:160], show(b)[:160])
                if k == 1:
                    res = EQ, None
                    for i, z in enumerate(x[3]):
                        r = decide_eq(E, st, z, ('fld', y, x[2], i), d + 1)
                        if r[0] != EQ:
                            res = r
                    return res
    if opq(a) and opq(b):
        return NE, '%s instead of %s' % (show(a)[:160], show(b)[:160])
    if free(a) and free(b):
        return NE, '%s instead of %s' % (show(a)[:160], show(b)[:160])
    for x, y in ((a, b), (b, a)):
        if opq(x) and free(y):
            return NE, '%s instead of %s' % (show(a)[:160], show(b)[:160])
    if is_num(a) or is_num(b):
        return prove_eq(E, st, a, b)
    return UNDET, '%s vs %s' % (show(a)[:160], show(b)[:160])


def is_num(t):
    return t[0] in ARITH


def opq(t):
    return t[0] == 'app' and t[1].startswith('opaque_') or t[0] == 'fld' and opq(t[1])


def free(t):
    """an input of the entry point, or a part of one"""
    if t[0] == 'sym':
        return t[1] not in ('havoc', 'const', 'constv', 'rt', 'hint', 'count', '?', 'uninit')
    if t[0] in ('fld', '*'):
        return free(t[1])
    return t[0] == 'elem' and free(t[1]) and t[2][0] in ('i', 'lin', 'len')


def lost(t):
    """the fact is about a quantity the domain gave up on"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'app' and isinstance(t[1], str) and t[1].startswith('opaque_'):
        return any(lost(x) for x in t[2:])
    if t[0] in OPAQUE or (t[0] == 'sym' and t[1] in ('havoc', 'const', 'constv', 'rt', 'hint', 'count', '?', 'uninit', 'havoc-elem')):
        return True
    return any(lost(x) for x in t if isinstance(x, tuple))


def possible(E, st):
    """a concrete assignment that satisfies the path"""
    if any(lost(t) for t, f in st.facts.items() if f[0] == 'iv' and isinstance(t, tuple)) or contradictory(E, st):
        return None
    for env, pk in sample(E, st, tries=400):
        return env
    return None


def refute(E, st, msg, kind='value'):
    if contradictory(E, st):
        raise Dead
    env = possible(E, st)
    if env is None:
        raise Und(msg)
    raise Bad('%s (e.g. %s)' % (msg, show_env(env)), kind, st)


# ================================================================ Merkle proofs
def sym(R, name):
    for n, pl in R.body.get('names', []):
        if len(pl) == 1 and 1 <= pl[0] <= R.body['argc'] and n == name:
            return R.args[pl[0] - 1]
    raise Und('no input ' + name)


def app(f, *a):
    return ('app', f) + a


def depth_of(t):
    if t[0] == 'i':
        return I((t[1] + 1).bit_length() - 1)
    return ('flog2', add(t, ONE))


def proof_spec(t, index, item, peers, hashes):
    """None when the proof names no path from the item to a root, else the optional root hash"""
    n = len(peers)
    if len(hashes) != n:
        return None
    if not t.test(('cmp', '<', ZERO, index)):
        return None
    if not t.test(('cmp', '==', depth_of(index), I(n))):
        return None
    h = Some(app('opaque_leaf', item, I(n), ZERO))
    cur = index
    for k in range(n):
        odd = t.test(('cmp', '==', ('trunc', cur, 1, False) if cur[0] != 'i' else I(cur[1] & 1), ONE))
        if not t.test(('cmp', '==', peers[k], add(cur, ONE) if odd else sub(cur, ONE))):
            return None
        pair = (h, hashes[k]) if odd else (hashes[k], h)
        h = app('opaque_merge', *pair, I(n - 1 - k), I(k + 1))
        up = sub(cur, ONE)
        cur = I(up[1] >> 1) if up[0] == 'i' else ('shr', up, 1)
    return h


def asked(E, st, h):
    """the call of the merger that the path has examined, when it is this one"""
    for f in list(st.facts):
        if isinstance(f, tuple) and f[0] == 'discr' and opq(f[1]) and f[1] != h:
            r = decide_eq(E, st, f[1], h)
            if r[0] == EQ:
                return f[1]
            if r[0] == UNDET:
                raise Und(str(r[1]))
    return h


def rule_proof(n, verify=False, uneven=None, deep=None):
    def rule(R, o):
        E, st = R.E, o[1]
        item = sym(R, 'item')
        if deep is None:
            index = sym(R, 'index')
            np, nh = uneven or (n, n)
            peers = [sym(R, 'i%d' % k) for k in range(np)]
            hashes = [sym(R, 'h%d' % k) for k in range(nh)]
        else:
            index = I(deep)
            peers = [('elem', sym(R, 'pi'), I(k)) for k in range(n)]
            hashes = [('elem', sym(R, 'ph'), I(k)) for k in range(n)]
        if o[0] == 'unk':
            raise Und(str(o[2])[:200])

        def spec(t):
            if o[0] != 'ret':
                refute(E, t.st, 'a proof makes the program stop: %s' % (str(o[2])[:120],), 'panic')
            got = o[2]
            h = proof_spec(t, index, item, peers, hashes)
            if h is not None:
                h = asked(E, t.st, h)
            some = h is not None and t.test(('cmp', '==', ('discr', h), ONE))
            if verify:
                want = False
                if some:
                    a, b = ('fld', h, 1, 0), sym(R, 'root')
                    want = t.test(('peq',) + tuple(sorted((a, b), key=repr)), ('cmp', '==', a, b))
                x = E.truth(t.st, got)
                if x is None:
                    x = t.test(got)
                if bool(x) != want:
                    lossy(got)
                    refute(E, t.st, 'verify answers %s for a proof that is %s' % (bool(x), 'right' if want else
                           'not one of this item' if h is None else 'for another root'))
                return
            if got[0] != 'agg':
                raise Und('result ' + show(got)[:120])
            if got[2] == 1:
                if some:
                    refute(E, t.st, 'a right proof is rejected: ' + show(got)[:80])
                return
            if not some:
                refute(E, t.st, 'a proof that names no path to a root is accepted with root %s' % show(got[3][0])[:200])
            r = decide_eq(E, t.st, got[3][0], ('fld', h, 1, 0))
            if r[0] == NE:
                refute(E, t.st, 'the root is %s, not %s' % (show(got[3][0])[:200], show(h)[:200]))
            if r[0] == UNDET:
                raise Und(str(r[1]))
        explore(E, st, spec)
    return rule


def lossy(t):
    if lost(t):
        raise Und('result ' + show(t)[:120])


def rule_metadata(R, o):
    """depth: the number of doublings that reach the node's row; height: what is left of the tree's height"""
    E, st = R.E, o[1]
    index, height = sym(R, 'index'), sym(R, 'height')
    d = depth_of(index)

    def spec(t):
        inside = t.test(('cmp', '<=', d, height))
        if o[0] == 'unk':
            raise Und(str(o[2])[:200])
        if o[0] != 'ret':
            if inside:
                refute(E, t.st, 'no metadata for a node of the tree: %s' % str(o[2])[:120], 'panic')
            return
        if not inside:
            return
        got = o[2]
        for x, want, what in zip(got[3], (d, sub(height, d)), ('depth', 'height')):
            if floaty(x):
                raise Bad('the %s of a node is computed in floating point, which is inexact for large trees: %s' % (what, show(x)[:120]), 'float', t.st)
            r = prove_eq(E, t.st, x, want)
            if r[0] == NE:
                raise Bad('%s: %s' % (what, r[1]), 'value', t.st)
            if r[0] == UNDET:
                raise Und('%s: %s' % (what, r[1]))
    explore(E, st, spec)


def floaty(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('fcast', 'fbits') or (t[0] == 'app' and isinstance(t[1], str) and ('f64' in t[1] or 'f32' in t[1])):
        return True
    return any(floaty(x) for x in t if isinstance(x, tuple))


# ================================================================ chain selection
def parts(E, st, header):
    f = lambda v, *p: f(E.proj_val(st, v, ('f', None, p[0])), *p[1:]) if p else v
    s = f(header, 0)
    return {'length': f(s, 0, 0), 'epoch': f(s, 1, 0), 'min': f(s, 2, 0), 'subs': f(s, 3), 'vrf': f(s, 4, 0), 'slot': f(s, 6, 0, 0),
            'per': f(s, 6, 1, 0), 'staking': f(s, 8, 3), 'next': f(s, 9, 3), 'hash': f(header, 2)}


def blocks(E, st, chain):
    if chain[0] == 'vec':
        return chain
    return E.proj_val(st, chain, ('f', None, 0))


def tip(E, st, chain):
    v = blocks(E, st, chain)
    return parts(E, st, models.seq_get(v, sub(models.seq_len(v), ONE)))


def nonempty(t, chain):
    return t.test(('cmp', '<', ZERO, models.seq_len(blocks(t.E, t.st, chain))))


def inner(E, st, v):
    return E.proj_val(st, v, ('f', None, 0))


def same(t, a, b):
    x, y = inner(t.E, t.st, a), inner(t.E, t.st, b)
    return t.test(('cmp', '==', x, y), ('peq',) + tuple(sorted((a, b), key=repr)), ('peq',) + tuple(sorted((x, y), key=repr)))


def longer(t, cur, cand):
    """the chain the short range rule keeps; None when one of them has no block"""
    if not nonempty(t, cur) or not nonempty(t, cand):
        return None
    E, st = t.E, t.st
    a, b = tip(E, st, cur), tip(E, st, cand)
    if t.test(('cmp', '<', a['length'], b['length'])):
        return cand
    if not t.test(('cmp', '==', a['length'], b['length'])):
        return cur
    x, y = (key(app('opaque_digest', v['vrf'])) for v in (a, b))
    if t.test(('cmp', '<', x, y)):
        return cand
    if not t.test(('cmp', '==', x, y)):
        return cur
    x, y = (inner(E, st, v['hash']) for v in (a, b))
    return cand if t.test(('cmp', '<', x, y)) else cur


def result_of(o):
    if o[0] == 'unk':
        raise Und(str(o[2])[:200])
    if o[0] != 'ret':
        return 'panic'
    v = o[2]
    if v[0] != 'agg':
        raise Und('result ' + show(v)[:120])
    return 'ok' if v[2] == 0 else 'err'


def judge(t, R, o, got, want, chain, expect):
    """got/want: 'ok'/'err'; the chain must be `expect` afterwards"""
    E = R.E
    if got == 'panic':
        refute(E, t.st, 'the program stops: %s' % str(o[2])[:120], 'panic')
    if got != want:
        refute(E, t.st, 'the result is %s where it must be %s' % (got, want))
    now = E.read(t.st, (chain[1], chain[2]))
    r = same_chain(E, t.st, now, expect)
    if r[0] == NE:
        refute(E, t.st, r[1])
    if r[0] == UNDET:
        raise Und(r[1])


def chain_id(E, st, c):
    """the input a chain stems from"""
    c = E.norm_deep(st, c)
    if c[0] == 'agg' and len(c[3]) == 1:
        return chain_id(E, st, c[3][0])
    return c


def same_chain(E, st, got, want):
    g, w = chain_id(E, st, got), chain_id(E, st, want)
    if g == w:
        return EQ, None
    for a, b in ((g, w), (w, g)):
        if a[0] == 'fld' and b[0] in ('sym', '*') and a[1] == b:
            return EQ, None
    if free(g) and free(w):
        return NE, 'the chain is %s instead of %s' % (show(g)[:80], show(w)[:80])
    for a, b in ((g, w), (w, g)):
        if a[0] == 'vec' and free(b):
            return NE, 'the chain is %s instead of %s' % (show(g)[:120], show(w)[:120])
    if g[0] == 'vec' and w[0] == 'vec':
        if not set(syms(g)) & set(syms(w)):
            return NE, 'the chain is %s instead of %s' % (show(g)[:120], show(w)[:120])
    return UNDET, 'the chain is %s; %s expected' % (show(g)[:120], show(w)[:120])


def syms(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'sym':
            yield t
        else:
            for x in t:
                yield from syms(x)


def rule_longer(R, o):
    chain, cand = sym(R, 'chain'), sym(R, 'candidate')
    E = R.E
    old = ('*', chain[1][1])

    def spec(t):
        w = longer(t, old, cand)
        judge(t, R, o, result_of(o), 'err' if w is None else 'ok', chain, old if w is None else w)
    explore(E, o[1], spec)


def rule_short(R, o):
    """same epoch: the lock checkpoints of the staking epochs agree; otherwise the one that is an epoch ahead stakes on
    the other's next epoch, and that one is past the first two thirds of its epoch"""
    E = R.E
    ca, cb = (('*', sym(R, n)[1][1]) for n in ('chain', 'candidate'))

    def spec(t):
        st = t.st
        got = result_of(o)
        if not nonempty(t, ca) or not nonempty(t, cb):
            want = None
        else:
            a, b = tip(E, st, ca), tip(E, st, cb)
            if t.test(('cmp', '==', a['epoch'], b['epoch'])):
                want = same(t, a['staking'], b['staking'])
            else:
                want = False
                for x, y in ((a, b), (b, a)):
                    if t.test(('cmp', '==', x['epoch'], add(y['epoch'], ONE))):
                        if not t.test(('cmp', '==', y['per'], ZERO)):
                            late = t.test(('cmp', '<=', I(4760), ('rem', y['slot'], y['per'])))
                            want = late and same(t, x['staking'], y['next'])
        if got == 'panic':
            refute(E, t.st, 'the program stops: %s' % str(o[2])[:120], 'panic')
        if (want is None) != (got == 'err'):
            refute(E, t.st, 'the result is %s for %s' % (got, 'a chain without blocks' if want is None else 'two chains'))
        if want is None:
            return
        v = o[2][3][0]
        x = E.truth(t.st, v)
        if x is None:
            lossy(v)
            x = t.test(v)
        if bool(x) != want:
            refute(E, t.st, 'the fork counts as %s range' % ('short' if x else 'long'))
    explore(E, o[1], spec)


def rule_push(R, o):
    E = R.E
    chain, new = sym(R, 'chain'), sym(R, 'new')
    old = ('*', chain[1][1])

    def spec(t):
        got = result_of(o)
        good = True
        if nonempty(t, old):
            good = t.test(('cmp', '==', parts(E, t.st, new)['length'], add(tip(E, t.st, old)['length'], ONE)))
        if got == 'panic':
            refute(E, t.st, 'the program stops: %s' % str(o[2])[:120], 'panic')
        if (got == 'ok') != good:
            refute(E, t.st, 'a block of %s height is %s' % ('the next' if good else 'another', 'rejected' if good else 'accepted'))
        now = blocks(E, t.st, E.read(t.st, (chain[1], chain[2])))
        was = blocks(E, t.st, old)
        if not good:
            if now != was:
                refute(E, t.st, 'a rejected block changes the chain: ' + show(now)[:120])
            return
        s = models.segs_of(now)
        w = models.segs_of(was)
        if list(s[:-1]) == list(w) and s[-1] == ('one', new):
            return
        if E.truth(t.st, ('cmp', '==', models.seq_len(was), ZERO)) and list(s) == [('one', new)]:
            return
        if now == was:
            refute(E, t.st, 'an accepted block is not on the chain')
        n = models.seq_len(now)
        if prove_eq(E, t.st, n, add(models.seq_len(was), ONE))[0] == EQ:
            s = [x for x in s if not (x[0] == 'all' and E.truth(t.st, ('cmp', '==', seq_len(x[1]), ZERO)))]
            if s == [('one', new)] and not nonempty(t, old):
                return
            last = s[-1][1] if s[-1][0] == 'one' else seq_get(s[-1][1], sub(seq_len(s[-1][1]), ONE)) if s[-1][0] == 'all' else seq_get(now, sub(n, ONE))
            r = decide_eq(E, t.st, last, new)
            if r[0] == NE:
                refute(E, t.st, 'an accepted block is not the tip: ' + r[1])
        raise Und('the chain is ' + show(now)[:120])
    explore(E, o[1], spec)


def rule_density(R, o):
    """before the end of the grace period the minimum is that of the chain itself, afterwards it is never more"""
    E = R.E
    ca, cb = (('*', sym(R, n)[1][1]) for n in ('chain', 'other'))

    def spec(t):
        got = result_of(o)
        st = t.st
        if got == 'panic':
            refute(E, st, 'the program stops: %s' % str(o[2])[:120], 'panic')
        if not nonempty(t, ca) or not nonempty(t, cb):
            if got != 'err':
                refute(E, st, 'a density is found for a chain without blocks')
            return
        a, b = tip(E, st, ca), tip(E, st, cb)
        grace = t.test(('cmp', '<', a['slot'], I(1440))) and t.test(('cmp', '<', b['slot'], I(1440)))
        if got == 'err':
            if grace:
                refute(E, st, 'no density within the grace period')
            n = models.seq_len(a['subs'])
            if not t.test(('cmp', '<', n, I(11))):
                refute(E, st, 'no density for a window of at least eleven sub-windows')
            return
        v = o[2][3][0]
        if grace:
            r = prove_eq(E, t.st, v, a['min'])
            if r[0] == NE:
                refute(E, t.st, 'within the grace period the density is ' + str(r[1])[:160])
            if r[0] == UNDET:
                raise Und(str(r[1]))
            return
        if not t.test(('cmp', '<=', v, a['min'])):
            lossy(v)
            refute(E, t.st, 'the density exceeds the minimum of the chain: ' + show(v)[:120])
    explore(E, o[1], spec)


def rule_density_at(a, b, n=11):
    """a density of known sub-windows is at most the minimum recorded and at most their sum, and nothing is left of them
    once the other chain is a whole window ahead"""
    def rule(R, o):
        E = R.E

        def spec(t):
            got = result_of(o)
            if got == 'panic':
                refute(E, t.st, 'the program stops: %s' % str(o[2])[:120], 'panic')
            if got == 'err':
                refute(E, t.st, 'no density for a window of eleven sub-windows')
            v = o[2][3][0]
            m = parts(E, t.st, sym(R, 'top'))['min']
            ds = [sym(R, 'd%d' % i) for i in range(n)]
            total = ZERO
            for d in ds:
                total = add(total, d)
            if max(a, b) < 1440:
                r = prove_eq(E, t.st, v, m)
                if r[0] == NE:
                    refute(E, t.st, 'within the grace period the density is ' + str(r[1])[:160])
                if r[0] == UNDET:
                    raise Und(str(r[1]))
                return
            for what, w in (('the minimum of the chain', m), ('the sum of its sub-windows', total)) + (
                    (('zero, with every sub-window out of the window', ZERO),) if b >= a + 7 * n else ()):
                if not t.test(('cmp', '<=', v, w)):
                    lossy(v)
                    refute(E, t.st, 'the density exceeds %s: %s' % (what, show(v)[:120]))
        explore(E, o[1], spec)
    return rule


def well_formed(E, st, args):
    """no sub-window holds more blocks than it has slots"""
    for a in args:
        if a[0] == 'sym' and a[1][:1] == 'd' and a[1][1:].isdigit():
            E.refine(st, a, ((0, 7),))


def hook_short(E, st, f, args, sp):
    a, b = (models.val(E, st, x) for x in args)
    q = app('opaque_short', *sorted((chain_id(E, st, a), chain_id(E, st, b)), key=repr))
    return fallible(E, st, q, (a, b), (0, 1))


def hook_density(E, st, f, args, sp):
    a, b = (models.val(E, st, x) for x in args)
    q = app('opaque_density', chain_id(E, st, a), chain_id(E, st, b))
    return fallible(E, st, q, (a, b), (0, (1 << 32) - 1))


def fallible(E, st, q, chains, rng):
    out = []
    E.rng.setdefault(('discr', q), (0, 1))
    E.rng.setdefault(('fld', q, 0, 0), rng)
    for x, s in E.split(st, ('cmp', '==', ('discr', q), ZERO)):
        if x:
            # an answer is only given for chains with blocks (decided by the rules of these two functions)
            if all(E.assume(s, ('cmp', '<', ZERO, models.seq_len(blocks(E, s, c))), 1) for c in chains):
                out.append(('ret', s, ('agg', RES, 0, (('fld', q, 0, 0),))))
        else:
            out.append(('ret', s, ('agg', RES, 1, (('fld', q, 1, 0),))))
    return out


SELECT = ((lambda p: p.split('::')[-1] == 'is_short_range', hook_short),
          (lambda p: p.split('::')[-1] == 'relative_min_window_density', hook_density)) + HOOKS


LEN = 'mina_rs_base::numbers::Length'


def candidate(old, top, ds):
    """what the entry point builds: the blocks in old, then top with these sub-window densities"""
    def build(R, E, st):
        d = mk_vec([('one', ('agg', LEN, 0, (I(x) if isinstance(x, int) else sym(R, x),))) for x in ds])
        t = E.set_proj(st, sym(R, top), [('f', None, 0), ('f', None, 3)], d)
        return mk_vec(list(segs_of(sym(R, old))) + [('one', t)])
    return build


def rule_select(cands):
    """cands: (old, top, densities) of each candidate, in order"""
    def rule(R, o):
        E = R.E
        chain = sym(R, 'chain')
        old = ('*', chain[1][1])

        def spec(t):
            st = t.st
            cur, name = old, None
            got = result_of(o)
            if got == 'panic':
                refute(E, st, 'the program stops: %s' % str(o[2])[:120], 'panic')
            want = 'ok'
            for c in cands:
                cand = c(R, E, st)
                a, b = chain_id(E, st, cur), chain_id(E, st, cand)
                q = app('opaque_short', *sorted((a, b), key=repr))
                if not t.test(('cmp', '==', ('discr', q), ZERO)):
                    want = 'err'
                    break
                for z in (cur, cand):
                    if not E.assume(t.st, ('cmp', '<', ZERO, models.seq_len(blocks(E, t.st, z))), 1):
                        raise Dead
                if t.test(('cmp', '==', ('fld', q, 0, 0), ONE), ('fld', q, 0, 0)):
                    cur = longer(t, cur, cand)
                    continue
                subs = models.segs_of(tip(E, t.st, cand)['subs'])
                if len(subs) != 11:
                    continue
                if any([t.test(('cmp', '<', I(7), E.proj_val(t.st, d[1], ('f', None, 0)))) for d in subs]):
                    continue
                x, y = app('opaque_density', a, b), app('opaque_density', b, a)
                if not all([t.test(('cmp', '==', ('discr', z), ZERO)) for z in (x, y)]):
                    want = 'err'
                    break
                x, y = ('fld', x, 0, 0), ('fld', y, 0, 0)
                if t.test(('cmp', '<', x, y)):
                    cur = cand
                elif t.test(('cmp', '==', x, y)):
                    cur = longer(t, cur, cand)
            judge(t, R, o, got, want, chain, cur)
        explore(E, o[1], spec)
    return rule


# ================================================================ entry points
DEEP = {'20_first': (20, 1048575), '20_last': (20, 2097150), '20_mixed': (20, 1418660), '29_last': (29, 1073741822),
        '35_ledger': (35, 39246456712), '35_last': (35, 68719476734), '63_last': (63, 18446744073709551614),
        '63_first': (63, 9223372036854775807)}
Z = [0] * 10


def merkle_rules(rep):
    """(entry point, hooks, rule)"""
    yield 'merkle::metadata', rule_metadata
    for n in range(6):
        yield 'merkle::root_hash_%d' % n, rule_proof(n)
    for n in range(1, 4):
        yield 'merkle::verify_%d' % n, rule_proof(n, verify=True)
    for a, b in ((2, 1), (1, 2), (3, 2)):
        yield 'merkle::uneven_%d_%d' % (a, b), rule_proof(a, uneven=(a, b))
    for k, (n, i) in DEEP.items():
        yield 'merkle::deep_' + k, rule_proof(n, deep=i)


DENSITY = ((0, 0), (1438, 1439), (1439, 1439), (1439, 1440), (1440, 1439), (1440, 1440), (0, 1440), (1500, 1500), (1503, 1507), (2000, 1000),
           (2000, 2007), (2000, 2040), (2000, 2076), (2000, 2077), (2000, 2100), (7139, 7141), (4294967290, 4294967295), (4294967295, 0),
           (0, 4294967295))


def fork_rules():
    yield 'fork::push', rule_push, HOOKS
    yield 'fork::select_longer', rule_longer, HOOKS
    yield 'fork::is_short_range', rule_short, HOOKS
    yield 'fork::density', rule_density, HOOKS
    for a, b in DENSITY:
        yield 'fork::density_at_%d_%d' % (a, b), rule_density_at(a, b), HOOKS, well_formed
    yield 'fork::select_none', rule_select([]), SELECT
    for n in (10, 11, 12):
        yield 'fork::select_%d' % n, rule_select([candidate('old', 'top', ['d%d' % i for i in range(n)])]), SELECT
    yield 'fork::select_two', rule_select([candidate('o1', 't1', ['d'] + Z), candidate('o2', 't2', Z + ['e'])]), SELECT
