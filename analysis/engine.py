"""Abstract interpreter over the exported MIR.

The abstract state maps locations to terms (terms.py) and terms to interval sets; control flow is
partitioned by branch outcome, loops are summarised at their header (linear counters and list
builders get closed forms, everything else is widened to an unknown), calls are inlined, and
effects on readers, writers and the allocator are recorded as a trace of abstract events.
Nothing of the analysed program is executed and no solver is involved: a branch is pruned only
when interval arithmetic refutes it."""
import struct, math
import json, os, sys, time
from terms import *

sys.setrecursionlimit(60000)
START = time.monotonic()


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.bodies = d['bodies']
        self.types = d['types']
        self.adts = d['adts']
        for v in self.adts.get('std::cmp::Ordering', {}).get('variants', ()):
            v['discr'] = {'Less': -1, 'Equal': 0, 'Greater': 1}[v['name']]
        self.roots = d['roots']
        self._loops = {}
        self.byroot = {}
        for r in self.roots:
            self.byroot.setdefault(r['path'], []).append(r)

    def find(self, path):
        """body id of the function with this path (crate prefix included)"""
        for i, b in enumerate(self.bodies):
            if b and b['path'] == path:
                return i
        return None

    def loops(self, body):
        k = id(body)
        if k in self._loops:
            return self._loops[k]
        n = len(body['bbs'])
        succ = [succs(bb['t']) for bb in body['bbs']]
        # iterative DFS for retreating edges
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        res = {}
        for u, h in back:
            reg = res.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in reg:
                    continue
                reg.add(x)
                work.extend(pred[x])
        self._loops[k] = res
        return res


def succs(t):
    k = t['t']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        out = [b for _, b in t['vals']]
        if t['else'] is not None:
            out.append(t['else'])
        return out
    if k in ('drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


class State:
    __slots__ = ('mem', 'facts', 'ev', 'n', 'ctx', 'undec', 'cn', 'idec', 'taint')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ev = ()
        self.n = 0
        self.ctx = ()
        self.undec = 0
        self.cn = None     # the decisions made by constants, latest first
        self.idec = 0
        self.taint = ''   # set behind a loop with an iteration that could not be interpreted

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.n = self.n
        s.ctx = self.ctx
        s.undec = self.undec
        s.cn = self.cn
        s.idec = self.idec
        s.taint = self.taint
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def emit(self, e):
        self.ev = self.ev + (e,)


def sym(st, kind):
    return ('sym', kind, st.fresh(), st.ctx)


IDENT_WRAP = ('std::boxed::Box', 'std::boxed::BoxRaw', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop',
              'std::ptr::Unique', 'std::ptr::NonNull', 'core::mem::MaybeUninit', 'core::mem::ManuallyDrop',
              'core::ptr::unique::Unique', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling')

RES, OPT = 'std::result::Result', 'std::option::Option'
CF = 'std::ops::ControlFlow'


def Ok(v):
    return ('agg', RES, 0, (v,))


def Err(v):
    return ('agg', RES, 1, (v,))


def Some(v):
    return ('agg', OPT, 1, (v,))


NONE = ('agg', OPT, 0, ())
UNIT = ('agg', 'tuple', None, ())


def tup(*xs):
    return ('agg', 'tuple', None, tuple(xs))


def ref_to(v):
    """reference to an immutable value"""
    return ('ref', ('V', v), ())


TEXT_TESTS = {
    'starts_with': lambda a, b: a.startswith(b), 'ends_with': lambda a, b: a.endswith(b), 'contains': lambda a, b: b in a,
    'eq_ignore_ascii_case': lambda a, b: a.lower() == b.lower() if a.isascii() and b.isascii() else None,
    'ascii': lambda a: a.isascii(),
}


def text_test(t, known):
    """value of a test of texts whose contents are known, or None"""
    f = TEXT_TESTS.get(t[1])
    if f is None:
        return None
    xs = []
    for a in t[2:]:
        v = a if a[0] == 's' else known(a)
        if v is None or v[0] != 's':
            return None
        xs.append(v[1])
    r = f(*xs)
    return None if r is None else int(r)


JOINS = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def fval(v):
    """the number a floating point constant is"""
    if v[0] != 'float':
        return None
    return struct.unpack('<d' if v[1] == 64 else '<f', v[2].to_bytes(v[1] // 8, 'little'))[0]


def fmake(x, w):
    try:
        return ('float', w, int.from_bytes(struct.pack('<d' if w == 64 else '<f', x), 'little'))
    except OverflowError:
        return ('float', w, int.from_bytes(struct.pack('<d' if w == 64 else '<f', math.copysign(math.inf, x)), 'little'))


def fcast(v, F, T):
    """a cast of a constant from or to a floating point type, as the language defines it"""
    if T['k'] == 'float':
        if is_c(v) and F['k'] == 'int':
            try:
                return fmake(float(v[1]), T['w']) if T['w'] == 64 or abs(v[1]) < 1 << 24 else None
            except OverflowError:
                return None
        x = fval(v)
        return None if x is None else fmake(x, T['w'])
    x = fval(v)
    if x is None or T['k'] != 'int':
        return None
    lo, hi = trange(T['w'], T['sg'])
    return ZERO if x != x else I(lo if x < lo else hi if x > hi else int(x))


def fconst(op, a, b):
    """an operation on floating point constants of double precision"""
    x, y = fval(a), fval(b)
    if x is None or y is None or a[1] != 64 or b[1] != 64:
        return None
    t = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(op)
    if t is not None:
        return TRUE if t else FALSE
    if op == 'Add':
        return fmake(x + y, 64)
    if op == 'Sub':
        return fmake(x - y, 64)
    if op == 'Mul':
        return fmake(x * y, 64)
    if op == 'Div' and y:
        return fmake(x / y, 64)
    return None


class Engine:
    unroll = ()       # functions whose calls of themselves are followed, to a depth
    unrolled = 1
    MAXPATHS = 6000
    MAXDEPTH = 120

    def __init__(self, prog, models=None, hooks=None):
        self.p = prog
        self.T = prog.types
        self.rng = {}
        self.hooks = hooks or ()
        self.depth = 0
        self.stack = []
        self.stats = {'functions': set(), 'blocks': 0, 'calls': 0, 'paths': 0, 'loops': 0, 'unmodelled': {}}
        self.budget = 400000
        self.deadline = min(time.monotonic() + 150, max(START + 600, time.monotonic() + 1))
        import models as M
        self.M = M
        self.models = M.MODELS

    # ------------------------------------------------------------ types
    def ty_s(self, tid):
        return self.T[tid]['s']

    def int_ty(self, tid):
        """(lo, hi) for integer-like types"""
        t = self.T[tid]
        k = t['k']
        if k == 'int':
            return trange(t['w'], t['sg'])
        if k == 'bool':
            return (0, 1)
        if k == 'char':
            return (0, 0x10ffff)
        return None

    def note_type(self, t, tid):
        if t[0] in ('i', 'agg', 'ref', 'vec', 's', 'bs', 'lin', 'trunc', 'B', 'cmp', 'clo', 'fn', 'not', 'out'):
            return
        r = self.int_ty(tid)
        if r and t not in self.rng:
            self.rng[t] = r
        if tid is not None and self.T[tid]['k'] == 'array' and isinstance(self.T[tid].get('n'), int):
            self.rng[('len', t)] = (self.T[tid]['n'],) * 2

    def discrs(self, path):
        a = self.p.adts.get(path)
        if not a or a['k'] != 'enum':
            return None
        return [v['discr'] for v in a['variants']]

    # ------------------------------------------------------------ intervals
    def base_iv(self, st, t, d=0):
        h = t[0]
        if h == 'i':
            return ((t[1], t[1]),)
        if h == 'lin':
            r = ((t[1], t[1]),)
            if len(t[2]) == 1:
                x, k = t[2][0]
                return iv_shift(iv_scale(self.ival(st, x, d + 1), k), t[1])
            for x, k in t[2]:
                r = iv_add(r, iv_scale(self.ival(st, x, d + 1), k))
            return r
        if h == 'trunc':
            lo, hi = trange(t[2], t[3])
            r = ((lo, hi),)
            if d < 12:
                a = self.ival(st, t[1], d + 1)
                if a and a[0][0] >= lo and a[-1][1] <= hi:
                    return a
                if a and a[0][0] > -INF and a[-1][1] < INF:
                    r = ()
                    for x, y in a:
                        l1, l2 = (x - lo) >> t[2], (y - lo) >> t[2]
                        if l1 != l2:
                            return ((lo, hi),)
                        r = iv_join(r, ((x - (l1 << t[2]), y - (l1 << t[2])),))
            return r
        if h in ('B', 'rb'):
            if h == 'B' and t[2] == 0 and d < 12:
                a = self.ival(st, t[1], d + 1)
                if a and a[0][0] >= 0 and a[-1][1] <= 255:
                    return a
            return ((0, 255),)
        if h == 'len':
            return ((0, (1 << 63) - 1),)
        if h in ('cmp', 'not', 'out', 'streq', 'pred', 'peq'):
            return ((0, 1),)
        if h == 'k':
            return ((0, (1 << 64) - 1),)
        if h == 'shr':
            a = self.ival(st, t[1], d + 1)
            lo, hi = a[0][0], a[-1][1]
            return ((lo >> t[2] if lo > -INF else lo, hi >> t[2] if hi < INF else hi),)
        if h == 'flog2':
            a = self.ival(st, t[1], d + 1)
            a = iv_meet(a, ((1, INF),))
            if not a:
                return FULL
            return ((a[0][0].bit_length() - 1, a[-1][1].bit_length() - 1 if a[-1][1] < INF else INF),)
        if h == 'min':
            a, b = self.ival(st, t[1], d + 1), self.ival(st, t[2], d + 1)
            return ((min(a[0][0], b[0][0]), min(a[-1][1], b[-1][1])),)
        if h == 'max':
            a, b = self.ival(st, t[1], d + 1), self.ival(st, t[2], d + 1)
            return ((max(a[0][0], b[0][0]), max(a[-1][1], b[-1][1])),)
        if h == 'and':
            r = (0, INF)
            hi = INF
            for x in t[1:]:
                a = self.ival(st, x, d + 1)
                if a and a[0][0] >= 0:
                    hi = min(hi, a[-1][1])
            return ((0, hi),) if hi < INF else FULL
        if h in ('or', 'xor'):
            m = 0
            for x in t[1:]:
                a = self.ival(st, x, d + 1)
                if not a or a[0][0] < 0 or a[-1][1] >= INF:
                    return FULL
                m = max(m, a[-1][1])
            return ((0, (1 << m.bit_length()) - 1),)
        if h == 'div' and is_c(t[2]) and t[2][1] > 0:
            a = self.ival(st, t[1], d + 1)
            if a and a[0][0] >= 0:
                return ((a[0][0] // t[2][1], a[-1][1] // t[2][1] if a[-1][1] < INF else INF),)
        if h == 'rem' and is_c(t[2]) and t[2][1] > 0:
            a = self.ival(st, t[1], d + 1)
            if a and a[0][0] >= 0:
                return ((0, t[2][1] - 1),)
        return FULL

    def ival(self, st, t, d=0):
        if t[0] == 'discr' and t[1][0] == 'cmp3':
            # the sign of a difference
            x = self.iv(st, sub(t[1][1], t[1][2])) if d < 8 else ((-1, 1),)
            r = tuple((v, v) for v, m in ((-1, (-INF, -1)), (0, (0, 0)), (1, (1, INF))) if not x or iv_meet(x, (m,)))
            r = ((r[0][0], r[-1][1]),) if len(r) == 3 else r
        else:
            r = self.base_iv(st, t, d)
        f = st.facts.get(t)
        if f is not None and f[0] == 'iv':
            r = iv_meet(r, f[1])
        g = self.rng.get(t)
        if g is not None:
            r = iv_meet(r, (g,))
        # facts about differences: t = a - b
        return r

    def refine(self, st, t, iv):
        """t lies in iv; False when that is refuted"""
        t = self.norm(st, t)
        if t[0] == 'discr' and t[1][0] == 'cmp3':
            ok = [m for v, m in ((-1, (-INF, -1)), (0, (0, 0)), (1, (1, INF))) if iv_meet(iv, ((v, v),))]
            return bool(ok) and self.refine(st, sub(self.norm(st, t[1][1]), self.norm(st, t[1][2])), tuple(ok))
        if t[0] == 'lin' and len(t[2]) == 1:
            x, k = t[2][0]
            iv2 = iv_shift(iv, -t[1])
            if k in (1, -1):
                return self.refine(st, x, iv_scale(iv2, k))
            out = []
            for lo, hi in iv2:
                if k < 0:
                    lo, hi = -hi, -lo
                kk = abs(k)
                lo2 = -INF if lo <= -INF else -((-lo) // kk)
                hi2 = INF if hi >= INF else hi // kk
                if lo2 <= hi2:
                    out.append((lo2, hi2))
            return self.refine(st, x, tuple(sorted(out)))
        if t[0] == 'lin':
            # sign-normalise the key and drop the constant
            c = t[1]
            key = ('lin', 0, t[2])
            iv = iv_shift(iv, -c)
            if t[2][0][1] < 0:
                key = scale(key, -1)
                iv = iv_scale(iv, -1)
            cur = self.ival_lin(st, key)
            new = iv_meet(cur, iv)
            if not new:
                return False
            st.facts[key] = ('iv', new)
            # bound single terms when all the others are constants is covered by len==1
            if len(key[2]) == 2:
                for idx in (0, 1):
                    (x, k), (y, m) = key[2][idx], key[2][1 - idx]
                    if k in (1, -1):
                        b = iv_add(new_hull(new), iv_scale(self.ival(st, y), -m))
                        b = iv_scale(b, k)
                        cx = self.ival(st, x)
                        nx = iv_meet(cx, b)
                        if not nx:
                            return False
                        if nx != cx:
                            st.facts[x] = ('iv', nx)
            return True
        cur = self.ival(st, t)
        new = iv_meet(cur, iv)
        if not new:
            return False
        if new != cur:
            st.facts[t] = ('iv', new)
        # what it says about the operand
        if t[0] == 'flog2':
            lo, hi = max(new[0][0], 0), new[-1][1]
            if not self.refine(st, t[1], ((1 << lo, (1 << (hi + 1)) - 1 if hi < 256 else INF),)):
                return False
        if t[0] == 'shr':
            lo, hi = new[0][0], new[-1][1]
            if not self.refine(st, t[1], (((lo << t[2]) if lo > -INF else lo, (((hi + 1) << t[2]) - 1) if hi < INF else hi),)):
                return False
        return True

    def ival_lin(self, st, key):
        r = self.base_iv(st, key)
        f = st.facts.get(key)
        if f is not None:
            r = iv_meet(r, f[1])
        return r

    def iv(self, st, t):
        """best interval set for t, using facts on linear combinations"""
        t = self.norm(st, t)
        r = self.ival(st, t)
        if t[0] == 'lin' and len(t[2]) > 1:
            key = ('lin', 0, t[2])
            if t[2][0][1] < 0:
                key = scale(key, -1)
                r = iv_meet(r, iv_shift(iv_scale(self.ival_lin(st, key), -1), t[1]))
            else:
                r = iv_meet(r, iv_shift(self.ival_lin(st, key), t[1]))
        return r

    def norm(self, st, t):
        """renormalise an integer term under the facts of st (truncations that became lossless, ...)"""
        h = t[0]
        if h == 'trunc':
            a = self.norm(st, t[1])
            r = self.iv0(st, a)
            lo, hi = trange(t[2], t[3])
            if r and r[0][0] >= lo and r[-1][1] <= hi:
                return a
            if a[0] == 'lin':
                # the same residue with coefficients of least absolute value
                m, b = 1 << t[2], centred(a, 1 << t[2])
                for c in (b, add(b, I(m)), sub(b, I(m))):
                    if c != a:
                        r = self.iv0(st, c)
                        if r and r[0][0] >= lo and r[-1][1] <= hi:
                            return c
            return t
        if h == 'B':
            r = self.iv0(st, t[1])
            if t[2] == 0 and r and r[0][0] >= 0 and r[-1][1] <= 255:
                return self.norm(st, t[1])
            f = st.facts.get(t)
            if f is not None and len(f[1]) == 1 and f[1][0][0] == f[1][0][1]:
                return I(f[1][0][0])
            if r and len(r) == 1 and r[0][0] >> (8 * t[2]) == r[0][1] >> (8 * t[2]) and r[0][0] > -INF and r[0][1] < INF:
                return I((r[0][0] >> (8 * t[2])) & 255)
            return t
        if h == 'lin':
            if any(x[0] in ('trunc', 'B', 'len') or x in st.facts or x[0] in ('fld',) for x, _ in t[2]):
                r = I(t[1])
                for x, k in t[2]:
                    r = add(r, scale(self.norm(st, x), k))
                return r
            return t
        f = st.facts.get(t)
        if f is not None and f[0] == 'iv' and len(f[1]) == 1 and f[1][0][0] == f[1][0][1]:
            return I(f[1][0][0])
        return t

    def iv0(self, st, t):
        r = self.ival(st, t)
        if t[0] == 'lin' and len(t[2]) > 1:
            key = ('lin', 0, t[2])
            if t[2][0][1] < 0:
                key = scale(key, -1)
                return iv_meet(r, iv_shift(iv_scale(self.ival_lin(st, key), -1), t[1]))
            return iv_meet(r, iv_shift(self.ival_lin(st, key), t[1]))
        return r

    # ------------------------------------------------------------ predicates
    def truth(self, st, t):
        """1, 0 or None"""
        t0 = t
        if t[0] == 'i':
            return 1 if t[1] else 0
        if t[0] == 'not':
            x = self.truth(st, t[1])
            return None if x is None else 1 - x
        if t[0] == 'cmp':
            d = self.iv(st, sub(t[2], t[3]))
            if not d:
                return None
            lo, hi = d[0][0], d[-1][1]
            if t[1] == '<':
                return 1 if hi < 0 else 0 if lo >= 0 else None
            if t[1] == '<=':
                return 1 if hi <= 0 else 0 if lo > 0 else None
            if t[1] == '==':
                if lo == hi == 0:
                    return 1
                if not iv_meet(d, ((0, 0),)):
                    return 0
                return None
        if t[0] == 'out':
            r = self.iv(st, t[1])
            if iv_sub(r, ((t[2], t[3]),)):
                return 0
            if not iv_meet(r, ((t[2], t[3]),)):
                return 1
            return None
        if t[0] == 'streq':
            if t[1] == t[2]:
                return 1
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                f = st.facts.get(('strval', a))
                if f is not None:
                    if b[0] == 's':
                        return 1 if f[1] == b[1] else 0
            if t[1][0] == 's' and t[2][0] == 's':
                return 1 if t[1][1] == t[2][1] else 0
        if t[0] == 'pred':
            r = text_test(t, lambda a: st.facts.get(('strval', a)))
            if r is not None:
                return r
            if t[1] in JOINS:
                a, b = self.truth(st, t[2]), self.truth(st, t[3])
                if a is not None and b is not None:
                    return JOINS[t[1]](a, b)
                if t[1] != 'xor' and int(t[1] == 'or') in (a, b):
                    return int(t[1] == 'or')
        f = st.facts.get(t0)
        if f is not None and f[0] == 'iv':
            r = f[1]
            if r == ((1, 1),):
                return 1
            if r == ((0, 0),):
                return 0
        if t[0] not in ('cmp', 'not', 'out', 'streq'):
            r = self.iv(st, t)
            if r and r[0][0] == r[-1][1] and abs(r[0][0]) < INF:
                return 1 if r[0][0] else 0
        return None

    def assume(self, st, t, val):
        """add the fact that boolean t is val; False if refuted"""
        x = self.truth(st, t)
        if x is not None:
            return x == (1 if val else 0)
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        if t[0] == 'cmp':
            d = sub(self.norm(st, t[2]), self.norm(st, t[3]))
            if t[1] == '<':
                return self.refine(st, d, ((-INF, -1),) if val else ((0, INF),))
            if t[1] == '<=':
                return self.refine(st, d, ((-INF, 0),) if val else ((1, INF),))
            return self.refine(st, d, ((0, 0),) if val else ((-INF, -1), (1, INF)))
        if t[0] == 'out':
            return self.refine(st, t[1], iv_not(((t[2], t[3]),)) if val else ((t[2], t[3]),))
        if t[0] == 'streq' and val:
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] == 's':
                    st.facts[('strval', a)] = ('s', b[1])
                    # what was tested of the text before must fit
                    for g, f in st.facts.items():
                        if g[0] == 'pred' and g[2:] and a in g[2:]:
                            r = text_test(g, lambda x: ('s', b[1]) if x == a else st.facts.get(('strval', x)))
                            if r is not None and f[0] == 'iv' and f[1] in (((0, 0),), ((1, 1),)) and f[1] != ((r, r),):
                                return False
        if t[0] == 'pred' and t[1] in JOINS:
            a, b = t[2], t[3]
            if t[1] != 'xor' and bool(val) == (t[1] == 'and'):
                return self.assume(st, a, val) and self.assume(st, b, val)
            for a, b in ((a, b), (b, a)):
                x = self.truth(st, a)
                if x is not None:
                    return self.assume(st, b, x ^ int(bool(val)) if t[1] == 'xor' else val)
        st.facts[t] = ('iv', ((1, 1),) if val else ((0, 0),))
        return True

    def split(self, st, t):
        """[(truth, state)] for the feasible outcomes of boolean t"""
        x = self.truth(st, t)
        if x is not None:
            if t[0] == 'cmp' and not (is_c(t[2]) and is_c(t[3])):
                st.idec += 1
            return [(x, st)]
        if t[0] == 'pred' and t[1] in JOINS:
            # one part at a time
            return [(self.truth(s2, t), s2) for _, s in self.split(st, t[2]) for _, s2 in (
                [(0, s)] if self.truth(s, t) is not None else self.split(s, t[3]))]
        out = []
        for v in (1, 0):
            s = st.fork()
            if self.assume(s, t, v):
                out.append((v, s))
        if len(out) == 2:
            for _, s in out:
                s.undec += 1
        return out

    def lt(self, a, b):
        return ('cmp', '<', a, b)

    def eq(self, a, b):
        return ('cmp', '==', a, b)

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        k = root[0]
        if k == 'V':
            return root[1]
        v = st.mem.get(root)
        if v is not None:
            return v
        if k == 'D':
            return ('*', root[1])
        raise Unk('read of uninitialised %s' % (root,))

    def proj_val(self, st, v, p):
        h = v[0]
        if p[0] == 'f':
            if h == 'agg':
                if p[1] is not None and v[2] is not None and p[1] != v[2]:
                    raise Unk('downcast of variant %s to %s' % (v[2], p[1]))
                if p[2] < len(v[3]):
                    return v[3][p[2]]
                raise Unk('field %s of %s' % (p, show(v)))
            if h == 'clo':
                return v[2][p[2]]
            if h == 'upd':
                for q, x in reversed(v[2]):
                    if q == p:
                        return x
                return self.proj_val(st, v[1], p)
            if h == 'i' or h == 'ref' or h == 'vec':
                raise Unk('field of %s' % show(v))
            return ('fld', v, p[1], p[2])
        if p[0] == 'i':
            return seq_get(v, p[1])
        if p[0] == 'sub':
            return slice_of(v, p[1], p[2])
        raise Unk('projection %s' % (p,))

    def read(self, st, loc):
        v = self.root_val(st, loc[0])
        for p in loc[1]:
            v = self.proj_val(st, v, p)
        return v

    def set_proj(self, st, v, projs, new):
        if not projs:
            return new
        p = projs[0]
        if p[0] == 'f':
            old = self.proj_val(st, v, p) if len(projs) > 1 else None
            x = self.set_proj(st, old, projs[1:], new) if len(projs) > 1 else new
            if v[0] == 'agg':
                if p[1] is not None and v[2] is not None and v[2] != p[1]:
                    raise Unk('write to other variant')
                fs = list(v[3])
                if p[2] >= len(fs):
                    raise Unk('field write')
                fs[p[2]] = x
                return ('agg', v[1], v[2], tuple(fs))
            if v[0] == 'clo':
                cs = list(v[2])
                cs[p[2]] = x
                return ('clo', v[1], tuple(cs))
            if v[0] == 'upd':
                return ('upd', v[1], tuple(q for q in v[2] if q[0] != p) + ((p, x),))
            return ('upd', v, ((p, x),))
        if p[0] == 'i':
            n = seq_len(v)
            if is_c(p[1]) and v[0] == 'agg' and p[1][1] < len(v[3]):
                fs = list(v[3])
                fs[p[1][1]] = self.set_proj(st, fs[p[1][1]], projs[1:], new)
                return ('agg', v[1], v[2], tuple(fs))
            if v[0] == 'vec' and is_c(p[1]) and all(s[0] == 'one' for s in v[1][:p[1][1] + 1]) and p[1][1] < len(v[1]):
                ss = list(v[1])
                ss[p[1][1]] = ('one', self.set_proj(st, ss[p[1][1]][1], projs[1:], new))
                return ('vec', tuple(ss))
            if v[0] in ('bs',) and is_c(p[1]):
                ss = [('one', I(b)) for b in v[1]]
                ss[p[1][1]] = ('one', new)
                return ('agg', 'array', None, tuple(x[1] for x in ss))
            return ('havseq', st.fresh(), st.ctx, v)   # an assignment to an element keeps the length
        if p[0] == 'sub':
            # the part keeps its length, the rest of the sequence stays
            off, end = self.norm(st, p[1]), self.norm(st, p[2])
            segs = segs_of(v)
            if is_c(off) and is_c(end) and off[1] <= end[1] <= len(segs) and all(x[0] == 'one' for x in segs[:end[1]]):
                lo, hi = off[1], end[1]
                part = ('agg', 'array', None, tuple(x[1] for x in segs[lo:hi]))
                whole = self.set_proj(st, part, projs[1:], new)
                part = segs_of(whole)
                if not all(x[0] == 'one' for x in part):
                    r = self.iv(st, self.norm(st, seq_len(whole)))
                    if r and r[0][0] == r[-1][1] == hi - lo:
                        part = tuple(('one', self.norm(st, seq_get(whole, I(i)))) for i in range(hi - lo))
                if all(x[0] == 'one' for x in part) and len(part) == hi - lo:
                    segs = tuple(segs[:lo]) + tuple(part) + tuple(segs[hi:])
                    return ('agg', 'array', None, tuple(x[1] for x in segs)) if all(x[0] == 'one' for x in segs) and v[0] != 'vec' else ('vec', segs)
            raise Unk('write through a subslice')
        raise Unk('write projection %s' % (p,))

    def write(self, st, loc, new):
        root, projs = loc
        if root[0] == 'V':
            raise Unk('write through a shared value')
        if not projs:
            st.mem[root] = new
            return
        try:
            v = self.root_val(st, root)
        except Unk:
            v = ('sym', 'uninit', 0, ())
        st.mem[root] = self.set_proj(st, v, projs, new)

    def deref_loc(self, st, v):
        """location a pointer value points to"""
        if v[0] == 'ref':
            return (v[1], v[2])
        if v[0] in ('s', 'bs', 'agg', 'vec', 'i', 'clo', 'fn'):
            return (('V', v), ())
        return (('D', v), ())

    def loc(self, st, fr, place):
        """(location, type id) of a MIR place"""
        root = ('L', fr['fid'], place[0])
        projs = ()
        tid = fr['body']['locals'][place[0]]
        var = None
        for e in place[1:]:
            T = self.T[tid] if tid is not None else {}
            if e == '*':
                if T.get('k') == 'adt' and T.get('path') in IDENT_WRAP:
                    tid = T['args'][0] if T.get('args') else None
                    continue
                v = self.read(st, (root, projs))
                root, projs = self.deref_loc(st, v)
                tid = T.get('e')
                var = None
                continue
            if e[0] == 'd':
                var = e[1]
                continue
            if e[0] == 'f':
                if T.get('k') == 'adt' and T.get('path') in IDENT_WRAP and var is None:
                    tid = e[2]
                    continue
                projs = projs + (('f', var, e[1]),)
                var = None
                tid = e[2]
                continue
            if e[0] == 'i':
                idx = self.norm(st, self.read(st, (('L', fr['fid'], e[1]), ())))
                projs = projs + (('i', idx),)
                tid = T.get('e')
                continue
            if e[0] == 'ci':
                off = e[1]
                if e[2]:
                    n = seq_len(self.read(st, (root, projs)))
                    idx = sub(n, I(off))
                else:
                    idx = I(off)
                projs = projs + (('i', idx),)
                tid = T.get('e')
                continue
            if e[0] == 'ss':
                n = seq_len(self.read(st, (root, projs)))
                frm, to, fe = e[1], e[2], e[3] if len(e) > 3 else True
                end = sub(n, I(to)) if fe else I(to)
                projs = projs + (('sub', I(frm), end),)
                continue
            raise Unk('projection %s' % (e,))
        return (root, projs), tid

    # ------------------------------------------------------------ operands and rvalues
    def const(self, st, fr, k):
        tid = k.get('ty')
        T = self.T[tid] if tid is not None else {}
        if 'fn' in k:
            return ('fn', Callee(k['fn']))
        if 'promoted' in k:
            pb = fr['body']['promoted'][k['promoted']]
            s2 = st.fork()
            f2 = {'fid': s2.fresh(), 'body': pb, 'loops': self.p.loops(pb)}
            outs = self.flow(s2, f2, 0, None, None)
            if len(outs) != 1 or outs[0][0] != 'ret':
                raise Unk('promoted')
            s2 = outs[0][1]
            st.n = s2.n
            return self.freeze(s2, s2.mem[('L', f2['fid'], 0)])
        if 'bits' in k:
            b = int(k['bits'])
            if T.get('k') == 'int' and T['sg']:
                w = T['w']
                if b >= 1 << (w - 1):
                    b -= 1 << w
            if T.get('k') == 'float':
                return ('float', T['w'], b)
            if T.get('k') in ('int', 'bool', 'char'):
                return I(b)
            return self.const_scalar(tid, b)
        if 'val' in k:
            return self.const_val(st, k['val'], tid)
        if 'cparam' in k:
            t = ('sym', 'const ' + str(k['cparam']), 0, ())
            if tid is not None:
                self.note_type(t, tid)
            return t
        if 'cpath' in k:
            t = ('sym', 'const ' + str(k['cpath']), 0, ())
            if tid is not None:
                self.note_type(t, tid)
            return t
        if T.get('k') == 'tuple' and not T.get('ts'):
            return UNIT
        if T.get('k') == 'adt':
            return ('agg', T['path'], 0, ())
        if T.get('k') == 'fndef':
            raise Unk('fndef const')
        return ('sym', 'const', st.fresh(), (('t', T.get('s', '?')),))

    def freeze(self, st, v):
        """v with the references to locals of st replaced by references to their values"""
        if v[0] == 'ref' and v[1][0] in ('L', 'H'):
            return ref_to(self.freeze(st, self.read(st, (v[1], v[2]))))
        if v[0] == 'agg':
            return ('agg', v[1], v[2], tuple(self.freeze(st, x) for x in v[3]))
        return v

    def const_scalar(self, tid, b):
        T = self.T[tid]
        if T['k'] == 'adt':
            a = self.p.adts.get(T['path'])
            if a and a['k'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if v['discr'] == b and not v['fields']:
                        return ('agg', T['path'], i, ())
            if a and a['k'] == 'struct' and len(a['variants'][0]['fields']) == 1:
                return ('agg', T['path'], 0, (I(b),))
        return ('sym', 'const%s' % b, 0, (('t', T['s']),))

    def const_val(self, st, v, tid):
        if 'str' in v:
            return ('s', v['str'])
        if 'bytes' in v:
            return ref_to(('bs', bytes(v['bytes'])))
        if 'refto' in v:
            return ref_to(self.const_val(st, v['refto'], None))
        if 'static' in v:
            return ref_to(('sym', 'static ' + v['static'], 0, ()))
        if 'int' in v:
            b = int(v['int'])
            T = self.T[v['ty']] if 'ty' in v else {}
            if T.get('k') == 'int' and T['sg'] and b >= 1 << (T['w'] - 1):
                b -= 1 << T['w']
            return I(b)
        if 'zst' in v:
            T = self.T[v['zst']]
            if T['k'] == 'adt':
                return ('agg', T['path'], 0, ())
            if T['k'] == 'tuple':
                return UNIT
            if T['k'] == 'array':
                return ('agg', 'array', None, ())
            return ('sym', 'zst', 0, (('t', T['s']),))
        if 'agg' in v:
            T = self.T[v['agg']]
            fs = tuple(self.const_val(st, x, None) if isinstance(x, dict) else ('sym', 'constv', 0, (('t', T['s']), ('i', n)))
                       for n, x in enumerate(v['fields']))
            if T['k'] == 'adt':
                if T['path'] in IDENT_WRAP and len(fs) == 1:
                    return fs[0]
                return ('agg', T['path'], v.get('variant') or 0, fs)
            return ('agg', 'array' if T['k'] in ('array', 'slice') else 'tuple', None, fs)
        return ('sym', 'constv', 0, (('t', json.dumps(v)[:80]),))

    def operand(self, st, fr, o):
        if 'c' in o or 'm' in o:
            pl = o.get('c') or o.get('m')
            loc, tid = self.loc(st, fr, pl)
            v = self.read(st, loc)
            if tid is not None:
                self.note_type(v, tid)
            if v[0] in ('trunc', 'B', 'lin'):
                v = self.norm(st, v)
            return v
        if 'k' in o:
            return self.const(st, fr, o['k'])
        return ('sym', 'rt', 0, ())

    def op_ty(self, fr, o):
        if 'k' in o:
            return o['k'].get('ty')
        pl = o.get('c') or o.get('m')
        if pl is None:
            return None
        tid = fr['body']['locals'][pl[0]]
        for e in pl[1:]:
            if e == '*':
                tid = self.T[tid].get('e')
            elif e[0] == 'f':
                tid = e[2]
            elif e[0] in ('i', 'ci'):
                tid = self.T[tid].get('e')
            if tid is None:
                return None
        return tid

    def trunc(self, st, t, w, signed):
        lo, hi = trange(w, signed)
        r = self.iv(st, t)
        if r and r[0][0] >= lo and r[-1][1] <= hi:
            return self.norm(st, t)
        x = trunc_raw(self.norm(st, t), w, signed)
        return self.norm(st, x)

    def byte(self, st, t, i):
        t = self.norm(st, t)
        r = self.iv(st, t)
        if i == 0 and r and r[0][0] >= 0 and r[-1][1] <= 255:
            return t
        if r and r[0][0] >= 0 and r[-1][1] < (1 << (8 * i)):
            return ZERO
        return self.norm(st, byte(t, i))

    def cast(self, st, v, frm, to):
        F, T = self.T[frm], self.T[to]
        self.note_type(v, frm)
        if v[0] == 'ref' and F.get('k') == 'ref' and F.get('e') is not None and self.T[F['e']]['k'] == 'array':
            try:
                self.note_type(self.read(st, (v[1], v[2])), F['e'])
            except Unk:
                pass
        ik = ('int', 'bool', 'char')
        if T['k'] == 'int' and F['k'] in ik:
            return self.trunc(st, v, T['w'], T['sg'])
        if T['k'] == 'char' and F['k'] in ik:
            return v
        if T['k'] == 'float' or F['k'] == 'float':
            x = fcast(v, F, T)
            return x if x is not None else ('fcast', v, F['s'], T['s'])
        if T['k'] == 'int' and F['k'] == 'adt' and v[0] == 'agg':
            ds = self.discrs(F['path'])
            return I(ds[v[2]])
        return v

    def binop(self, st, op, a, b, tid):
        R = self.int_ty(tid) if tid is not None else None
        if op == 'Cmp':
            return ('cmp3', a, b)
        T = self.T[tid] if tid is not None else {}
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if T.get('k') == 'float':
                x = fconst(op, a, b)
                return x if x is not None else ('pred', op, a, b)
            if R is None:
                t = ('peq', a, b)
                if a == b:
                    t = TRUE
                if op == 'Ne':
                    return ('not', t)
                if op == 'Eq':
                    return t
                return ('pred', op, a, b)
            if R == (0, 1):
                # booleans
                if op == 'Eq' and is_c(b):
                    return a if b[1] else ('not', a)
                if op == 'Ne' and is_c(b):
                    return ('not', a) if b[1] else a
            t = {'Eq': ('cmp', '==', a, b), 'Ne': ('not', ('cmp', '==', a, b)), 'Lt': ('cmp', '<', a, b),
                 'Le': ('cmp', '<=', a, b), 'Gt': ('cmp', '<', b, a), 'Ge': ('cmp', '<=', b, a)}[op]
            x = self.truth(st, t)
            return t if x is None else I(x)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if T.get('k') == 'float':
            x = fconst(op, a, b)
            return x if x is not None else ('fop', op, a, b)
        if R is None:
            return ('op', op, a, b)
        w, sg = (T['w'], T['sg']) if T['k'] == 'int' else (1, False)
        if T.get('k') == 'bool':
            if base == 'BitAnd':
                for x, y in ((a, b), (b, a)):
                    z = self.truth(st, x)
                    if z is not None:
                        return y if z else FALSE
                return ('pred', 'and', a, b)
            if base == 'BitOr':
                for x, y in ((a, b), (b, a)):
                    z = self.truth(st, x)
                    if z is not None:
                        return TRUE if z else y
                return ('pred', 'or', a, b)
            if base == 'BitXor':
                if is_c(b):
                    return ('not', a) if b[1] else a
                return ('pred', 'xor', a, b)
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = add(a, b)
            elif base == 'Sub':
                r = sub(a, b)
            elif is_c(a):
                r = scale(b, a[1])
            elif is_c(b):
                r = scale(a, b[1])
            else:
                r = ('mul',) + tuple(sorted((a, b), key=repr))
            if op.endswith('WithOverflow'):
                o = ('out', r, R[0], R[1])
                x = self.truth(st, o)
                return tup(self.trunc(st, r, w, sg), o if x is None else I(x))
            return self.trunc(st, r, w, sg)
        if base == 'Shl':
            if is_c(b):
                return self.trunc(st, scale(a, 1 << (b[1] % w)), w, sg)
            return self.ranged(('op', 'shl', a, b, w, sg), R)
        if base == 'Shr':
            if is_c(b):
                return self.shr(st, a, b[1] % w)
            return self.ranged(('op', 'shr', a, b), R)
        if base == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    m = y[1]
                    if m == 0:
                        return ZERO
                    if m < 0:
                        m &= (1 << w) - 1
                    if m & (m + 1) == 0:  # low mask
                        k = m.bit_length()
                        if k == w:
                            return x
                        return self.trunc(st, x, k, False)
            return self.ranged(('and',) + tuple(sorted((a, b), key=repr)), R)
        if base in ('BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                r = self.iv(st, y)
                if r and r[0][0] >= 0 and r[-1][1] < INF:
                    k = r[-1][1].bit_length()
                    if low_zero(x) >= k:
                        z = add(x, y)
                        return self.trunc(st, z, w, sg)
            if is_c(a) and is_c(b):
                m = (1 << w) - 1
                z = (a[1] & m) | (b[1] & m) if base == 'BitOr' else (a[1] & m) ^ (b[1] & m)
                return trunc_raw(I(z), w, sg)
            return self.ranged((('or',) if base == 'BitOr' else ('xor',)) + tuple(sorted((a, b), key=repr)), R)
        if base == 'Div':
            if is_c(b) and b[1] > 0:
                r = self.iv(st, a)
                if is_c(a) and a[1] >= 0:
                    return I(a[1] // b[1])
                if r and r[0][0] >= 0:
                    if b[1] & (b[1] - 1) == 0:
                        return self.shr(st, a, b[1].bit_length() - 1)
            return self.ranged(('div', a, b), R)
        if base == 'Rem':
            if is_c(b) and b[1] > 0:
                r = self.iv(st, a)
                if r and r[0][0] >= 0:
                    if is_c(a):
                        return I(a[1] % b[1])
                    if b[1] & (b[1] - 1) == 0:
                        return self.trunc(st, a, b[1].bit_length() - 1, False)
            return self.ranged(('rem', a, b), R)
        return self.ranged(('op', op, a, b), R)

    def ranged(self, t, R):
        if R and t not in self.rng:
            self.rng[t] = R
        return t

    def shr(self, st, a, k):
        a = self.norm(st, a)
        if k == 0:
            return a
        if is_c(a):
            return I(a[1] >> k)
        r = self.iv(st, a)
        if r and r[0][0] >= 0 and r[-1][1] < (1 << k):
            return ZERO
        # multiples
        c, d = lin_of(a)
        m = 1 << k
        if c % m == 0 and all(x % m == 0 for x in d.values()):
            return mk_lin(c // m, {t: x // m for t, x in d.items()})
        # multiples plus a small remainder
        hi = {t: x for t, x in d.items() if x % m == 0}
        lo = {t: x for t, x in d.items() if x % m}
        if hi and all(x > 0 for x in lo.values()):
            rest = mk_lin(c % m, lo)
            rr = self.iv(st, rest)
            if rr and rr[0][0] >= 0 and rr[-1][1] < m:
                return mk_lin(c // m, {t: x // m for t, x in hi.items()})
        if a[0] == 'shr':
            return ('shr', a[1], a[2] + k)
        return ('shr', a, k)

    def discriminant(self, st, v, tid):
        T = self.T[tid] if tid is not None else {}
        if v[0] == 'agg':
            if v[1] in ('tuple', 'array'):
                return ZERO
            ds = self.discrs(v[1])
            if ds is None:
                return I(v[2] or 0)
            return I(ds[v[2]])
        if v[0] == 'upd':
            v = v[1]
        t = ('discr', v)
        if t not in self.rng and T.get('k') == 'adt':
            ds = self.discrs(T['path'])
            if ds:
                self.rng[t] = (min(ds), max(ds))
        return t

    def rvalue(self, st, fr, r, dest_tid):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            loc, tid = self.loc(st, fr, r[1])
            if tid is not None and self.T[tid]['k'] == 'array':
                try:
                    self.note_type(self.read(st, loc), tid)
                except Unk:
                    pass
            # reborrow of an opaque pointer keeps the pointer
            if loc[0][0] == 'D' and not loc[1] and loc[0] not in st.mem and not r[2]:
                return ('ref', loc[0], ())
            return ('ref', loc[0], loc[1])
        if k == 'cast':
            kind = r[1]
            F = self.T[r[3]] if r[3] is not None else {}
            if ('Transmute' in kind or 'Box' in kind) and F.get('k') == 'adt' and F.get('path') in IDENT_WRAP:
                o = r[2]
                pl = o.get('c') or o.get('m')
                loc, _ = self.loc(st, fr, pl)
                return ('ref', loc[0], loc[1])
            v = self.operand(st, fr, r[2])
            if 'Transmute' in kind:
                T = self.T[r[4]]
                if F.get('k') == 'array' and T.get('k') in ('int',):
                    return self.le_compose(st, [x for x in self.elems(v)], T['sg'])
                if F.get('k') == 'int' and T.get('k') == 'int':
                    return self.cast(st, v, r[3], r[4])
                if F.get('k') == 'int' and T.get('k') == 'array':
                    return ('agg', 'array', None, tuple(self.byte(st, v, i) for i in range(F['w'] // 8)))
                return v
            if kind.startswith('IntToInt') or kind in ('IntToInt',):
                return self.cast(st, v, r[3], r[4])
            return self.cast(st, v, r[3], r[4])
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            tid = self.op_ty(fr, r[2])
            return self.binop(st, r[1], a, b, tid)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            tid = self.op_ty(fr, r[2])
            T = self.T[tid] if tid is not None else {}
            if r[1] == 'Not':
                if T.get('k') == 'bool':
                    return I(1 - a[1]) if is_c(a) else a[1] if a[0] == 'not' else ('not', a)
                if T.get('k') == 'int':
                    return sub(I(-1), a) if T['sg'] else sub(I((1 << T['w']) - 1), a)
            if r[1] == 'Neg':
                if T.get('k') == 'int':
                    return self.trunc(st, scale(a, -1), T['w'], T['sg'])
                return ('fneg', a)
            if r[1] == 'PtrMetadata':
                v = self.read(st, self.deref_loc(st, a)) if a[0] == 'ref' else a
                return seq_len(v)
            return ('un', r[1], a)
        if k == 'discr':
            loc, tid = self.loc(st, fr, r[1])
            return self.discriminant(st, self.read(st, loc), tid)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, x) for x in r[2])
            kd = r[1]
            if kd[0] in ('array', 'tuple'):
                return ('agg', kd[0], None, ops)
            if kd[0] == 'adt':
                if kd[1] in IDENT_WRAP and len(ops) >= 1:
                    return ops[0]
                if len(kd) > 4 and kd[4] is not None:
                    return ops[0]
                return ('agg', kd[1], kd[2], ops)
            if kd[0] == 'closure':
                return ('clo', kd[2], ops)
            raise Unk('aggregate %s' % (kd,))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, str):
                n = int(n) if n.isdigit() else None
            if n is None:
                T = self.T[dest_tid] if dest_tid is not None else {}
                n = T.get('n')
                n = int(n) if isinstance(n, int) or (isinstance(n, str) and n.isdigit()) else None
            if n is not None and n <= 4096:
                return ('agg', 'array', None, (v,) * n)
            return mk_vec((('c', I(n) if n is not None else sym(st, 'n'), ('k', ('rep', st.fresh())), v),))
        if k == 'len':
            loc, tid = self.loc(st, fr, r[1])
            return seq_len(self.read(st, loc))
        if k == 'rawptr' or k == 'addr':
            loc, tid = self.loc(st, fr, r[1])
            return ('ref', loc[0], loc[1])
        raise Unk('rvalue %s' % k)

    def elems(self, v):
        ss = segs_of(v)
        if any(s[0] != 'one' for s in ss):
            raise Unk('elements of %s' % show(v))
        return [s[1] for s in ss]

    def le_compose(self, st, bs, signed):
        r = ZERO
        for i, b in enumerate(bs):
            r = add(r, scale(b, 1 << (8 * i)))
        if signed:
            return self.trunc(st, r, 8 * len(bs), True)
        return self.norm(st, r)

    # ------------------------------------------------------------ control flow
    def exec_body(self, st, body, args):
        """outcomes [(kind, state, value)] of running body with args"""
        if self.depth > self.MAXDEPTH:
            raise Unk('call depth')
        self.depth += 1
        self.stack.append(body.get('key') or '?')
        try:
            if body.get('path'):
                self.stats['functions'].add(body['path'])
            fid = st.fresh()
            fr = {'fid': fid, 'body': body, 'loops': self.p.loops(body)}
            for i, a in enumerate(args):
                st.mem[('L', fid, i + 1)] = a
                self.note_type(a, body['locals'][i + 1])
            outs = []
            for o in self.flow(st, fr, 0, None, None):
                if o[0] == 'ret':
                    s = o[1]
                    v = s.mem.get(('L', fid, 0))
                    if v is None:
                        T = self.T[body['locals'][0]]
                        v = UNIT if T['k'] == 'tuple' and not T.get('ts') else ('agg', T.get('path', 'tuple'), 0, ())
                    for k in [k for k in s.mem if k[0] == 'L' and k[1] == fid]:
                        del s.mem[k]
                    outs.append(('ret', s, v))
                else:
                    outs.append(o)
            return outs
        finally:
            self.depth -= 1
            self.stack.pop()

    def flow(self, st, fr, bb, header, region):
        """explore from bb; outcomes: ret / panic / unk / cut, and inside a loop also back / exit"""
        body = fr['body']
        outs = []
        work = [(st, bb, True)]
        while work:
            s, b, first = work.pop()
            if not first or header is None:
                if header is not None and b == header:
                    outs.append(('back', s, None))
                    continue
                if region is not None and b not in region:
                    outs.append(('exit', s, b))
                    continue
            if b in fr['loops'] and not (first and b == header):
                for o in self.loop(s, fr, b):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            self.budget -= 1
            if not self.budget & 63 and time.monotonic() > self.deadline:
                self.budget = -1
            if self.budget < 0:
                raise Unk('analysis budget exhausted')
            self.stats['blocks'] += 1
            try:
                nxt = self.block(s, fr, b, outs)
            except Unk as e:
                outs.append(('unk', s, '%s in %s' % (e, self.stack[-1] if self.stack else '?')))
                continue
            except (IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                outs.append(('unk', s, 'not interpreted (%s %s) in %s' % (type(e).__name__, str(e)[:80], self.stack[-1] if self.stack else '?')))
                continue
            for s2, b2 in nxt:
                work.append((s2, b2, False))
            if len(work) + len(outs) > self.MAXPATHS:
                raise Unk('too many paths')
        return outs

    def block(self, st, fr, b, outs):
        body = fr['body']
        bb = body['bbs'][b]
        for s in bb['s']:
            if s[0] == '=':
                loc, tid = self.loc_w(st, fr, s[1])
                v = self.rvalue(st, fr, s[2], tid)
                if is_c(v) and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and bb['t']['t'] != 'assert' \
                        and s is not bb['s'][-1] or (is_c(v) and s[2][0] == 'bin' and bb['t']['t'] in ('goto', 'call') and s[2][1] in ('Eq', 'Ne')):
                    try:
                        ops = [self.operand(st, fr, o) for o in s[2][2:] if isinstance(o, dict)]
                        if all(is_c(o) for o in ops):
                            st.cn = (ops, st.cn)   # a comparison decided by constants, kept for later
                    except Unk:
                        pass
                if loc is not None:
                    self.write(st, loc, v)
                    if tid is not None:
                        self.note_type(v, tid)
            elif s[0] == 'dead':
                st.mem.pop(('L', fr['fid'], s[1]), None)
            elif s[0] == 'sd':
                loc, tid = self.loc(st, fr, s[1])
                v = self.read(st, loc)
                if v[0] == 'agg':
                    self.write(st, loc, ('agg', v[1], s[2], v[3]))
                else:
                    raise Unk('set discriminant')
        t = bb['t']
        k = t['t']
        if k == 'goto':
            return [(st, t['to'])]
        if k == 'ret':
            outs.append(('ret', st, None))
            return []
        if k == 'drop':
            self.M.on_drop(self, st, fr, t)
            return [(st, t['to'])]
        if k == 'unreachable':
            return []
        if k == 'switch':
            v = self.operand(st, fr, t['op'])
            if is_c(v) and bb['s'] and bb['s'][-1][0] == '=' and bb['s'][-1][2][0] == 'bin' \
                    and bb['s'][-1][1] == (t['op'].get('m') or t['op'].get('c')):
                b = bb['s'][-1][2]
                try:
                    ops = [self.operand(st, fr, o) for o in b[2:] if isinstance(o, dict)]
                    if all(is_c(o) for o in ops):
                        st.cn = (ops, st.cn)   # a comparison decided by constants: keep unrolling
                    else:
                        st.idec += 1
                except Unk:
                    st.idec += 1
            return self.switch(st, v, t, fr)
        if k == 'assert':
            v = self.operand(st, fr, t['cond'])
            want = 1 if t['exp'] else 0
            res = []
            for val, s in self.split(st, v):
                if val == want:
                    res.append((s, t['to']))
                else:
                    s.emit(('panic', 'assert ' + str(t.get('kind')), t.get('sp'), body.get('path')))
                    outs.append(('panic', s, (str(t.get('kind')), t.get('sp'), body.get('path'))))
            return res
        if k == 'call':
            return self.call_term(st, fr, t, outs)
        raise Unk('terminator %s' % k)

    def loc_w(self, st, fr, place):
        return self.loc(st, fr, place)

    def switch(self, st, v, t, fr):
        res = []
        if v[0] in ('cmp', 'not', 'out', 'streq', 'pred', 'peq') or (t['ty'] is not None and self.T[t['ty']]['k'] == 'bool'):
            for val, s in self.split(st, v):
                dst = t['else']
                for x, bb in t['vals']:
                    if int(x) == val:
                        dst = bb
                        break
                if dst is not None:
                    res.append((s, dst))
            return res
        if v[0] == 'i':
            dst = t['else']
            for x, bb in t['vals']:
                x = int(x)
                if x == v[1] or (t['ty'] is not None and self.T[t['ty']]['k'] == 'int' and trunc_raw(I(x), self.T[t['ty']]['w'], self.T[t['ty']]['sg']) == v):
                    dst = bb
                    break
            return [(st, dst)] if dst is not None else []
        T = self.T[t['ty']] if t['ty'] is not None else {}
        seen = ()
        feas = []
        for x, bb in t['vals']:
            x = int(x)
            if T.get('k') == 'int' and T['sg']:
                x = trunc_raw(I(x), T['w'], True)[1]
            seen = iv_join(seen, ((x, x),))
            s = st.fork()
            if self.refine(s, v, ((x, x),)):
                feas.append((s, bb))
        if t['else'] is not None:
            s = st.fork()
            if self.refine(s, v, iv_not(seen)):
                # an exhaustive match leaves nothing
                feas.append((s, t['else']))
        if len(feas) > 1:
            for s, _ in feas:
                s.undec += 1
        return feas

    def call_term(self, st, fr, t, outs):
        f = t['f']
        self.stats['calls'] += 1
        args = [self.operand(st, fr, a) for a in t['args']]
        dloc, dtid = self.loc(st, fr, t['dest'])
        if 'indirect' in f:
            fv = self.operand(st, fr, f['indirect'])
            res = self.call_value(st, fv, args, t.get('sp'))
        else:
            res = self.call(st, f, args, t.get('sp'), dtid, [self.op_ty(fr, a) for a in t['args']])
        if t['to'] is None:
            res = [o if o[0] != 'ret' else ('panic', o[1], ('diverges: ' + (f.get('rpath') or f.get('path') or '?'), t.get('sp'), fr['body'].get('path'))) for o in res]
        nxt = []
        for o in res:
            if o[0] == 'ret':
                s = o[1]
                # the destination may be a projection through memory that moved
                self.write(s, dloc, o[2])
                if dtid is not None:
                    self.note_type(o[2], dtid)
                nxt.append((s, t['to']))
            else:
                outs.append(o)
        return nxt

    def call(self, st, f, args, sp=None, dtid=None, atys=None):
        """call a resolved or unresolved callee; outcomes"""
        path = f.get('rpath') or f.get('path') or ''
        if 'ctor' in f and f['ctor']:
            a, v = f['ctor']
            return [('ret', st, ('agg', a, v, tuple(args)))]
        for pred, h in self.hooks:
            if pred(path):
                r = h(self, st, f, args, sp)
                if r is not None:
                    return r
        m = self.M.lookup(self, f)
        if m is not None:
            r = m(self, st, Call(f, args, sp, dtid, self, atys))
            if r is not NotImplemented:
                return r
        if 'body' in f:
            body = self.p.bodies[f['body']]
            if body is not None:
                if self.is_recursive(body):
                    return [('cut', st, ('recursion', body.get('key')))]
                if body.get('closure') and len(args) == 2 and args[1][0] == 'agg' and args[1][1] == 'tuple' \
                        and (f.get('path') or '').split('::<')[0].endswith(('::call_once', '::call_mut', '::call')):
                    return self.call_value(st, args[0], list(args[1][3]), sp)   # the "rust-call" convention
                a = self.fix_closure_args(st, body, args)
                return self.exec_body(st, body, a)
        return self.M.unknown(self, st, Call(f, args, sp, dtid, self, atys))

    def is_recursive(self, body):
        k = body.get('key') or '?'
        return self.stack.count(k) >= (self.unrolled if k in self.stack and any(x in k for x in self.unroll) else 1) \
            and not body.get('closure')

    def fix_closure_args(self, st, body, args):
        return args

    def call_value(self, st, fv, args, sp=None):
        """call a closure or function value with untupled args"""
        while fv[0] == 'ref':
            loc = (fv[1], fv[2])
            v = self.read(st, loc)
            if v[0] == 'clo':
                return self.call_closure(st, v, args, loc)
            fv = v
        if fv[0] == 'clo':
            return self.call_closure(st, fv, args, None)
        if fv[0] == 'fn':
            return self.call(st, fv[1].d, args, sp)
        self.stats['unmodelled']['call of opaque function value'] = self.stats['unmodelled'].get('call of opaque function value', 0) + 1
        raise Unk('call of opaque function value')

    def call_closure(self, st, clo, args, loc):
        body = self.p.bodies[clo[1]]
        T = self.T[body['locals'][1]] if body['argc'] >= 1 else {}
        tmp = None
        if T.get('k') == 'ref':
            if loc is None:
                tmp = ('H', st.fresh())
                st.mem[tmp] = clo
                self_arg = ('ref', tmp, ())
            else:
                self_arg = ('ref', loc[0], loc[1])
        else:
            self_arg = clo
        n = body['argc']
        a = [self_arg] + list(args)
        if n == 2 and len(a) != 2 and body.get('spread'):
            a = [self_arg, tup(*args)]
        outs = self.exec_body(st, body, a)
        return outs

    # ------------------------------------------------------------ loops
    def loop(self, st, fr, h):
        region = fr['loops'][h]
        self.stats['loops'] += 1

        def step(s):
            return self.flow(s, fr, h, h, region)
        if any(x in (fr['body'].get('key') or '') for x in self.tail_loops):
            outs = self.restarts(st, fr, step)
            if outs is not None:
                return outs
        return self.summarise(st, step)

    tail_loops = ('BinProtRuleIterator',)   # functions in which starting over is analysed as a call of the function itself

    def restarts(self, st, fr, step):
        """a loop none of whose iterations leaves anything in the frame of the function: every way back is the start"""
        outs = step(st.fork())
        T, tys = self.T, fr['body']['locals']
        init = {r: v for r, v in st.mem.items() if r[0] == 'L' and r[1] == fr['fid'] and not (T[tys[r[2]]].get('k') == 'bool')}
        for k, s, x in outs:
            if k == 'back' and any(s.mem.get(r) != v for r, v in init.items()):
                return None
        return [('cut', o[1], ('recursion', fr['body'].get('key'))) if o[0] == 'back' else o for o in outs]

    def summarise(self, st0, step, unroll=48):
        """outcomes of iterating step from st0.  step: state -> [(kind, state, x)], kind 'back' continues."""
        done = []
        cur = [st0]
        rounds = 0
        while cur:
            nxt = []
            for s in cur:
                u0, c0, i0 = s.undec, s.cn, s.idec
                outs = step(s.fork())
                backs = [o for o in outs if o[0] == 'back']
                if not backs:
                    done.extend(outs)
                    continue
                und = any(o[0] in ('exit',) and o[1].undec > u0 for o in outs)
                conc = any(o[1].cn is not c0 for o in backs)
                und = und or any(o[1].idec > i0 for o in backs)
                if und and conc and rounds == 0 and len(backs) <= 2:
                    conc = not self.repeats(step, c0, backs)
                if (und and not conc) or rounds >= (300 if conc and len(cur) == 1 else unroll) or len(backs) > (64 if conc else 8):
                    done.extend(self.summarise_sym(s, step, outs))
                    continue
                done.extend(o for o in outs if o[0] != 'back')
                nxt.extend(o[1] for o in backs)
            cur = nxt
            rounds += 1
            if len(cur) > 600:
                raise Unk('loop: too many paths')
        return done

    def repeats(self, step, c0, backs):
        """the next iteration makes the same decisions: they do not count the iterations"""
        def made(cn, upto):
            out = []
            while cn is not upto and cn is not None:
                out.append(cn[0])
                cn = cn[1]
            return out
        for o in backs:
            was = made(o[1].cn, c0)
            try:
                outs = step(o[1].fork())
            except Unk:
                return False
            nxt = [x for x in outs if x[0] == 'back']
            if not nxt or any(made(x[1].cn, o[1].cn) != was for x in nxt):
                return False
        return True

    def int_like(self, t):
        return t[0] in ('i', 'lin', 'trunc', 'B', 'rb', 'len', 'rem', 'div', 'shr', 'min', 'max', 'and') or t in self.rng

    def summarise_sym(self, st0, step, first):
        lid = ('l', st0.fresh(), st0.ctx)
        K = ('k', lid)
        forms = {}  # leaf location -> ('lin', init, c) | ('pop', init) | ('phi',) | ('comp', init, body)

        def header(extra=()):
            h = st0.fork()
            h.ctx = st0.ctx + (K,)
            for loc, f in forms.items():
                self.write(h, loc, self.form_value(st0, loc, f, K, lid))
            h.undec = 0
            for t, iv in extra:
                if not self.refine(h, t, iv):
                    raise Unk('loop invariant refuted')
            h.ev = ()
            return h

        def leaves(h, backs):
            out = {}
            for o in backs:
                for root, v in h.mem.items():
                    w = o[1].mem.get(root)
                    if w is None or w == v:
                        continue
                    diff(v, w, (root, ()), out)
            return out

        # guess forms from the first iteration
        backs = [o for o in first if o[0] == 'back']
        for loc, pairs in leaves(st0, backs).items():
            v0 = self.read(st0, loc)
            forms[loc] = self.guess(v0, [w for _, w in pairs])
        outs = None
        extra = ()
        inv = {}    # invariants of values without a closed form
        for it in range(10):
            h = header(extra)
            outs = step(h.fork())
            backs = [o for o in outs if o[0] == 'back']
            if not backs:
                # the summary state cannot iterate; keep what the guesses gave
                break
            ch = False
            lv = leaves(h, backs)
            nextval = {}
            for loc, f in list(forms.items()):
                if f[0] == 'phi':
                    continue
                want = self.form_value(st0, loc, f, add(K, ONE), lid)
                if f[0] == 'pre':
                    want = mk_vec((('one', f[2]),) + segs_of(self.form_value(st0, loc, f, K, lid)))
                for o in backs:
                    try:
                        got = self.read(o[1], loc)
                    except Unk:
                        got = None
                    if got != want and (got is None or self.norm_deep(o[1], got) != self.norm_deep(o[1], want)):
                        forms[loc] = ('phi',)
                        ch = True
                        break
            for loc, pairs in lv.items():
                if loc in forms:
                    continue
                if any(loc[0] == l2[0] and loc[1][:len(l2[1])] == l2[1] for l2 in forms):
                    continue
                sub_ = [l2 for l2 in forms if l2[0] == loc[0] and l2[1][:len(loc[1])] == loc[1]]
                for l2 in sub_:
                    del forms[l2]
                forms[loc] = ('phi',)
                ch = True
            if not ch:
                # try to turn unknown lists into comprehensions
                for loc, f in list(forms.items()):
                    if f[0] != 'phi' or len(f) > 1:
                        continue
                    phi = self.form_value(st0, loc, f, K, lid)
                    init = self.read(st0, loc)
                    xs = set()
                    ok = True
                    for o in backs:
                        w = self.read(o[1], loc)
                        if w[0] == 'vec' and len(w[1]) >= 2 and w[1][0] == ('all', phi) and w[1][1][0] == 'one' and len(w[1]) == 2:
                            xs.add(w[1][1][1])
                        else:
                            ok = False
                    if not ok:
                        ws = [self.read(o[1], loc) for o in backs]
                        if len(set(ws)) == 1 and ws[0][0] == 'vec' and len(ws[0][1]) == 2 and ws[0][1][1] == ('all', phi) and ws[0][1][0][0] == 'one':
                            forms[loc] = ('pre', init, ws[0][1][0][1])
                            ch = True
                            continue
                    if ok and len(xs) == 1:
                        x = xs.pop()
                        forms[loc] = ('comp', init, x)
                        ch = True
                    elif ok and len(xs) > 1:
                        forms[loc] = ('comp', init, ('alt',) + tuple(sorted(xs, key=repr)))
                        forms[loc] = ('phi', 'alt')
            if not ch:
                # loop invariant from the guard: K < N on every way back gives K <= N at the header
                new = []
                g = None
                for o in backs:
                    fs = set()
                    for t, f in o[1].facts.items():
                        if f[0] == 'iv' and (t == K or (t[0] == 'lin' and any(x == K for x, _ in t[2]))):
                            fs.add((t, f[1]))
                    g = fs if g is None else g & fs
                for t, iv in sorted(g or (), key=repr):
                    c, d = lin_of(t)
                    k = d.get(K, 0)
                    if k == 1 and iv[-1][1] < INF:       # K + rest <= hi  ->  header: K + rest <= hi + 1
                        bound = ((-INF, iv[-1][1] + 1),)
                    elif k == -1 and iv[0][0] > -INF:
                        bound = ((iv[0][0] - 1, INF),)
                    else:
                        continue
                    # it has to hold on entry (K = 0)
                    t0 = subst(t, {K: ZERO})
                    r = self.iv(st0, t0)
                    if r and iv_sub(new_hull(r), bound):
                        new.append((t, bound))
                # a value every way back leaves within a range, whatever it was before, stays there; so does a length
                # that every way back keeps
                for loc, f in forms.items():
                    if f != ('phi',) or loc in inv:
                        continue
                    phi, init = self.form_value(st0, loc, f, K, lid), self.read(st0, loc)
                    try:
                        ws = [self.norm(o[1], self.read(o[1], loc)) for o in backs]
                    except Unk:
                        continue
                    if self.int_like(init) and all(self.int_like(w) for w in ws):
                        r = [self.iv(st0, init)] + [self.iv(o[1], w) for o, w in zip(backs, ws)]
                        if all(r):
                            lo, hi = min(x[0][0] for x in r), max(x[-1][1] for x in r)
                            g = self.rng.get(phi, (-INF, INF))
                            if lo > g[0] or hi < g[1]:
                                inv[loc] = (phi, ((lo, hi),))
                    elif init[0] not in ('agg', 'clo', 'ref', 'i') and all(
                            w[0] not in ('agg', 'clo', 'ref', 'i') and self.iv(o[1], sub(seq_len(w), seq_len(phi))) == ((0, 0),)
                            for o, w in zip(backs, ws)):
                        inv[loc] = (sub(seq_len(phi), seq_len(init)), ((0, 0),))
                new = tuple(new) + tuple(inv[l] for l in sorted(inv, key=repr) if l in forms)
                if new and new != extra:
                    extra = new
                    continue
                break
        else:
            for o in outs:
                pass
            raise Unk('loop did not stabilise')
        alts = tuple(o[1].ev for o in outs if o[0] == 'back')
        retry = tuple(self.stutter(o[1]) for o in outs if o[0] == 'back')
        # iterations that only see an interrupted call have no effect: the loop is a retry
        silent = retry != alts and not any(retry)
        alts = retry
        phis = []
        for loc, f in forms.items():
            if f[0] == 'phi':
                bv = set()
                for o in outs:
                    if o[0] == 'back':
                        try:
                            bv.add(self.read(o[1], loc))
                        except Unk:
                            bv.add(('sym', '?', 0, ()))
                phis.append((self.read(st0, loc), self.form_value(st0, loc, f, K, lid), tuple(sorted(bv, key=repr))))
        phis = tuple(sorted(phis, key=repr))
        grow = any(f[0] == 'comp' for f in forms.values())
        # what is known on the paths that go round once more
        conds = tuple(tuple((t, f[1]) for t, f in o[1].facts.items() if f[0] == 'iv' and t != K and has(t, K))
                      for o in outs if o[0] == 'back')
        lost = next((str(o[2]) for o in outs if o[0] == 'unk'), '')
        res = []
        for o in outs:
            if o[0] == 'back':
                continue
            s = o[1]
            tail = s.ev
            trip = K
            # K determined at the exit?
            m = None
            for t, f in s.facts.items():
                if f[0] != 'iv' or len(f[1]) != 1 or f[1][0][0] != f[1][0][1]:
                    continue
                c, d = lin_of(t)
                k = d.get(K, 0)
                if k in (1, -1):
                    rest = mk_lin(c - f[1][0][0], {x: y for x, y in d.items() if x != K})
                    m = scale(rest, -k)
                    break
            if m is None:
                r = self.iv(s, K)
                if r and r[0][0] == r[-1][1]:
                    m = I(r[0][0])
            x = o[2]
            if m is not None and not has(m, K):
                trip = m
                mp = {K: m}
                for root in list(s.mem):
                    s.mem[root] = subst(s.mem[root], mp)
                tail = tuple(subst_ev(e, mp) for e in tail)
                nf = {}
                for t, f in s.facts.items():
                    t2 = subst(t, mp) if has(t, K) else t
                    if t2[0] == 'i':
                        continue
                    if t2 in nf and f[0] == 'iv' and nf[t2][0] == 'iv':
                        f = ('iv', iv_meet(f[1], nf[t2][1]))
                    nf[t2] = f
                s.facts = nf
                if isinstance(x, tuple):
                    x = subst(x, mp)
            s.ctx = st0.ctx
            s.ev = st0.ev + (() if silent and not grow else (('loop', lid, trip, alts, phis, grow, conds),)) + tail
            s.undec += st0.undec
            if lost and o[0] != 'unk':
                s.taint = lost
            res.append((o[0], s, x))
        return res

    def stutter(self, st):
        """the events of the path without the failures known to be an interrupted call, which transfers nothing"""
        if not any(e[0] in ('Rerr', 'Werr') for e in st.ev):
            return st.ev
        adt = self.p.adts.get('std::io::ErrorKind')
        n = [v['discr'] for v in adt['variants'] if v['name'] == 'Interrupted'] if adt else []
        drop = set()
        for t, f in st.facts.items():
            if n and f[0] == 'iv' and f[1] == ((n[0], n[0]),) and t[0] == 'discr' and t[1][0] == 'fld' and t[1][3] == 'kind':
                drop.add(t[1][1])
        return tuple(e for e in st.ev if not (e[0] in ('Rerr', 'Werr') and len(e) > 2 and e[2] in drop))

    def norm_deep(self, st, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ('trunc', 'B', 'lin'):
            return self.norm(st, t)
        if t[0] in ('i', 's', 'bs', 'sym', 'rb', 'k'):
            return t
        return tuple(self.norm_deep(st, x) if isinstance(x, tuple) else x for x in t)

    def guess(self, v0, vs):
        w = vs[0]
        if any(x != w for x in vs[1:]):
            return ('phi',)
        if v0[0] in ('i', 'lin', 'len', 'sym', 'k', 'trunc', 'fld', 'B', 'rb', 'elem', '*') and w[0] not in ('agg', 'ref', 'vec'):
            d = sub(w, v0)
            if is_c(d) and d != ZERO and not v0[0] == 'sym' or (is_c(d) and abs(d[1]) < 1 << 20 and d != ZERO):
                return ('lin', v0, d[1])
            return ('phi',)
        if w[0] == 'vec' and w[1]:
            # a whole sequence as the segment that popping at its end leaves
            b = w[1][-1]
            a = segs_of(v0) if v0[0] in ('vec', 'fld', '*', 'sym', 'elem', 'havseq', 'phi') else ()
            if b[0] == 'c' and a and len(a) == len(w[1]) and a[-1][0] == 'all' and a[:-1] == w[1][:-1] and b[3] == seq_get(a[-1][1], b[2]):
                v0 = ('vec', a[:-1] + (('c', seq_len(a[-1][1]), b[2], b[3]),))
        if v0[0] == 'vec' and w[0] in ('vec',):
            a, b = v0[1], w[1]
            if len(a) == len(b) and a[:-1] == b[:-1] and a[-1][0] == 'c' and b[-1][0] == 'c' and a[-1][2:] == b[-1][2:] \
                    and sub(b[-1][1], a[-1][1]) == I(-1):
                return ('pop', v0)
        return ('phi',)

    def form_value(self, st0, loc, f, K, lid):
        if f[0] == 'lin':
            return add(f[1], scale(K, f[2]))
        if f[0] == 'pop':
            s = f[1][1]
            return ('vec', s[:-1] + (('c', sub(s[-1][1], K), s[-1][2], s[-1][3]),))
        if f[0] == 'comp':
            bv = ('k', lid)
            return mk_vec(segs_of(f[1]) + (('c', K, bv, f[2]),))
        if f[0] == 'pre':
            bv = ('k', lid)
            j = ('k', ('pre', lid))
            return mk_vec((('c', K, j, subst(f[2], {bv: sub(sub(K, ONE), j)})),) + segs_of(f[1]))
        init = self.read(st0, loc)
        t = ('phi', lid, loc_name(loc), ('at', K))
        r = None
        if init[0] == 'i' or init in self.rng or init[0] in ('lin', 'trunc', 'B', 'rb', 'len', 'phi'):
            r = self.rng.get(init)
        if r is not None:
            self.rng[t] = r
        return t


def loc_name(loc):
    return ('loc', repr(loc[0][0]), repr(loc[1]))


def new_hull(iv):
    return ((iv[0][0], iv[-1][1]),) if iv else ()


def centred(t, m):
    f = lambda k: (k + m // 2) % m - m // 2
    r = I(f(t[1]))
    for x, k in t[2]:
        r = add(r, scale(x, f(k)))
    return r


def subst_ev(e, m):
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def diff(v, w, loc, out):
    if v == w:
        return
    if v[0] == 'agg' and w[0] == 'agg' and v[1] == w[1] and v[2] == w[2] and len(v[3]) == len(w[3]):
        for i, (a, b) in enumerate(zip(v[3], w[3])):
            if a != b:
                p = ('f', v[2] if v[1] not in ('tuple', 'array') and False else None, i)
                if v[1] == 'array':
                    p = ('i', I(i))
                diff(a, b, (loc[0], loc[1] + (p,)), out)
        return
    if v[0] == 'clo' and w[0] == 'clo' and v[1] == w[1]:
        for i, (a, b) in enumerate(zip(v[2], w[2])):
            if a != b:
                diff(a, b, (loc[0], loc[1] + (('f', None, i),)), out)
        return
    out.setdefault(loc, []).append((v, w))


def slice_of(v, lo, hi):
    n = seq_len(v)
    if lo == ZERO and hi == n:
        return v
    if v[0] == 'slice':
        return ('slice', v[1], add(v[2], lo), add(v[2], hi))
    ss = segs_of(v)
    if is_c(lo) and is_c(hi) and all(s[0] == 'one' for s in ss):
        return ('agg', 'array', None, tuple(s[1] for s in ss[lo[1]:hi[1]]))
    if is_c(lo) and hi == n and len(ss) > lo[1] and all(s[0] == 'one' for s in ss[:lo[1]]):
        return mk_vec(ss[lo[1]:])
    return ('slice', v, lo, hi)


class Callee:
    """hashable wrapper of a callee description"""
    __slots__ = ('d', 'k')

    def __init__(self, d):
        self.d = d
        self.k = json.dumps(d, sort_keys=True)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, Callee) and self.k == o.k

    def __repr__(self):
        return 'fn ' + (self.d.get('rpath') or self.d.get('path') or '?')


class Call:
    __slots__ = ('f', 'args', 'sp', 'dtid', 'E', 'atys')

    def __init__(self, f, args, sp, dtid, E, atys=None):
        self.f, self.args, self.sp, self.dtid, self.E, self.atys = f, args, sp, dtid, E, atys

    @property
    def path(self):
        return self.f.get('path') or ''

    @property
    def rpath(self):
        return self.f.get('rpath') or self.f.get('path') or ''

    def tyargs(self):
        return [self.E.T[a] if isinstance(a, int) else {'s': a, 'k': 'const'} for a in self.f.get('args', [])]
