"""Abstract values: immutable terms (tuples) in a normal form, and interval sets.

Integers are mathematical integers.  A lossless cast is the identity; any other one is
('trunc', t, width, signed).  Sums with constant coefficients live in a linear normal form
('lin', c, ((t, coef), ...)).  Little-endian composition of bytes is just such a sum, and
byte(t, i) undoes it.  Two computations of the same quantity get the same term (value numbering)."""

INF = 1 << 200


class Unk(Exception):
    """the analysis cannot determine this; never turned into a violation"""


# ---------------------------------------------------------------- interval sets
FULL = ((-INF, INF),)


def iv_meet(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_join(a, b):
    xs = sorted(a + b)
    out = []
    for lo, hi in xs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_not(a):
    out = []
    p = -INF
    for lo, hi in a:
        if p <= lo - 1:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= INF:
        out.append((p, INF))
    return tuple(out)


def iv_shift(a, c):
    return tuple((max(lo + c, -INF) if lo > -INF else -INF, min(hi + c, INF) if hi < INF else INF) for lo, hi in a)


def iv_scale(a, k):
    def m(x):
        if abs(x) >= INF:
            return INF if (x > 0) == (k > 0) else -INF
        return x * k
    if k > 0:
        return tuple((m(lo), m(hi)) for lo, hi in a)
    return tuple((m(hi), m(lo)) for lo, hi in reversed(a))


def iv_add(a, b):
    if not a or not b:
        return ()
    lo = -INF if a[0][0] <= -INF or b[0][0] <= -INF else a[0][0] + b[0][0]
    hi = INF if a[-1][1] >= INF or b[-1][1] >= INF else a[-1][1] + b[-1][1]
    return ((lo, hi),)


def iv_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def iv_sub(a, b):
    """a is a subset of b"""
    return iv_meet(a, b) == a


def iv_str(a):
    def s(x):
        return "-inf" if x <= -INF else "inf" if x >= INF else ("%d" % x if abs(x) < 65536 else hex(x))
    return " or ".join("[%s..%s]" % (s(lo), s(hi)) if lo != hi else s(lo) for lo, hi in a) or "nothing"


def trange(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


# ---------------------------------------------------------------- linear forms
def I(n):
    return ('i', n)


ZERO, ONE = I(0), I(1)
TRUE, FALSE = I(1), I(0)


def is_c(t):
    return t[0] == 'i'


def lin_of(t):
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return I(c)
    # bytes of one quantity, put back together: b0 + 256*b1 + ... of t is t mod 2^8n
    if len(d) > 1 or (len(d) == 1 and next(iter(d.values())) == 1):
        d = _recombine(d)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
        if t[0] == 'lin':
            return mk_lin(k * t[1], {x: k * y for x, y in t[2]})
    # a nested linear term (from recombination) is flattened
    if any(t[0] in ('lin', 'i') for t in d):
        e = {}
        cc = c
        for t, k in d.items():
            c1, d1 = lin_of(t)
            cc += k * c1
            for x, y in d1.items():
                e[x] = e.get(x, 0) + k * y
        return mk_lin(cc, e)
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def _recombine(d):
    by = {}
    for t, k in d.items():
        if t[0] == 'B':
            by.setdefault(t[1], {})[t[2]] = k
    for t, ks in by.items():
        if 0 not in ks or len(ks) < 2:
            continue
        base = ks[0]
        n = 1
        while n in ks and ks[n] == base << (8 * n):
            n += 1
        if n < 2:
            continue
        d = dict(d)
        for i in range(n):
            del d[('B', t, i)]
        x = trunc_raw(t, 8 * n, False)
        d[x] = d.get(x, 0) + base
        return _recombine({k: v for k, v in d.items() if v})
    # the low n bytes, already put together, and the byte after them
    for x, k in d.items():
        if x[0] == 'trunc' and not x[3] and x[2] % 8 == 0:
            b = ('B', x[1], x[2] // 8)
            if d.get(b) == k << x[2]:
                d = dict(d)
                del d[x], d[b]
                y = trunc_raw(x[1], x[2] + 8, False)
                d[y] = d.get(y, 0) + k
                return _recombine({q: v for q, v in d.items() if v})
    return d


def add(a, b):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return mk_lin(c1 + c2, d)


def scale(a, k):
    if k == 0:
        return ZERO
    c, d = lin_of(a)
    return mk_lin(c * k, {t: x * k for t, x in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def has(t, x):
    """x occurs in term t"""
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and has(y, x):
                return True
    return False


def subst(t, m):
    """replace free occurrences of the keys of m in t and renormalise linear forms"""
    if not isinstance(t, tuple) or not t:
        return t
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass
    h = t[0]
    if h in ('i', 's', 'bs'):
        return t
    if h == 'c' and len(t) == 4:  # comprehension binds t[2]
        mm = {k: v for k, v in m.items() if k != t[2]}
        return ('c', subst(t[1], m), t[2], subst(t[3], mm) if mm else t[3])
    if h == 'lin':
        r = I(t[1])
        ch = False
        for x, k in t[2]:
            y = subst(x, m)
            ch = ch or y is not x
            r = add(r, scale(y, k))
        return r if ch else t
    new = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if all(a is b for a, b in zip(new, t)):
        return t
    if h == 'trunc':
        return trunc_raw(new[1], new[2], new[3])
    if h == 'B':
        return byte(new[1], new[2])
    if h == 'vec':
        return mk_vec(new[1])
    return new


# ---------------------------------------------------------------- modular arithmetic
def modred(t, w):
    """a canonical term congruent to t modulo 2^w"""
    m = 1 << w
    c, d = lin_of(t)
    e = {}
    cc = c
    for x, k in d.items():
        if x[0] == 'trunc' and x[2] >= w:
            c1, d1 = lin_of(modred(x[1], w))
            cc += k * c1
            for y, z in d1.items():
                e[y] = e.get(y, 0) + k * z
        else:
            e[x] = e.get(x, 0) + k
    e = {x: k % m for x, k in e.items() if k % m}
    return mk_lin(cc % m, e)


def trunc_raw(t, w, signed):
    """t reduced to w bits; identity is decided by the caller, who knows the range of t"""
    if t[0] == 'i':
        lo, hi = trange(w, signed)
        return I((t[1] - lo) % (1 << w) + lo)
    t = modred(t, w)
    if t[0] == 'i':
        return trunc_raw(t, w, signed)
    if w == 8 and not signed:
        return byte(t, 0)
    return ('trunc', t, w, signed)


def is_byte(t):
    return t[0] in ('rb', 'B')


def byte(t, i):
    """byte i (little endian) of the two's complement representation of t"""
    if t[0] == 'i':
        return I((t[1] >> (8 * i)) & 255)
    t = modred(t, 8 * (i + 1))
    if t[0] == 'i':
        return I((t[1] >> (8 * i)) & 255)
    c, d = lin_of(t)
    # a sum of bytes at distinct positions
    if 0 <= c < 256 or True:
        pos = {}
        ok = True
        for x, k in d.items():
            if is_byte(x) and k > 0 and k & (k - 1) == 0 and (k.bit_length() - 1) % 8 == 0:
                p = (k.bit_length() - 1) // 8
                if p in pos:
                    ok = False
                pos[p] = x
            else:
                ok = False
        if ok:
            if c == 0:
                return pos.get(i, ZERO)
            if all((c >> (8 * p)) & 255 == 0 for p in pos):
                return pos.get(i, I((c >> (8 * i)) & 255))
    # drop terms that cannot reach down to byte i is not possible (carries); low multiples can
    if t[0] == 'shr' and t[2] % 8 == 0:
        return byte(t[1], i + t[2] // 8)
    if t[0] == 'B':
        return t if i == 0 else ZERO
    if t[0] == 'rb':
        return t if i == 0 else ZERO
    return ('B', t, i)


def low_zero(t):
    """number of low bits known to be zero"""
    c, d = lin_of(t)
    def tz(n):
        return 64 if n == 0 else (n & -n).bit_length() - 1
    z = tz(c)
    for x, k in d.items():
        z = min(z, tz(k) + (low_zero(x[1]) if x[0] == 'trunc' else 0))
    return z


# ---------------------------------------------------------------- sequences
# ('vec', segs) with segs: ('one', v) | ('all', t) | ('c', n, K, body)
def mk_vec(segs):
    out = []
    for s in segs:
        if s[0] == 'c' and s[1] == ZERO:
            continue
        if s[0] == 'all' and s[1][0] in ('vec', 'agg', 's', 'bs'):
            out.extend(segs_of(s[1]))
            continue
        if s[0] == 'one' and out and out[-1][0] == 'c' and subst(out[-1][3], {out[-1][2]: out[-1][1]}) == s[1] \
                and not is_c(out[-1][1]):
            p = out[-1]
            out[-1] = ('c', add(p[1], ONE), p[2], p[3])
            continue
        out.append(s)
    if len(out) == 1 and out[0][0] == 'all':
        return out[0][1]
    return ('vec', tuple(out))


def segs_of(t):
    if t[0] == 'vec':
        return t[1]
    if t[0] == 'agg' and t[1] in ('array', 'tuple'):
        return tuple(('one', x) for x in t[3])
    if t[0] == 's':
        return tuple(('one', I(b)) for b in t[1].encode())
    if t[0] == 'bs':
        return tuple(('one', I(b)) for b in t[1])
    return (('all', t),)


def seg_len(s):
    if s[0] == 'one':
        return ONE
    if s[0] == 'all':
        return seq_len(s[1])
    return s[1]


def seq_len(t):
    if t[0] == 's':
        return I(len(t[1].encode()))
    if t[0] == 'bs':
        return I(len(t[1]))
    if t[0] == 'agg':
        return I(len(t[3]))
    if t[0] == 'havseq':
        return seq_len(t[3])
    if t[0] == 'bytes':
        return seq_len(t[1])
    if t[0] == 'utf8':
        return seq_len(t[1])
    if t[0] == 'vec':
        r = ZERO
        for s in t[1]:
            r = add(r, seg_len(s))
        return r
    if t[0] == 'slice':
        return sub(t[3], t[2])
    return ('len', t)


def seq_get(t, i):
    """element i of a sequence, in range by assumption"""
    if t[0] == 'agg' and is_c(i):
        return t[3][i[1]]
    if t[0] == 'slice':
        return seq_get(t[1], add(t[2], i))
    if t[0] in ('s', 'bs') and is_c(i):
        return I((t[1].encode() if t[0] == 's' else t[1])[i[1]])
    if t[0] == 'vec':
        segs = t[1]
        off = ZERO
        for k, s in enumerate(segs):
            d = sub(i, off)
            if s[0] == 'one':
                if d == ZERO:
                    return s[1]
                if is_c(d):
                    off = add(off, ONE)
                    continue
                break
            if len(segs) == k + 1 or False:
                if s[0] == 'all':
                    return ('elem', s[1], d)
                return subst(s[3], {s[2]: d})
            n = seg_len(s)
            e = sub(d, n)
            if is_c(e):
                if e[1] >= 0:
                    off = add(off, n)
                    continue
            if is_c(n) and is_c(d):
                if d[1] < n[1]:
                    return subst(s[3], {s[2]: d}) if s[0] == 'c' else ('elem', s[1], d)
            if is_c(d) and s[0] == 'c':
                break
            break
    return ('elem', t, i)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if d > 9:
        return '..'
    h = t[0]
    s = lambda x: show(x, d + 1)
    if h == 'i':
        return str(t[1]) if abs(t[1]) < 1024 else hex(t[1])
    if h == 's':
        return repr(t[1])
    if h == 'bs':
        return repr(t[1])
    if h == 'sym':
        return '%s%s' % (t[1], ''.join('#' + s(x) for x in t[2:3] if x != ()) + ('@' + ','.join(s(x) for x in t[3]) if len(t) > 3 and t[3] else ''))
    if h == 'rb':
        return 'in[%s]' % ('.'.join(s(x) for x in t[1:] if x != ()))
    if h == 'k':
        return 'K%s' % (t[1][1] if isinstance(t[1], tuple) and len(t[1]) > 1 else t[1],)
    if h == 'lin':
        r = ' + '.join(('' if k == 1 else str(k) + '*') + s(x) for x, k in t[2])
        return '(%s%s)' % (r, ' + %d' % t[1] if t[1] else '')
    if h == 'trunc':
        return '%s%d(%s)' % ('i' if t[3] else 'u', t[2], s(t[1]))
    if h == 'B':
        return 'byte%d(%s)' % (t[2], s(t[1]))
    if h == 'agg':
        n = t[1].split('::')[-1] if isinstance(t[1], str) else str(t[1])
        return '%s%s(%s)' % (n, '' if t[1] in ('tuple', 'array') or t[2] is None else '.%s' % t[2], ', '.join(s(x) for x in t[3]))
    if h == 'fld':
        return '%s.%s%s' % (s(t[1]), '' if t[2] is None else '%s.' % t[2], t[3])
    if h == '*':
        return '*' + s(t[1])
    if h == 'vec':
        return '[' + ', '.join(s(x[1]) if x[0] == 'one' else '..' + s(x[1]) if x[0] == 'all' else '%s for %s<%s' % (s(x[3]), s(x[2]), s(x[1])) for x in t[1]) + ']'
    if h == 'ref':
        return '&' + s(t[1]) + ''.join('.' + str(p[-1] if p[0] == 'f' else p) for p in t[2])
    if not isinstance(h, str):
        return '(' + ', '.join(s(x) for x in t) + ')'
    return h + '(' + ', '.join(s(x) for x in t[1:]) + ')'
