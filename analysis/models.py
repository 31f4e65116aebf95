"""Transfer functions for library operations whose bodies are not analysed (std, byteorder,
num-traits).  Each takes the state and the call and returns the possible outcomes."""
import re
import math
from terms import *
from engine import (Ok, Err, Some, NONE, UNIT, tup, ref_to, sym, RES, OPT, CF, slice_of, Call)

MODELS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


_keycache = {}


def key_of(f):
    k = (f.get('path'), f.get('trait'), f.get('method'))
    if k in _keycache:
        return _keycache[k]
    p = f.get('path') or ''
    if f.get('trait'):
        r = f['trait'].split('::')[-1].split('<')[0] + '::' + (f.get('method') or p.split('::')[-1])
    else:
        q = p
        # drop generic argument lists and impl blocks
        out = ''
        d = 0
        i = 0
        while i < len(q):
            c = q[i]
            if c == '<':
                d += 1
            elif c == '>' and q[i - 1] != '-':
                d -= 1
            elif d == 0:
                out += c
            i += 1
        segs = [s for s in out.split('::') if s]
        r = '::'.join(segs[-2:])
    _keycache[k] = r
    return r


# modelled although a body is available
OVERRIDE = {'Clone::clone', 'ToOwned::to_owned', 'mem::swap', 'mem::replace', 'mem::take', 'cmp::min', 'cmp::max', 'Ord::min', 'Ord::max',
            'typed::probe_ser', 'typed::probe_de', 'PartialEq::eq', 'PartialEq::ne', 'Ord::cmp', 'PartialOrd::partial_cmp'}
BODY_IF_LOCAL = {'PartialEq::eq', 'PartialEq::ne', 'Ord::cmp', 'PartialOrd::partial_cmp'}


def lookup(E, f):
    k = key_of(f)
    if 'body' in f and k not in OVERRIDE:
        return None
    if k in BODY_IF_LOCAL and 'body' in f:
        b = E.p.bodies[f['body']]
        if b is not None and b['krate'] != 'core':
            return None
        if b is not None and k.startswith(('Ord', 'PartialOrd')):
            return None
    return MODELS.get(k)


def ret(st, v):
    return [('ret', st, v)]


def val(E, st, a):
    """the value behind any number of references"""
    for _ in range(20):
        if a[0] != 'ref':
            return a
        a = E.read(st, (a[1], a[2]))
    raise Unk('reference chain')


def loc_of(a):
    if a[0] == 'ref':
        return (a[1], a[2])
    if a[0] in ('s', 'bs', 'agg', 'vec', 'i', 'clo', 'fn'):
        return (('V', a), ())
    return (('D', a), ())


def deep_loc(E, st, a):
    """location reached by following references to the last one"""
    for _ in range(20):
        loc = loc_of(a)
        v = E.read(st, loc)
        if v[0] != 'ref':
            return loc, v
        a = v
    raise Unk('reference chain')


def ioerr(st):
    return ('sym', 'ioerr', st.fresh(), st.ctx)


def unknown(E, st, c):
    p = c.rpath
    if re.search(r'panick|unwrap_failed|expect_failed|panic_fmt|begin_panic|slice_index|slice_start_index|slice_end_index|capacity_overflow', p):
        return [('panic', st, (p, c.sp, E.stack[-1] if E.stack else ''))]
    n = E.stats['unmodelled']
    n[p] = n.get(p, 0) + 1
    args = c.args
    mut = False
    for i, a in enumerate(args):
        t = E.T[c.atys[i]] if c.atys and i < len(c.atys) and c.atys[i] is not None else None
        if a[0] == 'ref' and (t is None or t['s'].startswith('&mut')) and a[1][0] != 'V':
            mut = True
            try:
                E.write(st, (a[1], a[2]), sym(st, 'havoc'))
            except Unk:
                pass
        elif a[0] == 'ref' and a[1][0] != 'V':
            pass
    r = ('app', p, tuple(safe_val(E, st, a) for a in args), st.fresh() if mut or impure(p) else 0)
    st.emit(('unknown', p, c.sp, mut))
    if c.dtid is not None:
        E.note_type(r, c.dtid)
        T = E.T[c.dtid]
        if T['k'] == 'tuple' and not T.get('ts'):
            r = UNIT
    return ret(st, r)


def impure(p):
    return True


def safe_val(E, st, a):
    try:
        return val(E, st, a)
    except Unk:
        return a


def on_drop(E, st, fr, t):
    try:
        loc, tid = E.loc(st, fr, t['p'])
        v = E.read(st, loc)
    except Unk:
        return
    if v[0] == 'agg' and v[1] == '$bufw' and v[3][1] == TRUE:
        st.emit(('unflushed', t.get('sp')))


# ================================================================ probes (witness crates)
@model('typed::probe_ser')
def m_probe_ser(E, st, c):
    v = val(E, st, c.args[0])
    s = wterm(E, st, c.args[1])
    a, b = st.fork(), st.fork()
    a.emit(('W', s[1], (('probe', v),)))
    b.emit(('Werr', s[1], 'probe'))
    return [('ret', a, Ok(UNIT)), ('ret', b, Err(('sym', 'probe-err', b.fresh(), b.ctx)))]


@model('typed::probe_de')
def m_probe_de(E, st, c):
    s = find_stream(E, st, c.args[0])
    a, b = st.fork(), st.fork()
    v = ('sym', 'probe', a.fresh(), a.ctx)
    a.emit(('R', s, (('probe', v),)))
    b.emit(('Rerr', s, 'probe'))
    return [('ret', a, Ok(v)), ('ret', b, Err(('sym', 'probe-err', b.fresh(), b.ctx)))]


# ================================================================ writers
def wterm(E, st, a):
    """resolve a writer: ('vec', loc) | ('ext', id) | ('bufw', loc)"""
    for _ in range(30):
        if a[0] == 'ref':
            loc = (a[1], a[2])
            v = E.read(st, loc)
        else:
            loc, v = (('V', a), ()), a
        if v[0] == 'ref':
            a = v
            continue
        if v[0] == 'vec' or (v[0] == 'agg' and v[1] == 'array'):
            return ('vec', loc)
        if v[0] == 'agg' and v[1] == '$bufw':
            return ('bufw', loc)
        if v[0] == 'agg' and v[3] and v[1].endswith('Serializer'):
            x = v[3][0]
            a = x if x[0] == 'ref' else ('ref', loc[0], loc[1] + (('f', None, 0),))
            continue
        if v[0] == 'agg':
            raise Unk('writer %s' % show(v))
        return ('ext', v)
    raise Unk('writer chain')


def bytes_segs(E, st, v):
    """segments of a byte sequence"""
    if v[0] == 'utf8':
        v = v[1]
    return segs_of(v)


def do_write(E, st, w, segs, sp, whole=True):
    """write segs to w; outcomes with unit payload inside Ok"""
    t = wterm(E, st, w)
    if t[0] == 'vec':
        v = E.read(st, t[1])
        E.write(st, t[1], mk_vec(segs_of(v) + tuple(segs)))
        return [('ok', st)]
    if t[0] == 'bufw':
        v = E.read(st, t[1])
        E.write(st, t[1], ('agg', '$bufw', 0, (v[3][0], TRUE)))
        inner = v[3][0]
        w2 = inner if inner[0] == 'ref' else ('ref', t[1][0], t[1][1] + (('f', None, 0),))
        return do_write(E, st, w2, segs, sp, whole)
    a, b = st.fork(), st.fork()
    a.emit(('W' if whole else 'Wpart', t[1], tuple(segs), sp))
    e = ioerr(b)
    b.emit(('Werr', t[1], e, sp))
    return [('ok', a), ('err', b, e)]


def wres(outs, okval):
    return [('ret', o[1], Ok(okval)) if o[0] == 'ok' else ('ret', o[1], Err(o[2])) for o in outs]


@model('Write::write_all')
def m_write_all(E, st, c):
    v = val(E, st, c.args[1])
    return wres(do_write(E, st, c.args[0], bytes_segs(E, st, v), c.sp), UNIT)


@model('Write::write')
def m_write(E, st, c):
    v = val(E, st, c.args[1])
    t = wterm(E, st, c.args[0])
    n = seq_len(v)
    if t[0] == 'vec':
        do_write(E, st, c.args[0], bytes_segs(E, st, v), c.sp)
        return ret(st, Ok(n))
    outs = do_write(E, st, c.args[0], bytes_segs(E, st, v), c.sp, whole=False)
    res = []
    for o in outs:
        if o[0] == 'ok':
            k = sym(o[1], 'written')
            E.rng[k] = (0, (1 << 63) - 1)
            E.assume(o[1], ('cmp', '<=', k, n), True)
            o[1].ev = o[1].ev[:-1] + (o[1].ev[-1] + (k, n),)
            res.append(('ret', o[1], Ok(k)))
        else:
            res.append(('ret', o[1], Err(o[2])))
    return res


@model('Write::flush')
def m_flush(E, st, c):
    t = wterm(E, st, c.args[0])
    if t[0] == 'vec':
        return ret(st, Ok(UNIT))
    if t[0] == 'bufw':
        v = E.read(st, t[1])
        E.write(st, t[1], ('agg', '$bufw', 0, (v[3][0], FALSE)))
    a, b = st.fork(), st.fork()
    a.emit(('flush', c.sp))
    e = ioerr(b)
    b.emit(('Werr', 'flush', e, c.sp))
    return [('ret', a, Ok(UNIT)), ('ret', b, Err(e))]


@model('Write::by_ref', 'Read::by_ref')
def m_by_ref(E, st, c):
    return ret(st, c.args[0])


@model('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new')
def m_bufw(E, st, c):
    return ret(st, ('agg', '$bufw', 0, (c.args[-1], FALSE)))


@model('BufWriter::into_inner')
def m_bufw_into(E, st, c):
    v = c.args[0]
    a, b = st.fork(), st.fork()
    e = ioerr(b)
    b.emit(('Werr', 'flush', e, c.sp))
    return [('ret', a, Ok(v[3][0])), ('ret', b, Err(e))]


def endian(c):
    for t in c.tyargs():
        s = t['s']
        if 'BigEndian' in s or s.endswith('NetworkEndian'):
            return 'big'
        if 'LittleEndian' in s or 'NativeEndian' in s:
            return 'little'
    return 'little'


def _bo_write(bits, flt=False):
    def m(E, st, c):
        n = bits // 8
        v = c.args[1]
        bs = fbytes(v, n) if flt else [E.byte(st, v, i) for i in range(n)]
        if endian(c) == 'big':
            bs.reverse()
        return wres(do_write(E, st, c.args[0], [('one', b) for b in bs], c.sp), UNIT)
    return m


def fbytes(v, n):
    if v[0] == 'fle':
        return list(v[1])
    return [('fb', v, i) for i in range(n)]


for _b in (8, 16, 32, 64, 128):
    for _s in 'iu':
        MODELS['WriteBytesExt::write_%s%d' % (_s, _b)] = _bo_write(_b)
for _b in (32, 64):
    MODELS['WriteBytesExt::write_f%d' % _b] = _bo_write(_b, True)
for _b, _n in ((24, 3), (48, 6)):
    for _s in 'iu':
        MODELS['WriteBytesExt::write_%s%d' % (_s, _b)] = _bo_write(_b)


# ================================================================ readers
def rterm(E, st, a):
    """resolve a reader: ('mem', loc) holding a $mem | ('take', loc) | ('ext', id)"""
    for _ in range(30):
        loc = loc_of(a)
        v = E.read(st, loc)
        if v[0] == 'ref':
            w = val(E, st, v)
            if is_seq(w):
                E.write(st, loc, ('agg', '$mem', 0, (w,)))
                return ('mem', loc)
            a = v
            continue
        if v[0] == 'agg':
            if v[1] == '$mem':
                return ('mem', loc)
            if v[1] == '$take':
                return ('take', loc)
            if v[1] in ('$buf',):
                x = v[3][0]
                a = x if x[0] == 'ref' else ('ref', loc[0], loc[1] + (('f', None, 0),))
                continue
            if v[1] in ('array',):
                return ('mem', loc)
            raise Unk('reader %s' % show(v))
        return ('ext', v)
    raise Unk('reader chain')


def is_seq(v):
    return v[0] in ('vec', 'bs', 's', 'slice', 'bytes') or (v[0] == 'agg' and v[1] == 'array')


def find_stream(E, st, a):
    """stream inside a deserializer value"""
    try:
        _, v = deep_loc(E, st, a)
    except Unk:
        return ('sym', '?', 0, ())
    def go(v, d=0):
        if d > 8:
            return None
        if v[0] == 'ref':
            try:
                return go(E.read(st, (v[1], v[2])), d + 1)
            except Unk:
                return None
        if v[0] == 'agg':
            if v[1] in ('$buf', '$mem', '$take'):
                return v[3][0] if v[1] != '$buf' or v[3][0][0] not in ('ref', 'agg') else go(v[3][0], d + 1)
            for x in v[3]:
                r = go(x, d + 1)
                if r is not None:
                    return r
        return None
    return go(v) or v


def eof(st):
    return ('agg', 'std::io::Error', 0, (('s', 'UnexpectedEof'),))


def do_read(E, st, r, n, sp):
    """read exactly n (constant) bytes: [('ok', st, bytes) | ('err', st, e)]"""
    t = rterm(E, st, r)
    if t[0] == 'ext':
        a, b = st.fork(), st.fork()
        k = a.fresh()
        bs = [('rb', k, i, a.ctx) for i in range(n)]
        b.fresh()
        a.emit(('R', t[1], tuple(('one', x) for x in bs), sp))
        e = ioerr(b)
        b.emit(('Rerr', t[1], e, sp))
        return [('ok', a, bs), ('err', b, e)]
    if t[0] == 'mem':
        v = E.read(st, t[1])
        seq = v[3][0] if v[1] == '$mem' else v
        if seq[0] in ('bytes', 'elem', '*', 'fld', 'sym', 'slice'):
            out = []
            for ok, s in E.split(st, ('cmp', '<=', I(n), seq_len(seq))):
                if ok:
                    bs = [seq_get(seq, I(i)) for i in range(n)]
                    for b in bs:
                        if b[0] == 'elem':
                            E.rng[b] = (0, 255)
                    E.write(s, t[1], ('agg', '$mem', 0, (slice_of2(seq, I(n)),)))
                    s.emit(('R', 'mem', tuple(('one', x) for x in bs), sp))
                    out.append(('ok', s, bs))
                else:
                    e = ioerr(s)
                    s.emit(('Rerr', 'mem', e, sp))
                    out.append(('err', s, e))
            return out
        ss = segs_of(seq)
        bs = []
        for s in ss[:n]:
            if s[0] != 'one':
                raise Unk('memory read of %s' % show(seq))
            bs.append(s[1])
        if len(bs) < n:
            e = ioerr(st)
            st.emit(('Rerr', 'mem', e, sp))
            return [('err', st, e)]
        E.write(st, t[1], ('agg', '$mem', 0, (mk_vec(ss[n:]),)))
        return [('ok', st, bs)]
    if t[0] == 'take':
        v = E.read(st, t[1])
        out = []
        for ok, s in E.split(st, ('cmp', '<=', I(n), v[3][1])):
            if ok:
                E.write(s, t[1], ('agg', '$take', 0, (v[3][0], sub(v[3][1], I(n)))))
                out += do_read(E, s, inner_ref(v, t[1]), n, sp)
            else:
                e = ioerr(s)
                s.emit(('Rerr', 'take', e, sp))
                out.append(('err', s, e))
        return out
    raise Unk('reader')


def inner_ref(v, loc):
    x = v[3][0]
    return x if x[0] == 'ref' else ('ref', loc[0], loc[1] + (('f', None, 0),))


def slice_of2(seq, lo):
    return slice_of(seq, lo, seq_len(seq))


def _bo_read(bits, signed, flt=False):
    def m(E, st, c):
        res = []
        for o in do_read(E, st, c.args[0], bits // 8, c.sp):
            if o[0] == 'ok':
                bs = list(o[2])
                if endian(c) == 'big':
                    bs.reverse()
                v = ('fle', tuple(bs)) if flt else E.le_compose(o[1], bs, signed)
                res.append(('ret', o[1], Ok(v)))
            else:
                res.append(('ret', o[1], Err(o[2])))
        return res
    return m


for _b in (8, 16, 24, 32, 48, 64, 128):
    MODELS['ReadBytesExt::read_u%d' % _b] = _bo_read(_b, False)
    MODELS['ReadBytesExt::read_i%d' % _b] = _bo_read(_b, True)
for _b in (32, 64):
    MODELS['ReadBytesExt::read_f%d' % _b] = _bo_read(_b, False, True)


@model('Read::read_exact')
def m_read_exact(E, st, c):
    loc, v = deep_loc(E, st, c.args[1])
    n = seq_len(v)
    if not is_c(n):
        # symbolic length: all n bytes or an error
        t = rterm(E, st, c.args[0])
        if t[0] != 'ext':
            raise Unk('read_exact of symbolic length from memory')
        a, b = st.fork(), st.fork()
        k = ('k', ('rd', a.fresh(), a.ctx))
        b.fresh()
        seg = ('c', n, k, ('rb', a.n, k, a.ctx))
        a.emit(('R', t[1], (seg,), c.sp))
        E.write(a, loc, mk_vec((seg,)))
        if not E.refine(b, n, ((1, INF),)):
            return ret(a, Ok(UNIT))
        e = ioerr(b)
        b.emit(('Rerr', t[1], e, c.sp))
        return [('ret', a, Ok(UNIT)), ('ret', b, Err(e))]
    res = []
    for o in do_read(E, st, c.args[0], n[1], c.sp):
        if o[0] == 'ok':
            new = ('agg', 'array', None, tuple(o[2]))
            if v[0] == 'vec':
                new = mk_vec(segs_of(new))
            E.write(o[1], loc, new)
            res.append(('ret', o[1], Ok(UNIT)))
        else:
            res.append(('ret', o[1], Err(o[2])))
    return res


@model('Read::read')
def m_read(E, st, c):
    loc, v = deep_loc(E, st, c.args[1])
    n = seq_len(v)
    t = rterm(E, st, c.args[0])
    a, b = st.fork(), st.fork()
    k = sym(a, 'nread')
    b.fresh()
    E.rng[k] = (0, (1 << 63) - 1)
    E.assume(a, ('cmp', '<=', k, n), True)
    a.emit(('Rpart', t[1], n, c.sp, k))
    if is_c(n):
        E.write(a, loc, ('agg', 'array', None, tuple(('sym', 'maybe-read', a.fresh(), a.ctx) for _ in range(n[1]))))
        for x in E.read(a, loc)[3]:
            E.rng[x] = (0, 255)
    else:
        E.write(a, loc, sym(a, 'maybe-read'))
    e = ioerr(b)
    b.emit(('Rerr', t[1], e, c.sp))
    return [('ret', a, Ok(k)), ('ret', b, Err(e))]


@model('Read::take')
def m_take(E, st, c):
    return ret(st, ('agg', '$take', 0, (c.args[0], c.args[1])))


@model('Take::limit')
def m_take_limit(E, st, c):
    v = val(E, st, c.args[0])
    return ret(st, v[3][1])


@model('Take::into_inner')
def m_take_into(E, st, c):
    return ret(st, c.args[0][3][0])


@model('Read::read_to_end')
def m_read_to_end(E, st, c):
    loc, v = deep_loc(E, st, c.args[1])
    t = rterm(E, st, c.args[0])
    limit = None
    tk = None
    while t[0] == 'take':
        tv = E.read(st, t[1])
        limit = tv[3][1] if limit is None else ('min', limit, tv[3][1])
        tk = t[1]
        t = rterm(E, st, inner_ref(tv, t[1]))
    if t[0] == 'ext':
        a, b = st.fork(), st.fork()
        m = sym(a, 'got')
        E.rng[m] = (0, (1 << 63) - 1)
        if limit is not None:
            E.assume(a, ('cmp', '<=', m, limit), True)
        k = ('k', ('rd', a.fresh(), a.ctx))
        seg = ('c', m, k, ('rb', a.n, k, a.ctx))
        b.fresh(); b.fresh()
        a.emit(('Rall', t[1], seg, limit, c.sp))
        E.write(a, loc, mk_vec(segs_of(v) + (seg,)))
        if tk is not None:
            tv = E.read(a, tk)
            E.write(a, tk, ('agg', '$take', 0, (tv[3][0], sub(limit, m))))
        if limit is not None and not E.refine(b, limit, ((1, INF),)):
            return ret(a, Ok(m))      # nothing is asked of the source
        e = ioerr(b)
        b.emit(('Rerr', t[1], e, c.sp))
        return [('ret', a, Ok(m)), ('ret', b, Err(e))]
    mv = E.read(st, t[1])
    seq = mv[3][0]
    if limit is None:
        E.write(st, loc, mk_vec(segs_of(v) + segs_of(seq)))
        E.write(st, t[1], ('agg', '$mem', 0, (('vec', ()),)))
        return ret(st, Ok(seq_len(seq)))
    limit = E.norm(st, limit)
    out = []
    for ok, s in E.split(st, ('cmp', '<=', limit, seq_len(seq))):
        if not ok:
            E.write(s, loc, mk_vec(segs_of(v) + segs_of(seq)))
            E.write(s, t[1], ('agg', '$mem', 0, (('vec', ()),)))
            out.append(('ret', s, Ok(seq_len(seq))))
            continue
        got, rest = split_at(E, s, seq, limit)
        E.write(s, loc, mk_vec(segs_of(v) + segs_of(got)))
        E.write(s, t[1], ('agg', '$mem', 0, (rest,)))
        out.append(('ret', s, Ok(limit)))
    return out


def split_at(E, st, seq, n):
    """(first n elements, rest)"""
    if seq[0] not in ('vec', 'agg', 'bs', 's'):
        return slice_of(seq, ZERO, n), slice_of2(seq, n)
    ss = segs_of(seq)
    acc = ZERO
    for i in range(len(ss) + 1):
        d = E.norm(st, sub(n, acc))
        if d == ZERO:
            return mk_vec(ss[:i]), mk_vec(ss[i:])
        if i < len(ss):
            if ss[i][0] == 'all' and E.norm(st, sub(d, seg_len(ss[i]))) != ZERO and E.truth(st, ('cmp', '<=', ZERO, d)) == 1 and E.truth(
                    st, ('cmp', '<=', d, seg_len(ss[i]))) == 1:
                x = ss[i][1]
                return mk_vec(ss[:i] + (('all', slice_of(x, ZERO, d)),)), mk_vec((('all', slice_of2(x, d)),) + ss[i + 1:])
            acc = add(acc, seg_len(ss[i]))
    raise Unk('split of %s at %s' % (show(seq), show(n)))


@model('Read::read_to_string')
def m_read_to_string(E, st, c):
    t = rterm(E, st, c.args[0])
    a, b = st.fork(), st.fork()
    v = sym(a, 'text')
    a.emit(('Rall', t[1], ('all', v), None, c.sp))
    loc, _ = deep_loc(E, st, c.args[1])
    E.write(a, loc, v)
    e = ioerr(b)
    b.emit(('Rerr', t[1], e, c.sp))
    return [('ret', a, Ok(('len', v))), ('ret', b, Err(e))]


@model('BufReader::new', 'BufReader::with_capacity')
def m_bufreader(E, st, c):
    x = c.args[-1]
    ty = c.tyargs()
    if x[0] == 'ref' and any(t['s'].startswith('&') and '[u8]' in t['s'] and not t['s'].startswith('&mut') for t in ty):
        return ret(st, ('agg', '$buf', 0, (('agg', '$mem', 0, (val(E, st, x),)),)))
    return ret(st, ('agg', '$buf', 0, (x,)))


@model('Cursor::new')
def m_cursor(E, st, c):
    v = val(E, st, c.args[0])
    return ret(st, ('agg', '$mem', 0, (v,)))


@model('BufReader::get_ref', 'BufReader::get_mut', 'Cursor::get_ref')
def m_getref(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    if v[0] == 'agg' and v[1] == '$buf':
        return ret(st, ('ref', loc[0], loc[1] + (('f', None, 0),)))
    raise Unk('get_ref')


@model('BufReader::into_inner', 'Cursor::into_inner')
def m_into_inner(E, st, c):
    return ret(st, c.args[0][3][0])


def _peek(E, st, c, kind):
    t = rterm(E, st, c.args[0])
    if t[0] == 'mem':
        v = E.read(st, t[1])
        return st, ref_to(v[3][0]), t
    v = ('sym', kind, st.fresh(), st.ctx)
    st.emit((kind, t[1], v, c.sp))
    return st, ref_to(v), t


@model('BufRead::fill_buf')
def m_fill_buf(E, st, c):
    t = rterm(E, st, c.args[0])
    if t[0] == 'mem':
        s, r, _ = _peek(E, st, c, 'peek')
        return ret(s, Ok(r))
    a, b = st.fork(), st.fork()
    s, r, _ = _peek(E, a, c, 'peek')
    e = ioerr(b)
    b.emit(('Rerr', t[1], e, c.sp))
    return [('ret', s, Ok(r)), ('ret', b, Err(e))]


@model('BufReader::buffer')
def m_buffer(E, st, c):
    s, r, t = _peek(E, st, c, 'buffered')
    return ret(s, r)


@model('BufRead::consume')
def m_consume(E, st, c):
    t = rterm(E, st, c.args[0])
    st.emit(('consume', t[1], c.args[1], c.sp))
    return ret(st, UNIT)


# ================================================================ numbers
def _from_prim(E, st, c):
    tid = c.f.get('impl_self')
    if tid is None:
        tid = c.f['args'][0]
    T = E.T[tid]
    if T['k'] != 'int':
        v = ('app', c.path, (c.args[0],), 0)
        return [('ret', st.fork(), Some(v)), ('ret', st.fork(), NONE)]
    lo, hi = trange(T['w'], T['sg'])
    res = []
    for x, s in E.split(st, ('out', c.args[0], lo, hi)):
        res.append(('ret', s, NONE if x else Some(E.norm(s, c.args[0]))))
    return res


for _t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    MODELS['FromPrimitive::from_' + _t] = _from_prim


def _to_prim(w, sg):
    def m(E, st, c):
        v = val(E, st, c.args[0])
        lo, hi = trange(w, sg)
        res = []
        for x, s in E.split(st, ('out', v, lo, hi)):
            res.append(('ret', s, NONE if x else Some(E.norm(s, v))))
        return res
    return m


for _t, _w in (('8', 8), ('16', 16), ('32', 32), ('64', 64), ('128', 128), ('size', 64)):
    MODELS['ToPrimitive::to_i' + _t] = _to_prim(_w, True)
    MODELS['ToPrimitive::to_u' + _t] = _to_prim(_w, False)


@model('NumCast::from', 'cast::cast')
def m_numcast(E, st, c):
    T = E.T[c.f['args'][-1] if key_of(c.f) == 'cast::cast' else c.f['args'][0]]
    if T['k'] != 'int':
        raise Unk('NumCast')
    return _to_prim(T['w'], T['sg'])(E, st, c)


def num_ty(c):
    """integer type of an inherent method, from its path or arguments"""
    m = re.search(r'<impl ([iu])(\d+|size)>', c.path)
    if not m:
        raise Unk('numeric method ' + c.path)
    return (64 if m.group(2) == 'size' else int(m.group(2))), m.group(1) == 'i'


@model('num::unsigned_abs')
def m_unsigned_abs(E, st, c):
    v = c.args[0]
    return [('ret', s, sub(ZERO, v) if x else v) for x, s in E.split(st, ('cmp', '<', v, ZERO))]


@model('num::to_le_bytes', 'num::to_ne_bytes')
def m_to_le(E, st, c):
    w, sg = num_ty(c)
    return ret(st, ('agg', 'array', None, tuple(E.byte(st, c.args[0], i) for i in range(w // 8))))


@model('num::to_be_bytes')
def m_to_be(E, st, c):
    w, sg = num_ty(c)
    return ret(st, ('agg', 'array', None, tuple(E.byte(st, c.args[0], i) for i in reversed(range(w // 8)))))


@model('num::from_le_bytes', 'num::from_ne_bytes')
def m_from_le(E, st, c):
    w, sg = num_ty(c)
    return ret(st, E.le_compose(st, E.elems(c.args[0]), sg))


@model('num::from_be_bytes')
def m_from_be(E, st, c):
    w, sg = num_ty(c)
    return ret(st, E.le_compose(st, list(reversed(E.elems(c.args[0]))), sg))


@model('f32::to_le_bytes', 'f32::to_ne_bytes', 'f64::to_le_bytes', 'f64::to_ne_bytes')
def m_f_to_le(E, st, c):
    n = 4 if 'f32' in c.path else 8
    return ret(st, ('agg', 'array', None, tuple(fbytes(c.args[0], n))))


@model('f32::to_be_bytes', 'f64::to_be_bytes')
def m_f_to_be(E, st, c):
    n = 4 if 'f32' in c.path else 8
    return ret(st, ('agg', 'array', None, tuple(reversed(fbytes(c.args[0], n)))))


@model('f32::to_bits', 'f64::to_bits')
def m_f_bits(E, st, c):
    n = 4 if 'f32' in c.path else 8
    bs = fbytes(c.args[0], n)
    for b in bs:
        if b[0] == 'fb':
            E.rng[b] = (0, 255)
    return ret(st, ('fbits', c.args[0], n))


@model('f32::from_bits', 'f64::from_bits')
def m_f_from_bits(E, st, c):
    n = 4 if 'f32' in c.path else 8
    v = c.args[0]
    if v[0] == 'fbits':
        return ret(st, v[1])
    return ret(st, ('fle', tuple(E.byte(st, v, i) for i in range(n))))


@model('f32::from_le_bytes', 'f64::from_le_bytes', 'f32::from_ne_bytes', 'f64::from_ne_bytes')
def m_f_from_le(E, st, c):
    return ret(st, ('fle', tuple(E.elems(c.args[0]))))


@model('f32::from_be_bytes', 'f64::from_be_bytes')
def m_f_from_be(E, st, c):
    return ret(st, ('fle', tuple(reversed(E.elems(c.args[0])))))


@model('num::max_value')
def m_max(E, st, c):
    return ret(st, I(trange(*num_ty(c))[1]))


@model('num::min_value')
def m_min(E, st, c):
    return ret(st, I(trange(*num_ty(c))[0]))


def _wrapping(op):
    def m(E, st, c):
        w, sg = num_ty(c)
        a, b = c.args[0], c.args[1]
        r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
        return ret(st, E.trunc(st, r, w, sg))
    return m


def mul(a, b):
    if is_c(a):
        return scale(b, a[1])
    if is_c(b):
        return scale(a, b[1])
    return ('mul',) + tuple(sorted((a, b), key=repr))


def _checked(op):
    def m(E, st, c):
        w, sg = num_ty(c)
        lo, hi = trange(w, sg)
        a, b = c.args[0], c.args[1]
        r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
        res = []
        for x, s in E.split(st, ('out', r, lo, hi)):
            res.append(('ret', s, NONE if x else Some(E.norm(s, r))))
        return res
    return m


def _overflowing(op):
    def m(E, st, c):
        w, sg = num_ty(c)
        lo, hi = trange(w, sg)
        a, b = c.args[0], c.args[1]
        r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
        return ret(st, tup(E.trunc(st, r, w, sg), ('out', r, lo, hi)))
    return m


def _saturating(op):
    def m(E, st, c):
        w, sg = num_ty(c)
        lo, hi = trange(w, sg)
        a, b = c.args[0], c.args[1]
        r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
        res = []
        for x, s in E.split(st, ('cmp', '<', r, I(lo))):
            if x:
                res.append(('ret', s, I(lo)))
                continue
            for y, s2 in E.split(s, ('cmp', '<', I(hi), r)):
                res.append(('ret', s2, I(hi) if y else E.norm(s2, r)))
        return res
    return m


for _o in ('add', 'sub', 'mul'):
    MODELS['num::wrapping_' + _o] = _wrapping(_o)
    MODELS['num::checked_' + _o] = _checked(_o)
    MODELS['num::overflowing_' + _o] = _overflowing(_o)
    MODELS['num::saturating_' + _o] = _saturating(_o)


def flog2(E, st, x):
    r = ('flog2', x)
    v = E.iv(st, r)
    return I(v[0][0]) if v and v[0][0] == v[-1][1] else r


@model('num::leading_zeros')
def m_leading_zeros(E, st, c):
    w, sg = num_ty(c)
    x = c.args[0]
    if sg:
        return NotImplemented
    out = []
    for z, s in E.split(st, ('cmp', '==', x, ZERO)):
        out.append(('ret', s, I(w) if z else sub(I(w - 1), flog2(E, s, x))))
    return out


@model('num::ilog2', 'num::checked_ilog2')
def m_ilog2(E, st, c):
    x = c.args[0]
    chk = c.path.endswith('checked_ilog2')
    out = []
    for z, s in E.split(st, ('cmp', '<=', x, ZERO)):
        if z:
            out.append(('ret', s, NONE) if chk else ('panic', s, ('ilog2 of zero', c.sp, E.stack[-1] if E.stack else '')))
        else:
            r = flog2(E, s, x)
            out.append(('ret', s, Some(r) if chk else r))
    return out


FLOATS = {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'abs': abs,
          'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}


def m_float(E, st, c):
    """a function of a floating point constant"""
    from engine import fval, fmake
    f = c.path.split('::')[-1]
    x = [fval(a) for a in c.args]
    if any(v is None or v != v or math.isinf(v) for v in x) or any(a[1] != 64 for a in c.args):
        return NotImplemented
    if f in ('log2', 'sqrt') and x[0] > 0:
        return [('ret', st, fmake(math.log2(x[0]) if f == 'log2' else math.sqrt(x[0]), 64))]
    if f == 'exp2' and abs(x[0]) < 60 and x[0] == int(x[0]) or f == 'powi':
        return NotImplemented
    if f in FLOATS:
        return [('ret', st, fmake(float(FLOATS[f](x[0])), 64))]
    return NotImplemented


for _f in ('log2', 'sqrt') + tuple(FLOATS):
    for _p in ('std::f64::%s', 'f64::%s', 'core::f64::%s', 'std::f64::<impl f64>::%s', 'core::f64::<impl f64>::%s'):
        MODELS[_p % _f] = m_float


@model('num::pow', 'num::checked_pow', 'num::wrapping_pow', 'num::saturating_pow')
def m_pow(E, st, c):
    w, sg = num_ty(c)
    a, b = (settle(E, st, x) for x in c.args)
    if not (is_c(a) and is_c(b)) or sg:
        return NotImplemented
    v, f = a[1] ** min(b[1], 300), c.path.split('::')[-1]
    if v < 1 << w:
        return [('ret', st, Some(I(v)) if f == 'checked_pow' else I(v))]
    if f == 'pow':
        return [('panic', st, ('overflow of pow', c.sp, E.stack[-1] if E.stack else ''))]
    if f == 'checked_pow':
        return [('ret', st, NONE)]
    return [('ret', st, I((1 << w) - 1 if f == 'saturating_pow' else pow(a[1], b[1], 1 << w)))]


@model('num::next_power_of_two', 'num::is_power_of_two', 'num::div_ceil', 'num::count_ones')
def m_pow2(E, st, c):
    x = [settle(E, st, a) for a in c.args]
    w, sg = num_ty(c)
    if not all(is_c(a) for a in x) or sg:
        return NotImplemented
    f, v = c.path.split('::')[-1], x[0][1]
    if f == 'is_power_of_two':
        return [('ret', st, TRUE if bin(v).count('1') == 1 else FALSE)]
    if f == 'count_ones':
        return [('ret', st, I(bin(v).count('1')))]
    if f == 'next_power_of_two':
        r = 1 if v == 0 else 1 << (v - 1).bit_length()
        return [('ret', st, I(r))] if r < 1 << w else NotImplemented
    return [('ret', st, I(-(-v // x[1][1])))] if x[1][1] else NotImplemented


def settle(E, st, v):
    v = E.norm(st, v)
    r = E.iv(st, v) if not is_c(v) else None
    return I(r[0][0]) if r and r[0][0] == r[-1][1] else v


@model('num::checked_rem', 'num::checked_div')
def m_checked_div(E, st, c):
    w, sg = num_ty(c)
    a, b = c.args
    if sg:
        return NotImplemented
    op = 'Rem' if c.path.endswith('rem') else 'Div'
    out = []
    for z, s in E.split(st, ('cmp', '==', b, ZERO)):
        out.append(('ret', s, NONE if z else Some(E.binop(s, op, a, b, (c.atys or [None])[0]))))
    return out


@model('num::wrapping_shl', 'num::wrapping_shr')
def m_wshift(E, st, c):
    w, sg = num_ty(c)
    if not is_c(c.args[1]):
        raise Unk('variable shift')
    k = c.args[1][1] % w
    if c.path.endswith('shl'):
        return ret(st, E.trunc(st, scale(c.args[0], 1 << k), w, sg))
    return ret(st, E.shr(st, c.args[0], k))


@model('num::checked_shl')
def m_cshl(E, st, c):
    w, sg = num_ty(c)
    k = c.args[1]
    if not is_c(k):
        raise Unk('variable shift')
    return ret(st, Some(E.trunc(st, scale(c.args[0], 1 << k[1]), w, sg)) if k[1] < w else NONE)


def const_str(v):
    """the text of a constant string, or None"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'bs':
        return v[1].decode('latin1') if max(v[1], default=0) < 128 else None
    if v[0] in ('bytes', 'utf8'):
        return const_str(v[1])
    xs = v[3] if v[0] == 'agg' and v[1] == 'array' else v[1] if v[0] == 'vec' else None
    if xs is not None:
        if all(x[0] == 'i' and 0 <= x[1] < 128 for x in xs):
            return ''.join(chr(x[1]) for x in xs)
        return None
    if v[0] == 'slice' and v[2][0] == 'i' and v[3][0] == 'i':
        s = const_str(v[1])
        if s is not None and s.isascii():
            return s[v[2][1]:v[3][1]]
    return None


def _strip(end):
    def f(s, pat):
        n = len(pat)
        while n and (s.endswith(pat) if end else s.startswith(pat)):
            s = s[:-n] if end else s[n:]
        return s
    return f


STR_FOLD = {
    'to_lowercase': str.lower, 'to_uppercase': str.upper, 'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper,
    'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip,
    'trim_end_matches': _strip(True), 'trim_start_matches': _strip(False), 'trim_matches': lambda s, p: _strip(True)(_strip(False)(s, p), p),
    'replace': lambda s, a, b: s.replace(a, b), 'repeat': None,
}


@model(*['str::' + x for x in STR_FOLD if STR_FOLD[x]])
def m_str_fold(E, st, c):
    """functions of constant ASCII strings, folded"""
    op = [x for x in re.findall(r'\w+', c.path) if STR_FOLD.get(x)][-1]
    f = STR_FOLD[op]
    xs = []
    for a in c.args:
        v = val(E, st, a)
        x = const_str(v)
        if x is None and v[0] == 'i' and v[1] < 128 and xs:
            x = chr(v[1])
        if x is None or not x.isascii():
            t = ('strfn', op) + tuple(val(E, st, y) for y in c.args)
            return ret(st, t if op in ('replace',) or op.startswith('to_') else ref_to(t))
        xs.append(x)
    s = ('s', f(*xs))
    owned = not op.startswith('trim')
    return ret(st, s if owned else ref_to(s))


@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case')
def m_str_test(E, st, c):
    op = [x for x in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case') if '::' + x in c.path][-1]
    if len(c.args) != 2:
        return NotImplemented
    a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
    if a[0] == 'clo' or b[0] in ('clo', 'fn'):
        return NotImplemented
    if a[0] == 's' and b[0] == 's':
        r = {'starts_with': a[1].startswith, 'ends_with': a[1].endswith, 'contains': lambda x: x in a[1],
             'eq_ignore_ascii_case': lambda x: a[1].lower() == x.lower()}[op](b[1])
        return ret(st, I(1 if r else 0))
    if a == b:
        return ret(st, TRUE)
    return ret(st, ('pred', op, a, b))


@model('num::is_ascii', 'str::is_ascii', 'slice::is_ascii', 'ascii::is_ascii', 'methods::is_ascii', 'char::is_ascii')
def m_is_ascii(E, st, c):
    v = val(E, st, c.args[0])
    if v[0] == 's':
        return ret(st, I(1 if v[1].isascii() else 0))
    if 'num' in c.path or 'char' in c.path:
        return ret(st, ('cmp', '<', v, I(128)))
    return ret(st, ('pred', 'ascii', v))


@model('num::is_negative')
def m_isneg(E, st, c):
    return ret(st, ('cmp', '<', c.args[0], ZERO))


@model('num::is_positive')
def m_ispos(E, st, c):
    return ret(st, ('cmp', '<', ZERO, c.args[0]))


@model('cmp::min', 'Ord::min')
def m_cmin(E, st, c):
    a, b = c.args
    res = []
    for x, s in E.split(st, ('cmp', '<=', a, b)):
        res.append(('ret', s, a if x else b))
    return res


@model('cmp::max', 'Ord::max')
def m_cmax(E, st, c):
    a, b = c.args
    res = []
    for x, s in E.split(st, ('cmp', '<=', a, b)):
        res.append(('ret', s, b if x else a))
    return res


@model('char::from_u32', 'convert::from_u32', 'char::from')
def m_from_u32(E, st, c):
    v = c.args[0]
    r = E.iv(st, v)
    if r and r[0][0] >= 0 and r[-1][1] < 0xd800:
        return ret(st, Some(v))
    a, b = st.fork(), st.fork()
    res = []
    if E.refine(a, v, ((0, 0xd7ff), (0xe000, 0x10ffff))):
        res.append(('ret', a, Some(v)))
    if E.refine(b, v, ((-INF, -1), (0xd800, 0xdfff), (0x110000, INF))):
        res.append(('ret', b, NONE))
    return res


@model('char::is_ascii_digit', 'methods::len_utf8', 'char::len_utf8')
def m_char_opaque(E, st, c):
    v = ('app', key_of(c.f), (val(E, st, c.args[0]),), 0)
    return ret(st, v)


# ================================================================ comparison
def is_stringy(E, st, t, v):
    return v[0] in ('s', 'utf8')


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(E, st, c):
    a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
    neg = c.path.endswith('::ne')
    rp = c.rpath
    if 'str' in rp or 'String' in rp or a[0] == 's' or b[0] == 's' or any(t['s'] in ('str', 'std::string::String', '&str') for t in c.tyargs()):
        t = ('streq',) + tuple(sorted((a, b), key=repr))
        x = E.truth(st, t)
        if x is not None:
            t = I(x)
    elif any(E.int_ty(i) for i in c.f.get('args', []) if isinstance(i, int)):
        t = ('cmp', '==', a, b)
        x = E.truth(st, t)
        if x is not None:
            t = I(x)
    else:
        t = eq_struct(E, st, a, b)
    if neg:
        t = I(1 - t[1]) if is_c(t) else ('not', t)
    return ret(st, t)


def is_num(E, t):
    return t[0] in ('i', 'lin', 'trunc', 'B', 'rb', 'len') or t in E.rng


def eq_struct(E, st, a, b):
    if a[0] == 'ref' or b[0] == 'ref':
        a, b = val(E, st, a), val(E, st, b)   # references compare what they point to
    if a == b:
        return TRUE
    if is_num(E, a) and is_num(E, b):
        t = ('cmp', '==', a, b)
        r = E.truth(st, t)
        return t if r is None else I(r)
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[1] not in ('array',) and not a[3] and not b[3]:
        return I(1 if a[2] == b[2] else 0)
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] == OPT and (a[2] != b[2] or a[2]):
        # the derived comparison of an optional value
        if a[2] != b[2]:
            return FALSE
        x, y = a[3][0], b[3][0]
        if is_num(E, x) and is_num(E, y):
            t = ('cmp', '==', x, y)
            r = E.truth(st, t)
            return t if r is None else I(r)
        return eq_struct(E, st, x, y)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'agg' and not x[3] and y[0] in ('fld', 'sym', '*', 'elem'):
            adt = E.p.adts.get(x[1])
            if adt and adt['k'] == 'enum' and not any(v['fields'] for v in adt['variants']):
                ds = E.discrs(x[1])
                t = ('discr', y)
                E.rng.setdefault(t, (min(ds), max(ds)))
                t = ('cmp', '==', t, I(ds[x[2]]))
                r = E.truth(st, t)
                return t if r is None else I(r)
    if a[0] == 'i' or b[0] == 'i':
        t = ('cmp', '==', a, b)
        r = E.truth(st, t)
        return t if r is None else I(r)
    return ('peq',) + tuple(sorted((a, b), key=repr))


# ================================================================ moves, clones, defaults
@model('Clone::clone', 'ToOwned::to_owned', 'Box::new', 'Rc::new', 'Arc::new', 'slice::to_vec', 'str::to_owned',
       'hint::must_use', 'hint::black_box', 'String::into_boxed_str', 'str::into_string', 'Vec::into_boxed_slice',
       'slice::into_vec', 'boxed::box_new', 'String::into_string', 'str::to_string', 'ToString::to_string', 'Cow::into_owned',
       'Cow::to_mut')
def m_ident(E, st, c):
    k = key_of(c.f)
    a = c.args[0]
    if k in ('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'str::to_owned', 'str::to_string'):
        loc = loc_of(a)
        v = E.read(st, loc)
        return ret(st, v)
    if k == 'ToString::to_string':
        v = val(E, st, a)
        tys = [t['s'] for t in c.tyargs()]
        s0 = tys[0].lstrip('&').replace("'static ", '') if tys else ''
        if s0 in ('str', 'std::string::String') or v[0] in ('s', 'utf8'):
            return ret(st, v)
        return ret(st, ('app', 'to_string', (v,), 0))
    return ret(st, a)


@model('Cow::deref')
def m_cow(E, st, c):
    return ret(st, c.args[0])


@model('Option::cloned', 'Option::copied')
def m_opt_cloned(E, st, c):
    v = c.args[0]
    if v[0] == 'agg':
        return ret(st, v if v[2] == 0 else Some(E.read(st, loc_of(v[3][0]))))
    raise Unk('Option::cloned of opaque')


@model('Box::new_uninit')
def m_uninit(E, st, c):
    return ret(st, ('sym', 'uninit', 0, ()))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_into_vec(E, st, c):
    return ret(st, mk_vec(segs_of(c.args[0])))


@model('Box::assume_init', 'boxed::assume_init')
def m_assume_init(E, st, c):
    return ret(st, c.args[0])


@model('mem::swap')
def m_swap(E, st, c):
    la, lb = loc_of(c.args[0]), loc_of(c.args[1])
    a, b = E.read(st, la), E.read(st, lb)
    E.write(st, la, b)
    E.write(st, lb, a)
    return ret(st, UNIT)


@model('mem::replace')
def m_replace(E, st, c):
    la = loc_of(c.args[0])
    a = E.read(st, la)
    E.write(st, la, c.args[1])
    return ret(st, a)


def default_of(E, st, tid):
    T = E.T[tid]
    if T['k'] in ('int', 'bool', 'char'):
        return ZERO
    if T['k'] == 'adt':
        if T['path'] == 'std::vec::Vec' or T['path'].endswith('vec::Vec'):
            return ('vec', ())
        if T['path'].endswith('string::String'):
            return ('s', '')
        if T['path'] == OPT:
            return NONE
    if T['k'] == 'tuple' and not T.get('ts'):
        return UNIT
    return None


@model('mem::take')
def m_mtake(E, st, c):
    la = loc_of(c.args[0])
    a = E.read(st, la)
    d = default_of(E, st, c.f['args'][0])
    if d is None:
        raise Unk('mem::take')
    E.write(st, la, d)
    return ret(st, a)


@model('Default::default')
def m_default(E, st, c):
    tid = c.f.get('impl_self')
    if tid is None:
        tid = c.f['args'][0]
    d = default_of(E, st, tid)
    if d is None:
        d = ('app', 'default', (('t', E.T[tid]['s']),), 0)
    return ret(st, d)


@model('mem::drop', 'Drop::drop', 'mem::forget')
def m_drop(E, st, c):
    return ret(st, UNIT)


@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
       'String::as_str', 'str::as_str', 'slice::as_slice', 'Vec::as_ref', 'array::as_slice', 'String::as_mut_str', 'slice::as_ref',
       'Box::as_ref', 'BorrowMut::borrow_mut', 'slice::as_mut', 'Box::leak', 'array::each_ref_')
def m_deref(E, st, c):
    return ret(st, c.args[0])


@model('String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'str::into_bytes')
def m_as_bytes(E, st, c):
    v = val(E, st, c.args[0])
    b = str_bytes(v)
    return ret(st, b if 'into' in c.path else ref_to(b))


def str_bytes(v):
    if v[0] == 's':
        return ('bs', v[1].encode())
    if v[0] == 'utf8':
        return v[1]
    return ('bytes', v)


def bytes_str(v):
    if v[0] == 'bytes':
        return v[1]
    return ('utf8', v)


@model('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def m_from_utf8(E, st, c):
    v = val(E, st, c.args[0])
    byref = c.args[0][0] == 'ref' or not c.path.startswith('std::string')
    wrap = (lambda x: x) if 'string::String' in c.path else ref_to
    if v[0] == 'bytes':
        return ret(st, Ok(wrap(v[1])))
    if v[0] == 'bs' or (v[0] in ('vec', 'agg') and all(s[0] == 'one' and is_c(s[1]) for s in segs_of(v))):
        raw = v[1] if v[0] == 'bs' else bytes(s[1][1] for s in segs_of(v))
        try:
            return ret(st, Ok(wrap(('s', raw.decode()))))
        except UnicodeDecodeError:
            return ret(st, Err(sym(st, 'utf8-err')))
    out = []
    a, b = st.fork(), st.fork()
    p = ('pred', 'utf8', v)
    if E.assume(a, p, True):
        out.append(('ret', a, Ok(wrap(('utf8', v)))))
    if E.assume(b, p, False):
        out.append(('ret', b, Err(sym(b, 'utf8-err'))))
    return out


@model('String::from_utf8_lossy')
def m_lossy(E, st, c):
    v = val(E, st, c.args[0])
    if v[0] == 'bytes':
        return ret(st, v[1])
    return ret(st, ('app', 'from_utf8_lossy', (v,), 0))


@model('String::from_utf8_unchecked', 'str::from_utf8_unchecked', 'converts::from_utf8_unchecked')
def m_unchecked(E, st, c):
    v = val(E, st, c.args[0])
    st.emit(('unsafe-utf8', c.sp))
    return ret(st, bytes_str(v))


@model('From::from', 'Into::into')
def m_from(E, st, c):
    rp = c.rpath
    tys = [t['s'] for t in c.tyargs()]
    a = c.args[0]
    if 'io::Error' in rp and 'ErrorKind' in rp:
        return ret(st, ('agg', 'std::io::Error', 0, (a,)))
    dst = tys[0] if tys else ''
    if dst.startswith('std::string::String') or dst.startswith('std::boxed::Box') or dst.startswith('std::vec::Vec') or 'Cow' in dst or dst.startswith('std::rc') or dst.startswith('std::sync::Arc'):
        v = val(E, st, a)
        if dst.startswith('std::vec::Vec') and (v[0] in ('s', 'utf8')):
            return ret(st, str_bytes(v))
        return ret(st, v)
    if E.T[c.f['args'][0]]['k'] in ('int', 'char') and len(tys) > 1 and E.T[c.f['args'][1]]['k'] in ('int', 'bool', 'char'):
        return ret(st, a)
    return NotImplemented


@model('error::new', 'Error::new', 'Error::from', 'Error::other', 'error::other')
def m_ioerror(E, st, c):
    if 'io' not in c.path:
        return NotImplemented
    return ret(st, ('agg', 'std::io::Error', 0, tuple(val(E, st, a) for a in c.args)))


@model('Error::kind')
def m_errkind(E, st, c):
    v = val(E, st, c.args[0])
    if v[0] == 'agg' and v[3] and v[3][0][0] == 'agg' and v[3][0][1].endswith('ErrorKind'):
        return ret(st, v[3][0])
    if v[0] == 'sym' and v[1] == 'ioerr':
        return ret(st, ('fld', v, None, 'kind'))      # any kind: the source decides
    return ret(st, ('app', 'kind', (v,), 0))


# formatting: pure text
@model('fmt::format', 'Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Argument::new_display',
       'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Arguments::new_v1_formatted', 'Argument::new_octal',
       'Argument::new_binary', 'Argument::none', 'Argument::from_usize', 'Argument::new_lower_exp')
def m_fmt(E, st, c):
    return ret(st, ('app', 'fmt', tuple(strip_refs(E, st, a) for a in c.args), 0))


def strip_refs(E, st, a):
    try:
        v = val(E, st, a)
    except Unk:
        return ('sym', '?', 0, ())
    if v[0] == 'agg':
        return ('agg', v[1], v[2], tuple(strip_refs(E, st, x) for x in v[3]))
    return v


@model('Formatter::write_str', 'Formatter::write_fmt', 'Write::write_str')
def m_fmt_write(E, st, c):
    a, b = st.fork(), st.fork()
    return [('ret', a, Ok(UNIT)), ('ret', b, Err(('agg', 'std::fmt::Error', 0, ())))]


# ================================================================ vectors and slices
@model('Vec::new', 'VecDeque::new')
def m_vec_new(E, st, c):
    return ret(st, ('vec', ()))


@model('String::new')
def m_string_new(E, st, c):
    return ret(st, ('s', ''))


def alloc(E, st, n, c):
    r = E.iv(st, n)
    st.emit(('alloc', n, (r[0][0], r[-1][1]) if r else None, c.sp, E.stack[-1] if E.stack else '', elem_type(E, c)))


def elem_type(E, c):
    """the type of the elements a collection operation makes room for"""
    cand = [E.T[c.dtid]] if c.dtid is not None else []
    for T in cand + c.tyargs():
        if str(T.get('path', '')).rsplit('::', 1)[-1] in ('Vec', 'VecDeque', 'Box', 'String') and T.get('args'):
            return E.T[T['args'][0]].get('s', '') if isinstance(T['args'][0], int) else ''
    if c.path.rsplit('::', 1)[-1] in ('with_capacity', 'reserve', 'reserve_exact', 'resize', 'from_elem') and c.tyargs():
        return c.tyargs()[0].get('s', '')
    return ''


@model('Vec::with_capacity', 'VecDeque::with_capacity')
def m_vec_cap(E, st, c):
    alloc(E, st, c.args[0], c)
    return ret(st, ('vec', ()))


@model('String::with_capacity')
def m_string_cap(E, st, c):
    alloc(E, st, c.args[0], c)
    return ret(st, ('s', ''))


@model('Vec::reserve', 'Vec::reserve_exact', 'String::reserve')
def m_reserve(E, st, c):
    alloc(E, st, c.args[1], c)
    return ret(st, UNIT)


@model('Vec::try_reserve', 'Vec::try_reserve_exact')
def m_try_reserve(E, st, c):
    a, b = st.fork(), st.fork()
    return [('ret', a, Ok(UNIT)), ('ret', b, Err(sym(b, 'reserve-err')))]


@model('vec::from_elem')
def m_from_elem(E, st, c):
    v, n = c.args
    if is_c(n) and n[1] <= 4096:
        return ret(st, ('vec', tuple(('one', v) for _ in range(n[1]))))
    alloc(E, st, n, c)
    return ret(st, mk_vec((('c', n, ('k', ('fe', st.fresh(), st.ctx)), v),)))


@model('Vec::resize')
def m_resize(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    n, x = c.args[1], c.args[2]
    cur = seq_len(v)
    if not is_c(n):
        alloc(E, st, n, c)
    d = sub(n, cur)
    r = E.iv(st, d)
    if r and r[0][0] >= 0:
        if is_c(d):
            E.write(st, loc, mk_vec(segs_of(v) + tuple(('one', x) for _ in range(d[1]))))
        else:
            E.write(st, loc, mk_vec(segs_of(v) + (('c', d, ('k', ('fe', st.fresh(), st.ctx)), x),)))
        return ret(st, UNIT)
    raise Unk('resize')


@model('Vec::push', 'VecDeque::push_back')
def m_push(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    E.write(st, loc, mk_vec(segs_of(v) + (('one', c.args[1]),)))
    return ret(st, UNIT)


@model('Vec::insert')
def m_insert(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    if c.args[1] == ZERO:
        E.write(st, loc, mk_vec((('one', c.args[2]),) + segs_of(v)))
        return ret(st, UNIT)
    raise Unk('Vec::insert')


@model('Vec::remove')
def m_remove(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    i, n, out = c.args[1], seq_len(v), []
    for x, s in E.split(st, ('cmp', '<', i, n)):
        if not x:
            out.append(('panic', s, ('removal index out of range', c.sp, E.stack[-1] if E.stack else '')))
            continue
        v = E.norm_deep(s, v)
        a, r = (mk_vec(()), v) if i == ZERO else split_at(E, s, v, i)
        ss = segs_of(r)
        if ss and ss[0][0] == 'one':
            e, rest = ss[0][1], ss[1:]
        else:
            e, rest = seq_get(r, ZERO), (('all', slice_of2(r, ONE)),)
        E.write(s, loc, mk_vec(tuple(segs_of(a)) + tuple(rest)))
        out.append(('ret', s, e))
    return out


@model('Vec::split_off')
def m_split_off(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    i, out = c.args[1], []
    for x, s in E.split(st, ('cmp', '<=', i, seq_len(v))):
        if not x:
            out.append(('panic', s, ('split_off out of range', c.sp, E.stack[-1] if E.stack else '')))
            continue
        v = E.norm_deep(s, v)
        a, r = (mk_vec(()), v) if i == ZERO else split_at(E, s, v, i)
        if i == ZERO or v[0] == 'vec' or v[0] == 'agg':
            E.write(s, loc, a)
            out.append(('ret', s, r))
        else:
            E.write(s, loc, mk_vec((('all', a),)))
            out.append(('ret', s, mk_vec((('all', r),))))
    return out


def seg_last(s):
    """(element, shortened segment) for popping at the end, segment known non-empty"""
    if s[0] == 'one':
        return s[1], None
    if s[0] == 'all':
        n = seq_len(s[1])
        k = ('k', ('pop', s[1]))
        return seq_get(s[1], sub(n, ONE)), ('c', sub(n, ONE), k, seq_get(s[1], k))
    n = sub(s[1], ONE)
    return subst(s[3], {s[2]: n}), (('c', n, s[2], s[3]) if n != ZERO else None)


@model('Vec::pop', 'VecDeque::pop_back')
def m_pop(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    return pop_outcomes(E, st, loc, segs_of(v))


def pop_outcomes(E, st, loc, ss):
    if not ss:
        return ret(st, NONE)
    last = ss[-1]
    if last[0] == 'one':
        E.write(st, loc, ('vec', ss[:-1]))
        return ret(st, Some(last[1]))
    out = []
    n = seg_len(last)
    for x, s in E.split(st, ('cmp', '<', ZERO, n)):
        if x:
            e, rest = seg_last(last)
            E.write(s, loc, ('vec', ss[:-1] + ((rest,) if rest else ())))
            out.append(('ret', s, Some(e)))
        else:
            out += pop_outcomes(E, s, loc, ss[:-1])
    return out


@model('VecDeque::pop_front')
def m_pop_front(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    ss = segs_of(v)
    if not ss:
        return ret(st, NONE)
    if ss[0][0] == 'one':
        E.write(st, loc, ('vec', ss[1:]))
        return ret(st, Some(ss[0][1]))
    raise Unk('pop_front')


@model('Vec::clear', 'String::clear')
def m_clear(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    E.write(st, loc, ('vec', ()) if 'Vec' in c.path else ('s', ''))
    return ret(st, UNIT)


@model('Vec::truncate')
def m_truncate(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    n = seq_len(v)
    out = []
    for x, s in E.split(st, ('cmp', '<=', n, c.args[1])):
        if not x:
            got, _ = split_at(E, s, v, c.args[1])
            E.write(s, loc, got)
        out.append(('ret', s, UNIT))
    return out


@model('slice::reverse')
def m_reverse(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    E.write(st, loc, rev_seq(E, st, v))
    return ret(st, UNIT)


def rev_seq(E, st, v):
    out = []
    for s in reversed(segs_of(v)):
        if s[0] == 'one':
            out.append(s)
        else:
            n = seg_len(s)
            k = ('k', ('rev', st.fresh(), st.ctx))
            i = sub(sub(n, ONE), k)
            e = seq_get(s[1], i) if s[0] == 'all' else subst(s[3], {s[2]: i})
            out.append(('c', n, k, e))
    if v[0] == 'agg':
        return ('agg', v[1], v[2], tuple(s[1] for s in out))
    return mk_vec(tuple(out))


@model('Vec::append')
def m_append(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    l2, w = deep_loc(E, st, c.args[1])
    E.write(st, loc, mk_vec(segs_of(v) + segs_of(w)))
    E.write(st, l2, ('vec', ()))
    return ret(st, UNIT)


@model('Vec::extend_from_slice')
def m_extend_slice(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    w = val(E, st, c.args[1])
    E.write(st, loc, mk_vec(segs_of(v) + bytes_segs(E, st, w)))
    return ret(st, UNIT)


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy_slice(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    w = val(E, st, c.args[1])
    out = []
    for x, s in E.split(st, ('cmp', '==', seq_len(v), seq_len(w))):
        if x:
            E.write(s, loc, ('agg', 'array', None, tuple(q[1] for q in segs_of(w))) if all(q[0] == 'one' for q in segs_of(w)) else w)
            out.append(('ret', s, UNIT))
        else:
            out.append(('panic', s, ('copy_from_slice length', c.sp, E.stack[-1] if E.stack else '')))
    return out


@model('TryFrom::try_from')
def m_try_from(E, st, c):
    if c.rpath != 'std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from':
        return NotImplemented
    n = c.f.get('rargs', [None, ''])[1]
    if not str(n).isdigit():
        return NotImplemented
    v = val(E, st, c.args[0])
    out = []
    for x, s in E.split(st, ('cmp', '==', seq_len(v), I(int(n)))):
        if x:
            if v[0] in ('vec', 'bs', 's'):
                ss = segs_of(v)
                if all(q[0] == 'one' for q in ss):
                    v = ('agg', 'array', None, tuple(q[1] for q in ss))
            out.append(('ret', s, Ok(v)))
        else:
            out.append(('ret', s, Err(('app', 'wrong length', v))))
    return out


@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'array::len', 'VecDeque::len')
def m_len(E, st, c):
    return ret(st, seq_len(val(E, st, c.args[0])))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'VecDeque::is_empty')
def m_is_empty(E, st, c):
    t = ('cmp', '==', seq_len(val(E, st, c.args[0])), ZERO)
    x = E.truth(st, t)
    return ret(st, t if x is None else I(x))


def elem_loc(E, st, a, i):
    """reference to element i of the sequence behind a"""
    loc, v = deep_loc(E, st, a)
    return ref_to(seq_get(v, i))


@model('slice::get', 'Vec::get', 'slice::get_mut', 'str::get')
def m_get(E, st, c):
    v = val(E, st, c.args[0])
    i = c.args[1]
    if c.path.endswith('get_mut') and i[0] not in ('agg', 'ref'):
        loc, v = deep_loc(E, st, c.args[0])
        return [('ret', s, Some(('ref', loc[0], loc[1] + (('i', E.norm(s, i)),))) if x else NONE)
                for x, s in E.split(st, ('cmp', '<', i, seq_len(v)))]
    if i[0] == 'agg':
        lo, hi = range_bounds(E, st, i, seq_len(v))
        out = []
        for x, s in E.split(st, ('cmp', '<=', lo, hi)):
            if not x:
                out.append(('ret', s, NONE))
                continue
            for y, s2 in E.split(s, ('cmp', '<=', hi, seq_len(v))):
                out.append(('ret', s2, Some(ref_to(slice_of(v, lo, hi))) if y else NONE))
        return out
    out = []
    for x, s in E.split(st, ('cmp', '<', i, seq_len(v))):
        out.append(('ret', s, Some(ref_to(seq_get(v, E.norm(s, i)))) if x else NONE))
    return out


def range_bounds(E, st, r, n):
    p = r[1].split('::')[-1]
    if p == 'Range':
        return r[3][0], r[3][1]
    if p == 'RangeFrom':
        return r[3][0], n
    if p == 'RangeTo':
        return ZERO, r[3][0]
    if p == 'RangeFull':
        return ZERO, n
    if p == 'RangeInclusive':
        return r[3][0], add(r[3][1], ONE)
    if p == 'RangeToInclusive':
        return ZERO, add(r[3][0], ONE)
    raise Unk('range ' + p)


@model('Index::index', 'IndexMut::index_mut')
def m_index(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    i = c.args[1]
    if i[0] == 'ref':
        return NotImplemented
    n = seq_len(v)
    out = []
    if i[0] == 'agg':
        if i[1].endswith('RangeFull'):
            return ret(st, c.args[0] if c.args[0][0] != 'ref' else ('ref', loc[0], loc[1]))
        lo, hi = range_bounds(E, st, i, n)
        for x, s in E.split(st, ('cmp', '<=', lo, hi)):
            if not x:
                out.append(('panic', s, ('slice index order', c.sp, E.stack[-1])))
                continue
            for y, s2 in E.split(s, ('cmp', '<=', hi, n)):
                if y:
                    if c.path.endswith('index_mut') :
                        if is_c(lo) and is_c(hi):
                            out.append(('ret', s2, ('ref', loc[0], loc[1] + (('sub', lo, hi),))))
                        else:
                            out.append(('unk', s2, 'mutable subslice'))
                    else:
                        out.append(('ret', s2, ref_to(slice_of(v, lo, hi))))
                else:
                    out.append(('panic', s2, ('slice index out of range', c.sp, E.stack[-1])))
        return out
    for x, s in E.split(st, ('cmp', '<', i, n)):
        if x:
            if c.path.endswith('index_mut'):
                out.append(('ret', s, ('ref', loc[0], loc[1] + (('i', E.norm(s, i)),))))
            else:
                out.append(('ret', s, ref_to(seq_get(v, E.norm(s, i)))))
        else:
            out.append(('panic', s, ('index out of range', c.sp, E.stack[-1] if E.stack else '')))
    return out


@model('slice::first', 'Vec::first')
def m_first(E, st, c):
    v = val(E, st, c.args[0])
    return [('ret', s, Some(ref_to(seq_get(v, ZERO))) if x else NONE) for x, s in E.split(st, ('cmp', '<', ZERO, seq_len(v)))]


@model('slice::last', 'Vec::last')
def m_last(E, st, c):
    v = val(E, st, c.args[0])
    n = seq_len(v)
    out = []
    for x, s in E.split(st, ('cmp', '<', ZERO, n)):
        out.append(('ret', s, Some(ref_to(seq_get(v, sub(n, ONE)))) if x else NONE))
    return out


@model('slice::split_at')
def m_split_at(E, st, c):
    v = val(E, st, c.args[0])
    out = []
    for x, s in E.split(st, ('cmp', '<=', c.args[1], seq_len(v))):
        if x:
            a, b = split_at(E, s, v, c.args[1])
            out.append(('ret', s, tup(ref_to(a), ref_to(b))))
        else:
            out.append(('panic', s, ('split_at', c.sp, E.stack[-1])))
    return out


@model('slice::split_first')
def m_split_first(E, st, c):
    v = val(E, st, c.args[0])
    out = []
    for x, s in E.split(st, ('cmp', '<', ZERO, seq_len(v))):
        if x:
            out.append(('ret', s, Some(tup(ref_to(seq_get(v, ZERO)), ref_to(slice_of2(v, ONE))))))
        else:
            out.append(('ret', s, NONE))
    return out


@model('slice::contains')
def m_contains(E, st, c):
    v = val(E, st, c.args[0])
    x = val(E, st, c.args[1])
    ss = segs_of(v)
    if all(s[0] == 'one' for s in ss):
        states = [st]
        out = []
        for s in ss:
            nxt = []
            for q in states:
                y = val(E, q, s[1])
                t = ('streq',) + tuple(sorted((y, x), key=repr)) if y[0] == 's' or x[0] == 's' else ('cmp', '==', y, x)
                for tv, s2 in E.split(q, t):
                    if tv:
                        out.append(('ret', s2, TRUE))
                    else:
                        nxt.append(s2)
            states = nxt
        out += [('ret', q, FALSE) for q in states]
        return out
    return ret(st, ('pred', 'contains', v, x))


@model('String::push_str', 'String::push')
def m_push_str(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    E.write(st, loc, ('app', 'push_str', (v, val(E, st, c.args[1])), 0))
    return ret(st, UNIT)


# ================================================================ function values
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_call(E, st, c):
    a = c.args[1]
    args = list(a[3]) if a[0] == 'agg' and a[1] == 'tuple' else [a]
    return E.call_value(st, c.args[0], args, c.sp)


# ================================================================ iterators
def IT(kind, *fs):
    return ('agg', '$it:' + kind, 0, tuple(fs))


def is_it(v):
    return v[0] == 'agg' and (v[1].startswith('$it:') or v[1] in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom'))


def hroot(st, v):
    r = ('H', st.fresh(), st.ctx)
    st.mem[r] = v
    return ('ref', r, ())


M_REF, M_VAL = ('m', 'ref'), ('m', 'val')


def seq_iter(seq, mode):
    return IT('iter', seq, ZERO, seq_len(seq), mode)


def into_iter(E, st, a, tys=()):
    if is_it(a):
        return a
    if a[0] == 'ref':
        v = val(E, st, a)
        if is_it(v):
            return a  # &mut iterator
        ts = tys[0]['s'] if tys else '&'
        if ts.startswith('&mut') :
            r = mut_refs(E, st, a)
            if r is None:
                raise Unk('mutable iteration')
            return seq_iter(r, M_VAL)
        if v[0] == 'agg' and v[1] == OPT:
            return seq_iter(('agg', 'array', None, v[3]), M_REF)
        return seq_iter(v, M_REF)
    if a[0] == 'agg' and a[1] == OPT:
        return seq_iter(('agg', 'array', None, a[3]), M_VAL)
    return seq_iter(a, M_VAL)


def certain(E, st, t):
    """the number a term is known to be"""
    if is_c(t):
        return t
    r = E.iv(st, t) if t[0] in ('lin', 'len', 'min', 'max', 'div', 'shr') else None
    return I(r[0][0]) if r and r[0][0] == r[-1][1] else None


def next_raw(E, st, it, loc=None, back=False):
    """[(kind, state, iterator', value)], kind in none/some/skip, or ('out', outcome, None, None)"""
    if it[0] == 'ref':
        l2, v = deep_loc(E, st, it)
        if not is_it(v):
            raise Unk('iterator ' + show(v))
        res = []
        for k, s, i2, x in next_raw(E, st, v, None, back):
            if k == 'out':
                res.append((k, s, i2, x))
                continue
            E.write(s, l2, i2)
            res.append((k, s, it, x))
        return res
    if not is_it(it):
        raise Unk('iterator ' + show(it))
    k = it[1][4:] if it[1].startswith('$it:') else it[1].split('::')[-1]
    f = it[3]
    if k == 'iter':
        seq, i, j, mode = f
        i, j = E.norm(st, i), E.norm(st, j)
        out = []
        if is_c(i) and certain(E, st, j) and i[1] < certain(E, st, j)[1]:
            st.cn = ((i, j), st.cn)
        for x, s in E.split(st, ('cmp', '<', i, j)):
            if not x:
                out.append(('none', s, it, None))
                continue
            if back:
                j2 = sub(j, ONE)
                e = seq_get(seq, j2)
                n = IT('iter', seq, i, j2, mode)
            else:
                e = seq_get(seq, i)
                n = IT('iter', seq, add(i, ONE), j, mode)
            out.append(('some', s, n, ref_to(e) if mode == M_REF else e))
        return out
    if k == 'Range':
        a, b = E.norm(st, f[0]), E.norm(st, f[1])
        out = []
        if is_c(a) and certain(E, st, b) and a[1] < certain(E, st, b)[1]:
            st.cn = ((a, b), st.cn)
        for x, s in E.split(st, ('cmp', '<', a, b)):
            if not x:
                out.append(('none', s, it, None))
            elif back:
                out.append(('some', s, ('agg', it[1], it[2], (a, sub(b, ONE))), sub(b, ONE)))
            else:
                out.append(('some', s, ('agg', it[1], it[2], (add(a, ONE), b)), a))
        return out
    if k == 'RangeInclusive':
        return next_raw(E, st, ('agg', 'std::ops::Range', 0, (f[0], add(f[1], ONE))), loc, back)
    if k == 'RangeFrom':
        return [('some', st, ('agg', it[1], it[2], (add(f[0], ONE),)), f[0])]
    if k == 'repeat':
        return [('some', st, it, f[0])]
    if k == 'step' and not back:
        res = []
        for a, s, b, x in next_raw(E, st, f[0], None):
            if a != 'some':
                res.append((a, s, b if a == 'out' else IT('step', b, f[1]), x))
                continue
            seq, i, j, mode = b[3]
            i2 = add(i, sub(f[1], ONE))
            for y, s2 in E.split(s, ('cmp', '<=', i2, j)):
                res.append((a, s2, IT('step', IT('iter', seq, i2 if y else j, j, mode), f[1]), x))
        return res
    if k == 'rev':
        return [(a, s, IT('rev', b) if a != 'out' else b, x) for a, s, b, x in next_raw(E, st, f[0], None, not back)]
    if k in ('cloned', 'copied'):
        res = []
        for a, s, b, x in next_raw(E, st, f[0], None, back):
            res.append((a, s, IT(k, b) if a != 'out' else b, E.read(s, loc_of(x)) if a == 'some' else x))
        return res
    if k == 'enum':
        if back:
            raise Unk('rev of enumerate')
        res = []
        for a, s, b, x in next_raw(E, st, f[0]):
            if a == 'some':
                res.append((a, s, IT('enum', b, add(f[1], ONE)), tup(f[1], x)))
            else:
                res.append((a, s, IT('enum', b, f[1]) if a != 'out' else b, x))
        return res
    if k == 'take':
        if back:
            raise Unk('rev of take')
        out = []
        n = E.norm(st, f[1])
        for ok, s in E.split(st, ('cmp', '<', ZERO, n)):
            if not ok:
                out.append(('none', s, it, None))
                continue
            if is_c(n):
                s.cn = ((n,), s.cn)
            for a, s2, b, x in next_raw(E, s, f[0]):
                if a == 'some':
                    out.append((a, s2, IT('take', b, sub(n, ONE)), x))
                else:
                    out.append((a, s2, IT('take', b, n) if a != 'out' else b, x))
        return out
    if k == 'skip':
        out = []
        n = E.norm(st, f[1])
        if n == ZERO:
            return [(a, s, IT('skip', b, ZERO) if a != 'out' else b, x) for a, s, b, x in next_raw(E, st, f[0])]
        if not is_c(n):
            raise Unk('skip')
        for a, s, b, x in next_raw(E, st, f[0]):
            if a == 'some':
                out.append(('skip', s, IT('skip', b, sub(n, ONE)), None))
            else:
                out.append((a, s, IT('skip', b, n) if a != 'out' else b, x))
        return out
    if k == 'zip':
        out = []
        for a, s, b, x in next_raw(E, st, f[0]):
            if a == 'some':
                for a2, s2, b2, y in next_raw(E, s, f[1]):
                    if a2 == 'some':
                        out.append(('some', s2, IT('zip', b, b2), tup(x, y)))
                    elif a2 == 'skip':
                        raise Unk('zip of filtered iterator')
                    else:
                        out.append((a2, s2, IT('zip', b, b2) if a2 != 'out' else b2, None))
            elif a == 'skip':
                out.append(('skip', s, IT('zip', b, f[1]), None))
            else:
                out.append((a, s, IT('zip', b, f[1]) if a != 'out' else b, x))
        return out
    if k == 'chain':
        out = []
        for a, s, b, x in next_raw(E, st, f[0]):
            if a == 'none':
                for a2, s2, b2, y in next_raw(E, s, f[1]):
                    out.append((a2, s2, IT('chain', b, b2) if a2 != 'out' else b2, y))
            else:
                out.append((a, s, IT('chain', b, f[1]) if a != 'out' else b, x))
        return out
    if k == 'skip_while':
        out = []
        for a, s, b, x in next_raw(E, st, f[0]):
            if a != 'some' or f[2] == TRUE:
                out.append((a, s, IT(k, b, f[1], f[2]) if a != 'out' else b, x))
                continue
            for o in E.call_value(s, f[1], [ref_to(x)]):
                if o[0] != 'ret':
                    out.append(('out', o, None, None))
                    continue
                for tv, s2 in E.split(o[1], o[2]):
                    out.append(('skip', s2, IT(k, b, f[1], FALSE), None) if tv else ('some', s2, IT(k, b, f[1], TRUE), x))
        return out
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while'):
        out = []
        for a, s, b, x in next_raw(E, st, f[0], None, back):
            if a != 'some':
                out.append((a, s, IT(k, b, f[1]) if a != 'out' else b, x))
                continue
            n = IT(k, b, f[1])
            arg = ref_to(x) if k in ('filter', 'inspect', 'take_while') else x
            for o in E.call_value(s, f[1], [arg]):
                if o[0] != 'ret':
                    out.append(('out', o, None, None))
                    continue
                r = o[2]
                if k == 'map':
                    out.append(('some', o[1], n, r))
                elif k == 'inspect':
                    out.append(('some', o[1], n, x))
                elif k in ('filter', 'take_while'):
                    for tv, s2 in E.split(o[1], r):
                        if tv:
                            out.append(('some', s2, n, x))
                        else:
                            out.append(('skip', s2, n, None) if k == 'filter' else ('none', s2, n, None))
                else:
                    for kk, s2, y in opt_cases(E, o[1], r):
                        if kk:
                            out.append(('some', s2, n, y))
                        else:
                            out.append(('skip', s2, n, None) if k == 'filter_map' else ('none', s2, n, None))
        return out
    raise Unk('iterator kind ' + k)


def opt_cases(E, st, r):
    """[(is_some, state, payload)]"""
    if r[0] == 'agg':
        return [(r[2] == 1, st, r[3][0] if r[2] == 1 else None)]
    d = E.discriminant(st, r, None)
    E.rng.setdefault(d, (0, 1))
    return [(tv == 1, s, ('fld', r, 1, 0)) for tv, s in E.split(st, d)]


def res_cases(E, st, r):
    """[(is_ok, state, payload)] of a Result / ControlFlow / Option"""
    if r[0] == 'agg':
        if r[1] == OPT:
            return [(r[2] == 1, st, r[3][0] if r[3] else None)]
        return [(r[2] == 0, st, r[3][0] if r[3] else UNIT)]
    d = E.discriminant(st, r, None)
    E.rng.setdefault(d, (0, 1))
    return [(tv == 0, s, ('fld', r, tv, 0)) for tv, s in E.split(st, d)]


def consume(E, st, it, body, init=None):
    """drive iterator; body(state, x) -> outcomes: ('back', st, _), ('exit', st, payload) or others.
    Returns the outcomes with 'exit' payloads; a finished iterator exits with ('none',)."""
    r = hroot(st, it)
    root = r[1]

    def step(s):
        out = []
        it0 = E.read(s, (root, ()))
        for k, s2, i2, x in next_raw(E, s, it0):
            if k == 'out':
                out.append(s2)
                continue
            E.write(s2, (root, ()), i2)
            if k == 'none':
                out.append(('exit', s2, ('none',)))
            elif k == 'skip':
                out.append(('back', s2, None))
            else:
                out.extend(body(s2, x))
        return out
    E.stats['loops'] += 1
    outs = E.summarise(st, step)
    for o in outs:
        if o[0] == 'exit':
            i2 = o[1].mem.pop(root, None)
            # an iterator passed by &mut has been advanced in place
    return outs, root


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    if not is_it(v):
        return NotImplemented if 'body' in c.f else unknown(E, st, c)
    back = c.path.endswith('next_back')
    out = []
    skip = False
    for k, s, i2, x in next_raw(E, st.fork(), v, None, back):
        if k == 'skip':
            skip = True
            break
        if k == 'out':
            out.append(s)
            continue
        E.write(s, loc, i2)
        out.append(('ret', s, Some(x) if k == 'some' else NONE))
    if not skip:
        return out

    def step(s):
        res = []
        for k, s2, i2, x in next_raw(E, s, E.read(s, loc), None, back):
            if k == 'out':
                res.append(s2)
                continue
            E.write(s2, loc, i2)
            if k == 'skip':
                res.append(('back', s2, None))
            else:
                res.append(('exit', s2, ('v', Some(x) if k == 'some' else NONE)))
        return res
    return [('ret', o[1], o[2][1]) if o[0] == 'exit' else o for o in E.summarise(st, step)]


def self_iter(E, st, c):
    a = c.args[0]
    tys = c.tyargs()
    return into_iter(E, st, a, tys)


@model('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'Vec::into_iter', 'array::iter', 'VecDeque::iter', 'Option::iter')
def m_into_iter(E, st, c):
    k = key_of(c.f)
    a = c.args[0]
    if k.endswith('::iter'):
        v = val(E, st, a)
        return ret(st, seq_iter(v, M_REF))
    return ret(st, into_iter(E, st, a, c.tyargs()))


def mut_refs(E, st, a):
    """references to the elements of a list of known length"""
    loc, v = deep_loc(E, st, a)
    if loc[0][0] == 'V' or not (v[0] == 'vec' or v[0] == 'agg' and v[1] == 'array'):
        return None
    n = settle(E, st, seq_len(v))
    if not is_c(n) or n[1] > 300:
        return None
    return ('agg', 'array', None, tuple(('ref', loc[0], loc[1] + (('i', I(k)),)) for k in range(n[1])))


@model('slice::iter_mut', 'Vec::iter_mut', 'array::iter_mut')
def m_iter_mut(E, st, c):
    r = mut_refs(E, st, c.args[0])
    return NotImplemented if r is None else ret(st, seq_iter(r, M_VAL))


@model('slice::fill')
def m_fill(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    if loc[0][0] == 'V' or v[0] != 'vec':
        return NotImplemented
    n = settle(E, st, seq_len(v))
    if not is_c(n) or n[1] > 300:
        return NotImplemented
    E.write(st, loc, mk_vec(tuple(('one', c.args[1]) for _ in range(n[1]))))
    return ret(st, UNIT)


@model('num::trailing_zeros')
def m_trailing_zeros(E, st, c):
    x = settle(E, st, c.args[0])
    w, sg = num_ty(c)
    if not is_c(x) or x[1] < 0:
        return NotImplemented
    return ret(st, I((x[1] & -x[1]).bit_length() - 1 if x[1] else w))


@model('str::bytes')
def m_str_bytes(E, st, c):
    v = str_bytes(val(E, st, c.args[0]))
    return ret(st, seq_iter(v, M_VAL))


@model('str::chars')
def m_chars(E, st, c):
    v = val(E, st, c.args[0])
    if v[0] == 's':
        return ret(st, seq_iter(('agg', 'array', None, tuple(I(ord(ch)) for ch in v[1])), M_VAL))
    return ret(st, seq_iter(('chars', v), M_VAL))


@model('iter::repeat')
def m_repeat(E, st, c):
    return ret(st, IT('repeat', c.args[0]))


@model('iter::repeat_n')
def m_repeat_n(E, st, c):
    return ret(st, IT('take', IT('repeat', c.args[0]), c.args[1]))


@model('iter::once')
def m_once(E, st, c):
    return ret(st, seq_iter(('agg', 'array', None, (c.args[0],)), M_VAL))


@model('iter::empty')
def m_empty(E, st, c):
    return ret(st, seq_iter(('agg', 'array', None, ()), M_VAL))


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::inspect', 'Iterator::take_while', 'Iterator::map_while')
def m_adapt(E, st, c):
    it = self_iter(E, st, c)
    return ret(st, IT(c.path.split('::')[-1], it, hroot(st, c.args[1])))


@model('Iterator::flatten')
def m_flatten(E, st, c):
    """of options of which it is known whether they hold something"""
    it = self_iter(E, st, c)
    if not (it[0] == 'agg' and it[1] == '$it:iter'):
        return NotImplemented
    seq, i, j, mode = it[3]
    i, j = settle(E, st, i), settle(E, st, j)
    if not (is_c(i) and is_c(j)) or j[1] - i[1] > 64:
        return NotImplemented
    out = []
    for k in range(i[1], j[1]):
        x = E.norm(st, seq_get(seq, I(k)))
        if not (x[0] == 'agg' and x[1] == OPT):
            return NotImplemented
        out += x[3]
    return ret(st, seq_iter(('agg', 'array', None, tuple(out)), mode))


@model('OnceLock::get_or_init', 'OnceCell::get_or_init')
def m_get_or_init(E, st, c):
    """what the cell holds, or else what the given closure makes; a static cell holds nothing when the analysis begins, and
    what it is found to hold then is what some call of the same function put there"""
    a = c.args[0]
    while a[0] == 'ref' and not (a[1][0] == 'V' and a[1][1][0] != 'ref'):
        a = E.read(st, (a[1], a[2]))
    a = a[1][1] if a[0] == 'ref' and not a[2] else a
    if c.args[1][0] not in ('clo', 'fn') or a[0] != 'sym' or not str(a[1]).startswith('static '):
        return NotImplemented
    k = ('STATIC', a[1])
    if k in st.mem:
        return ret(st, ref_to(st.mem[k]))
    out = []
    for o in E.call_value(st, c.args[1], [], c.sp):
        if o[0] == 'ret':
            o[1].mem[k] = o[2]
            o = ('ret', o[1], ref_to(o[2]))
        out.append(o)
    return out


@model('Iterator::skip_while')
def m_skip_while(E, st, c):
    return ret(st, IT('skip_while', self_iter(E, st, c), hroot(st, c.args[1]), FALSE))


@model('Iterator::enumerate')
def m_enum(E, st, c):
    return ret(st, IT('enum', self_iter(E, st, c), ZERO))


@model('Iterator::rev')
def m_rev(E, st, c):
    return ret(st, IT('rev', self_iter(E, st, c)))


@model('Iterator::take')
def m_itake(E, st, c):
    return take_it(E, st, self_iter(E, st, c), c.args[1])


def take_it(E, st, it, n):
    if it[0] == 'agg' and it[1] == '$it:iter':
        seq, i, j, mode = it[3]
        k = add(i, n)
        return [('ret', s, IT('iter', seq, i, k if y else j, mode)) for y, s in E.split(st, ('cmp', '<=', k, j))]
    if it[0] == 'agg' and it[1] in ('$it:cloned', '$it:enum', '$it:map'):
        return [('ret', o[1], IT(it[1][4:], o[2], *it[3][1:])) for o in take_it(E, st, it[3][0], n)]
    return ret(st, IT('take', it, n))


@model('Iterator::skip')
def m_iskip(E, st, c):
    return skip_it(E, st, self_iter(E, st, c), c.args[1])


def skip_it(E, st, it, n):
    if it[1] == '$it:iter':
        seq, i, j, mode = it[3]
        k = add(i, n)
        return [('ret', s, IT('iter', seq, k if y else j, j, mode)) for y, s in E.split(st, ('cmp', '<=', k, j))]
    if it[1] in ('$it:cloned', '$it:enum'):
        return [('ret', o[1], IT(it[1][4:], o[2], *([add(it[3][1], n)] if it[1] == '$it:enum' else []))) for o in skip_it(E, st, it[3][0], n)]
    if it[1] == '$it:rev' and it[3][0][1] == '$it:iter':
        seq, i, j, mode = it[3][0][3]
        k = sub(j, n)
        return [('ret', s, IT('rev', IT('iter', seq, i, k if y else i, mode))) for y, s in E.split(st, ('cmp', '<=', i, k))]
    return [('ret', st, IT('skip', it, n))]


@model('Iterator::cloned', 'Iterator::copied')
def m_icloned(E, st, c):
    return ret(st, IT('cloned', self_iter(E, st, c)))


@model('Iterator::zip')
def m_zip(E, st, c):
    return ret(st, IT('zip', self_iter(E, st, c), into_iter(E, st, c.args[1], c.tyargs()[1:])))


@model('Iterator::chain')
def m_chain(E, st, c):
    return ret(st, IT('chain', self_iter(E, st, c), into_iter(E, st, c.args[1], c.tyargs()[1:])))


@model('Iterator::by_ref', 'Iterator::fuse')
def m_iby_ref(E, st, c):
    return ret(st, c.args[0])


@model('Vec::drain')
def m_drain(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    n = seq_len(v)
    lo, hi = range_bounds(E, st, c.args[1], n)
    out = []
    for x, s in E.split(st, ('cmp', '<=', lo, hi)):
        if not x:
            out.append(('panic', s, ('drain range', c.sp, E.stack[-1])))
            continue
        for y, s2 in E.split(s, ('cmp', '<=', hi, n)):
            if not y:
                out.append(('panic', s2, ('drain range', c.sp, E.stack[-1])))
            elif lo == ZERO and hi == n:
                E.write(s2, loc, ('vec', ()))
                out.append(('ret', s2, seq_iter(v, M_VAL)))
            elif hi == n:
                a, b = split_at(E, s2, v, lo)
                E.write(s2, loc, a)
                out.append(('ret', s2, seq_iter(b, M_VAL)))
            elif lo == ZERO:
                a, b = split_at(E, s2, v, hi)
                E.write(s2, loc, b)
                out.append(('ret', s2, seq_iter(a, M_VAL)))
            else:
                raise Unk('drain')
    return out


def it_len(E, st, it):
    if it[0] == 'ref':
        it = val(E, st, it)
    k = it[1][4:] if it[1].startswith('$it:') else it[1].split('::')[-1]
    f = it[3]
    if k == 'iter':
        return sub(f[2], f[1])
    if k in ('map', 'enum', 'rev', 'cloned', 'inspect'):
        return it_len(E, st, f[0])
    if k == 'Range':
        r = E.iv(st, sub(f[1], f[0]))
        return sub(f[1], f[0]) if r and r[0][0] >= 0 else None
    if k == 'take':
        if f[0][1] == '$it:repeat':
            return f[1]
        n = it_len(E, st, f[0])
        if n is None:
            return None
        x = E.truth(st, ('cmp', '<=', f[1], n))
        return f[1] if x == 1 else n if x == 0 else ('min', f[1], n)
    return None


@model('Iterator::size_hint')
def m_size_hint(E, st, c):
    v = val(E, st, c.args[0])
    if not is_it(v):
        return unknown(E, st, c)
    n = it_len(E, st, v)
    if n is None:
        return ret(st, tup(ZERO, ('sym', 'hint', st.fresh(), st.ctx)))
    return ret(st, tup(n, Some(n)))


@model('ExactSizeIterator::len')
def m_exact_len(E, st, c):
    v = val(E, st, c.args[0])
    n = it_len(E, st, v)
    if n is None:
        raise Unk('len of iterator')
    return ret(st, n)


def finish(outs, f):
    res = []
    for o in outs:
        if o[0] == 'exit':
            res.append(('ret', o[1], f(o[1], o[2])))
        else:
            res.append(o)
    return res


@model('Iterator::fold')
def m_fold(E, st, c):
    it = self_iter(E, st, c)
    acc = hroot(st, c.args[1])
    fn = hroot(st, c.args[2])

    def body(s, x):
        a = E.read(s, (acc[1], ()))
        out = []
        for o in E.call_value(s, fn, [a, x]):
            if o[0] == 'ret':
                E.write(o[1], (acc[1], ()), o[2])
                out.append(('back', o[1], None))
            else:
                out.append(o)
        return out
    outs, _ = consume(E, st, it, body)
    return finish(outs, lambda s, p: s.mem.pop(acc[1]))


@model('Iterator::try_fold')
def m_try_fold(E, st, c):
    it = c.args[0]
    acc = hroot(st, c.args[1])
    fn = hroot(st, c.args[2])
    box = {}

    def body(s, x):
        a = E.read(s, (acc[1], ()))
        out = []
        for o in E.call_value(s, fn, [a, x]):
            if o[0] != 'ret':
                out.append(o)
                continue
            if o[2][0] == 'agg':
                box['p'] = o[2][1]
            for ok, s2, p in res_cases(E, o[1], o[2]):
                if ok:
                    E.write(s2, (acc[1], ()), p)
                    out.append(('back', s2, None))
                else:
                    out.append(('exit', s2, ('v', o[2])))
        return out
    outs, _ = consume(E, st, it, body)

    def fin(s, p):
        a = s.mem.pop(acc[1])
        if p[0] == 'v':
            return p[1]
        path = box.get('p') or (E.T[c.dtid]['path'] if c.dtid is not None else RES)
        return ('agg', path, 1 if path == OPT else 0, (a,))
    return finish(outs, fin)


@model('Iterator::for_each')
def m_for_each(E, st, c):
    it = self_iter(E, st, c)
    fn = hroot(st, c.args[1])

    def body(s, x):
        return [('back', o[1], None) if o[0] == 'ret' else o for o in E.call_value(s, fn, [x])]
    outs, _ = consume(E, st, it, body)
    return finish(outs, lambda s, p: UNIT)


@model('Iterator::try_for_each')
def m_try_for_each(E, st, c):
    it = c.args[0]
    fn = hroot(st, c.args[1])
    path = E.T[c.dtid].get('path', RES) if c.dtid is not None else RES

    def body(s, x):
        out = []
        for o in E.call_value(s, fn, [x]):
            if o[0] != 'ret':
                out.append(o)
                continue
            for ok, s2, p in res_cases(E, o[1], o[2]):
                out.append(('back', s2, None) if ok else ('exit', s2, ('v', o[2])))
        return out
    outs, _ = consume(E, st, it, body)
    done = ('agg', path, 1 if path == OPT else 0, (UNIT,))
    return finish(outs, lambda s, p: p[1] if p[0] == 'v' else done)


def _search(kind):
    def m(E, st, c):
        it = c.args[0] if c.args[0][0] == 'ref' else self_iter(E, st, c)
        fn = hroot(st, c.args[1])
        cnt = hroot(st, ZERO)

        def body(s, x):
            out = []
            arg = ref_to(x) if kind in ('find',) else x
            for o in E.call_value(s, fn, [arg]):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                if kind == 'find_map':
                    for some, s2, p in opt_cases(E, o[1], o[2]):
                        out.append(('exit', s2, ('v', Some(p))) if some else ('back', s2, None))
                    continue
                for tv, s2 in E.split(o[1], o[2]):
                    stop = (tv == 0) if kind == 'all' else (tv == 1)
                    if stop:
                        i = E.read(s2, (cnt[1], ()))
                        v = {'find': Some(x), 'position': Some(i), 'any': TRUE, 'all': FALSE}[kind]
                        out.append(('exit', s2, ('v', v)))
                    else:
                        if kind == 'position':
                            E.write(s2, (cnt[1], ()), add(E.read(s2, (cnt[1], ())), ONE))
                        out.append(('back', s2, None))
            return out
        outs, _ = consume(E, st, it, body)
        none = {'find': NONE, 'find_map': NONE, 'position': NONE, 'any': FALSE, 'all': TRUE}[kind]
        return finish(outs, lambda s, p: p[1] if p[0] == 'v' else none)
    return m


for _k in ('find', 'find_map', 'position', 'any', 'all'):
    MODELS['Iterator::' + _k] = _search(_k)


@model('Iterator::count')
def m_count(E, st, c):
    it = self_iter(E, st, c)
    n = it_len(E, st, it)
    if n is not None:
        return ret(st, n)
    s0 = st.fork()
    acc = hroot(st, ZERO)

    def body(s, x):
        E.write(s, (acc[1], ()), add(E.read(s, (acc[1], ())), ONE))
        return [('back', s, None)]
    try:
        outs, _ = consume(E, st, it, body)
        if all(o[0] in ('exit', 'panic') for o in outs):
            return finish(outs, lambda s, p: s.mem.pop(acc[1]))
    except Unk:
        pass
    return ret(s0, ('sym', 'count', s0.fresh(), s0.ctx))


@model('Iterator::step_by')
def m_step_by(E, st, c):
    it, n = self_iter(E, st, c), E.norm(st, c.args[1])
    if n == ONE:
        return ret(st, it)
    if is_c(n) and n[1] > 1 and is_it(it) and it[1] == '$it:iter':
        return ret(st, IT('step', it, n))
    return unknown(E, st, c)


@model('Iterator::sum', 'Iterator::product')
def m_sum(E, st, c):
    it = self_iter(E, st, c)
    acc = hroot(st, ZERO)
    T = E.T[c.dtid] if c.dtid is not None else {}
    if T.get('k') != 'int' or 'product' in c.path:
        return unknown(E, st, c)
    lo, hi = trange(T['w'], T['sg'])

    def body(s, x):
        a = add(E.read(s, (acc[1], ())), val(E, s, x))
        out = []
        for o, s2 in E.split(s, ('out', a, lo, hi)):
            if o:
                out.append(('panic', s2, ('sum overflow', c.sp, '')))
            else:
                E.write(s2, (acc[1], ()), a)
                out.append(('back', s2, None))
        return out
    outs, _ = consume(E, st, it, body)
    return finish(outs, lambda s, p: s.mem.pop(acc[1]))


@model('Iterator::nth')
def m_nth(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    n = c.args[1]
    if is_it(v) and v[1] == '$it:iter':
        seq, i, j, mode = v[3]
        k = add(i, n)
        out = []
        for x, s in E.split(st, ('cmp', '<', k, j)):
            if x:
                E.write(s, loc, IT('iter', seq, add(k, ONE), j, mode))
                e = seq_get(seq, k)
                out.append(('ret', s, Some(ref_to(e) if mode == M_REF else e)))
            else:
                E.write(s, loc, IT('iter', seq, j, j, mode))
                out.append(('ret', s, NONE))
        return out
    raise Unk('nth')


@model('Iterator::last')
def m_ilast(E, st, c):
    it = self_iter(E, st, c)
    if it[1] == '$it:iter':
        seq, i, j, mode = it[3]
        out = []
        for x, s in E.split(st, ('cmp', '<', i, j)):
            e = seq_get(seq, sub(j, ONE))
            out.append(('ret', s, Some(ref_to(e) if mode == M_REF else e) if x else NONE))
        return out
    raise Unk('last')


def whole(E, st, it):
    """the remaining elements of an untransformed iterator as segments, without looping"""
    if it[0] == 'ref':
        return None
    k = it[1]
    if k == '$it:iter' and it[3][1] == ZERO and it[3][2] == seq_len(it[3][0]) and it[3][3] == M_VAL:
        return segs_of(it[3][0])
    if k == '$it:cloned' and it[3][0][0] == 'agg' and it[3][0][1] == '$it:iter':
        f = it[3][0][3]
        if f[1] == ZERO and f[2] == seq_len(f[0]):
            return segs_of(f[0])
    if k == '$it:rev':
        s = whole(E, st, it[3][0])
        if s is not None:
            return segs_of(rev_seq(E, st, mk_vec(s)))
    if k == '$it:take' and it[3][0][0] == 'agg' and it[3][0][1] == '$it:repeat':
        n = it[3][1]
        v = it[3][0][3][0]
        if is_c(n) and n[1] <= 64:
            return tuple(('one', v) for _ in range(n[1]))
        return (('c', n, ('k', ('rn', st.fresh(), st.ctx)), v),)
    return None


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(E, st, c):
    it = self_iter(E, st, c)
    T = E.T[c.dtid] if c.dtid is not None else {}
    path = T.get('path', '')
    note_alloc(E, st, it, c)
    if path.endswith('vec::Vec') or path.endswith('VecDeque') or path.endswith('boxed::Box'):
        return collect_vec(E, st, it, lambda v: v)
    if path in (RES, OPT) and T.get('args'):
        inner = E.T[T['args'][0]]
        if inner.get('path', '').endswith('vec::Vec'):
            return collect_try(E, st, it, path)
    if path.endswith('string::String'):
        r = collect_vec(E, st, it, lambda v: ('app', 'string-of', (v,), 0))
        return r
    return unknown(E, st, c)


def note_alloc(E, st, it, c):
    n = it_len(E, st, it) if it[0] != 'ref' else None
    if n is not None and not is_c(n):
        alloc(E, st, n, c)


def collect_vec(E, st, it, wrap):
    w = whole(E, st, it)
    if w is not None:
        return ret(st, wrap(mk_vec(w)))
    acc = hroot(st, ('vec', ()))

    def body(s, x):
        v = E.read(s, (acc[1], ()))
        E.write(s, (acc[1], ()), mk_vec(segs_of(v) + (('one', x),)))
        return [('back', s, None)]
    outs, _ = consume(E, st, it, body)
    return finish(outs, lambda s, p: wrap(s.mem.pop(acc[1])))


def collect_try(E, st, it, path):
    acc = hroot(st, ('vec', ()))

    def body(s, x):
        out = []
        for ok, s2, p in res_cases(E, s, x):
            if ok:
                v = E.read(s2, (acc[1], ()))
                E.write(s2, (acc[1], ()), mk_vec(segs_of(v) + (('one', p),)))
                out.append(('back', s2, None))
            else:
                out.append(('exit', s2, ('v', x)))
        return out
    outs, _ = consume(E, st, it, body)

    def fin(s, p):
        v = s.mem.pop(acc[1])
        if p[0] == 'v':
            return p[1]
        return Ok(v) if path == RES else Some(v)
    return finish(outs, fin)


def copied(ss):
    """the values of a sequence of references to values"""
    def un(x):
        return x[1][1] if x[0] == 'ref' and x[1][0] == 'V' and x[2] == () else x
    out = []
    for q in ss:
        if q[0] == 'one':
            q = ('one', un(q[1]))
        elif q[0] == 'c':
            t = un(q[3])
            q = ('all', t[1]) if t == ('elem', t[1] if len(t) > 1 else None, q[2]) and q[1] == ('len', t[1]) else q[:3] + (t,)
        out.append(q)
    return tuple(out)


@model('Extend::extend', 'Vec::extend')
def m_extend(E, st, c):
    loc, v = deep_loc(E, st, c.args[0])
    it = into_iter(E, st, c.args[1], c.tyargs()[2:] or c.tyargs()[1:])
    note_alloc(E, st, it, c)
    w = whole(E, st, it)
    own = copied if 'Extend<&' in (c.rpath or '') else lambda s: s
    if w is not None:
        E.write(st, loc, mk_vec(segs_of(v) + own(w)))
        return ret(st, UNIT)
    out = []
    for o in collect_vec(E, st, it, lambda x: x):
        if o[0] == 'ret':
            cur = E.read(o[1], loc)
            E.write(o[1], loc, mk_vec(segs_of(cur) + own(segs_of(o[2]))))
            out.append(('ret', o[1], UNIT))
        else:
            out.append(o)
    return out


@model('array::map')
def m_array_map(E, st, c):
    fn = hroot(st, c.args[1])
    cur = [(st, ())]
    out = []
    for x in E.elems(c.args[0]):
        nxt = []
        for s, acc in cur:
            for o in E.call_value(s, fn, [x]):
                if o[0] == 'ret':
                    nxt.append((o[1], acc + (o[2],)))
                else:
                    out.append(o)
        cur = nxt
    return out + [('ret', s, ('agg', 'array', None, acc)) for s, acc in cur]
