"""Version wrappers and generated conversions: what each conversion must return."""
from spec import *
from terms import *
from engine import *
from convtable import TABLE

VERS = 'versioned::Versioned'
AF = 'witness_conv::autofrom::'


def adt(P, name):
    for k in P.adts:
        if k == name or k == name.split('::', 1)[-1]:
            return k
    raise Und('type ' + name)


def variants(P, name):
    return [(v['name'], [f[0] for f in v['fields']]) for v in P.adts[adt(P, name)]['variants']]


def need(r, what):
    if r[0] == NE:
        raise Bad('%s: %s' % (what, r[1]), 'value')
    if r[0] == UNDET:
        raise Und('%s: %s' % (what, r[1]))


def eq(E, st, got, want, what):
    need(prove_eq(E, st, got, want), what)


def version_layers(P, E, st, got, consts, what='version'):
    """strip the wrappers of got, outermost last in consts"""
    names = variants(P, VERS)[0][1]
    iv, it = names.index('version'), names.index('t')
    for c in reversed(consts):
        if got[0] != 'agg' or not got[1].endswith('Versioned'):
            raise Und('not a version wrapper: ' + show(got)[:100])
        eq(E, st, got[3][iv], c, what)
        got = got[3][it]
    return got


def unwrap(P, src, n):
    it = variants(P, VERS)[0][1].index('t')
    for _ in range(n):
        src = ('fld', src, None, it)
    return src


class Conv:
    def __init__(self, P, E, st, target):
        self.P, self.E, self.st = P, E, st
        self.target = target   # wrapper type of an element, None: unchanged

    def elem(self, got, src, what):
        if self.target is None:
            if got == src:
                return
            if got[0] == 'agg' and len(got[3]) == 1:
                return eq(self.E, self.st, got[3][0], ('fld', src, None, 0), what)
            return eq(self.E, self.st, got, src, what)
        eq(self.E, self.st, got, ('agg', adt(self.P, AF + self.target), 0, (('fld', src, None, 0),)), what)

    def field(self, got, src, kind, what):
        E, st = self.E, self.st
        if kind == 'u':
            return eq(E, st, got, src, what)
        if kind == 'X':
            return self.elem(got, src, what)
        if kind == 'O':
            if got == src and self.target is None:
                return
            d = E.iv(st, ('discr', src))
            if got[0] != 'agg':
                raise Und('%s: %s' % (what, show(got)[:100]))
            if d == ((0, 0),):
                return eq(E, st, got, NONE, what)
            if d == ((1, 1),):
                if got[2] == 0:
                    raise Bad('%s: a present value becomes absent' % what, 'value')
                return self.elem(got[3][0], ('fld', src, 1, 0), what)
            raise Und('%s: presence not decided' % what)
        if kind == 'V':
            if got == src and self.target is None:
                return
            segs = segs_of(got)
            if len(segs) == 1 and segs[0] == ('all', src) and self.target is None:
                return
            if len(segs) == 0:
                n = E.iv(st, ('len', src))
                if n and n[-1][1] == 0:
                    return
                eq(E, st, ZERO, ('len', src), what + ': length')
            if all(x[0] in ('one', 'c') for x in segs):
                pos = ZERO
                for x in segs:
                    self.elem(x[1] if x[0] == 'one' else x[3], ('elem', src, pos if x[0] == 'one' else add(pos, x[2])), what + ': element')
                    pos = add(pos, ONE if x[0] == 'one' else x[1])
                return eq(E, st, pos, ('len', src), what + ': length')
            raise Und('%s: %s' % (what, show(got)[:100]))
        raise Und(kind)


def check_conv(P, R, o, src_ty, dst_ty, target, fields, nver, into):
    """fields: [(name, kind)] or {variant: fields}; nver wrappers around the right hand type; into: wrappers on the result"""
    E, st = R.E, o[1]
    if o[0] == 'panic':
        if feasible(E, st):
            raise Bad('panics at %s' % (o[2][1],), 'panic')
        raise Und('panic')
    if o[0] != 'ret':
        raise Und(str(o[2])[:160])
    if any(e[0] == 'unknown' for e in st.ev):
        raise Und('unmodelled call')
    got, src = o[2], R.args[0]
    consts = [('sym', 'const ' + c, 0, ()) for c in 'ABCD'[:nver]]
    try:
        if into:
            got = version_layers(P, E, st, got, consts)
        else:
            src = unwrap(P, src, nver)
        if got[0] != 'agg':
            raise Und('result ' + show(got)[:100])
        C = Conv(P, E, st, target)
        sv, dv = variants(P, AF + src_ty), variants(P, AF + dst_ty)
        if isinstance(fields, dict):
            d = E.iv(st, ('discr', src))
            if len(sv) == 1:
                si = 0
            elif not d or d[0][0] != d[-1][1]:
                raise Und('variant not decided')
            else:
                si = d[0][0]
            name = sv[si][0]
            if dv[got[2]][0] != name:
                raise Bad('variant %s becomes %s' % (name, dv[got[2]][0]), 'value')
            fs, sfs, dfs, sidx = fields[name], sv[si][1], dv[got[2]][1], si
        else:
            fs, sfs, dfs, sidx = fields, sv[0][1], dv[0][1], None
        for f, k in fs:
            C.field(got[3][dfs.index(f)], ('fld', src, sidx, sfs.index(f)), k, 'field ' + f)
    except Bad:
        if feasible(E, st):
            raise
        raise Und('not shown reachable')


CONV = []   # root, src, dst, element wrapper, fields, wrappers, result wrapped
for _m, _a, _b, _t, _fs in TABLE:
    for _n in range(5):
        CONV.append(('%s::to%d' % (_m, _n), _a, _b, 'Y' if _t else None, _fs, _n, True))
        CONV.append(('%s::of%d' % (_m, _n), _b, _a, 'X' if _t else None, _fs, _n, False))


# ---------------------------------------------------------------- the version wrapper itself
def check_vers(P, name):
    M = 'witness_conv::vers::m::'

    def cst(s):
        return [('sym', 'const ' + c, 0, ()) for c in s]

    def one(ty, x):
        return ('agg', adt(P, M + ty), 0, (x,))

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] == 'panic':
            if feasible(E, st):
                raise Bad('panics', 'panic')
            raise Und('panic')
        if o[0] != 'ret':
            raise Und(str(o[2])[:160])
        if any(e[0] == 'unknown' for e in st.ev):
            raise Und('unmodelled call')
        a = R.args[0] if R.args else None
        got = o[2]
        f0 = lambda x: ('fld', x, None, 0)
        if name in ('new', 'from1'):
            eq(E, st, version_layers(P, E, st, got, cst('V')), a, 'payload')
        elif name == 'default':
            x = version_layers(P, E, st, got, cst('V'))
            if x[:2] != ('app', 'default'):
                raise Und('payload ' + show(x)[:80])
        elif name in ('from2', 'from3', 'from4'):
            eq(E, st, version_layers(P, E, st, got, cst('ABCD'[:int(name[4])])), a, 'payload')
        elif name.startswith('into'):
            eq(E, st, got, ('agg', 'tuple', None, (unwrap(P, a, int(name[4])),)), 'payload')
        elif name == 'inner':
            eq(E, st, got, unwrap(P, a, 1), 'payload')
        elif name == 'version':
            iv = variants(P, VERS)[0][1].index('version')
            eq(E, st, got, ('fld', ('*', a[1][1]), None, iv), 'version')
        elif name in ('m::s1', 'm::s2'):
            eta(E, st, got, unwrap(P, a, int(name[-1])), 'payload')
        elif name == 'm::n_to':
            eta(E, st, version_layers(P, E, st, got, [I(5)]), f0(a), 'payload')
        elif name == 'm::n_from':
            if got[0] != 'agg':
                raise Und('result')
            eta(E, st, got[3][0], unwrap(P, a, 1), 'payload')
        elif name in ('m::j_from', 'm::j_to'):
            eq(E, st, got, one('J' if name == 'm::j_from' else 'O', f0(a)), 'payload')
        elif name in ('m::a_to', 'm::g_to'):
            k = name == 'm::a_to'
            eq(E, st, version_layers(P, E, st, got, [I(4 if k else 6)]), one('Bb' if k else 'B2', f0(a)), 'payload')
        elif name in ('m::a_from', 'm::g_from'):
            eq(E, st, got, one('Aa' if name == 'm::a_from' else 'A2', f0(unwrap(P, a, 1))), 'payload')
        else:
            raise Und(name)
    return rule


def eta(E, st, got, want, what):
    if got[0] == 'agg' and len(got[3]) == 1 and want[0] != 'agg':
        return eq(E, st, got[3][0], ('fld', want, None, 0), what)
    eq(E, st, got, want, what)


VERS_ROOTS = ['new', 'default', 'inner', 'version', 'from1', 'from2', 'from3', 'from4', 'into1', 'into2', 'into3', 'into4',
              'm::s1', 'm::s2', 'm::n_to', 'm::n_from', 'm::j_from', 'm::j_to', 'm::a_to', 'm::a_from', 'm::g_to', 'm::g_from']
