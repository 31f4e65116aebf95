"""Conversions between the types of the library, the wire types and their text forms: what each must return.

Each conversion is judged on its own.  Inside one, every other conversion is a term conv(d, s, x), "x of type s, as a d":
what that does is judged where it is defined, and a conversion may not lead back to itself on the same value."""
import re
from spec import *
from terms import *
from engine import *
from inputspec import BASE_HOOKS

VERS = 'versioned::Versioned'
FROM = 'std::convert::From'
CRATES = ('mina_rs_base', 'mina_crypto', 'mina_serialization_types', 'proof_systems')


def own(path):
    return any((c + '::') in path for c in CRATES)


class Skip(Und):
    pass


class Family:
    def __init__(self, P):
        self.P = P
        self.roots = {}
        for r in P.roots:
            if r.get('trait') == FROM and r['name'] == 'from':
                self.roots[r['path']] = r
        # curve arithmetic, big integers, hash inputs and errors have no parts to compare
        self.claimed = [p for p, r in self.roots.items() if not any(
            re.search(r'\bark_|\bFs\b|Error\b|\bnum::|ROInput\b|GroupAffine', P.types[t]['s']) for t in r['trait_args'])]
        self.edges = {}

    def key(self, t):
        return self.P.types[t]['s']

    def hooks(self, path):
        mine = self.roots[path]['body']

        def hook(E, st, f, args, sp):
            a = f.get('args') or []
            rp = f.get('rpath') or ''
            if f.get('trait') != FROM or len(a) != 2 or f.get('body') == mine or 'versioned::Versioned' in rp.split(' as ')[0][:22] \
                    or rp.startswith('versioned::') or a[0] == a[1]:
                return None
            if not own(rp):
                return None
            v = args[0]
            if v[0] == 'ref':
                v = E.read(st, (v[1], v[2]))
            return [('ret', st, ('app', 'conv', a[0], a[1], E.freeze(st, v)))]
        return ((lambda p: p.endswith('::from'), hook),) + BASE_HOOKS


def subterms(t, out=None):
    """all terms in t"""
    out = set() if out is None else out
    if isinstance(t, tuple) and t not in out:
        out.add(t)
        for x in t:
            subterms(x, out)
    return out


class Corr:
    """does got, of type d, carry what src, of type s, carries?"""

    def __init__(self, P, E, st):
        self.P, self.E, self.st = P, E, st
        self.whole = None
        self.through = []

    def eq(self, got, want, what):
        r = prove_eq(self.E, self.st, got, want)
        if r[0] == NE:
            raise Bad('%s: %s' % (what, r[1]), 'value')
        if r[0] == UNDET:
            if self.pure(got) and self.pure(want) and not any(got in subterms(k) and want in subterms(k) for k in self.st.facts):
                raise Bad('%s: %s instead of %s' % (what, show(got), show(want)), 'value')
            raise Und('%s: %s' % (what, r[1]))

    def pure(self, t):
        """a part of the value given"""
        while t[0] in ('fld', '*'):
            t = t[1]
        return t[0] == 'sym' and t[2] == 0

    def fields(self, T, v=0):
        A = self.P.adts.get(T['path'])
        if A is None:
            raise Und('type ' + T['s'])
        return A['variants'][v]['fields']

    def kind(self, t):
        T = self.P.types[t]
        if T['k'] == 'ref':
            return 'ref', self.P.types[T['e']], T['e']
        if T['k'] == 'adt':
            p = T['path']
            if p == VERS:
                return 'vers', T, T['args'][0]
            if p.endswith('vec::Vec'):
                return 'vec', T, T['args'][0]
            if p.endswith('option::Option'):
                return 'opt', T, T['args'][0]
            if p.endswith('boxed::Box'):
                return 'box', T, T['args'][0]
            A = self.P.adts.get(p)
            if A is None:
                return 'leaf', T, None
            if A['k'] == 'struct':
                fs = [f for f in A['variants'][0]['fields'] if f[1] is not None and 'PhantomData' not in self.P.types[f[1]]['s']]
                if len(fs) == 1:
                    i = A['variants'][0]['fields'].index(fs[0])
                    return 'new', T, (i, fs[0][1], len(A['variants'][0]['fields']))
                return 'struct', T, None
            return 'enum', T, None
        if T['k'] == 'tuple' and len(T['ts']) == 1:
            return 'new', T, (0, T['ts'][0], 1)
        return T['k'], T, None

    def part(self, v, var, i):
        if v[0] == 'agg':
            return v[3][i]
        return ('fld', v, var, i)

    def sub(self, T, t):
        """type of a field of T: parameters of generic types are replaced by position"""
        F = self.P.types[t]
        if F['k'] == 'param' and T['k'] == 'adt':
            ps = [a for a in T.get('args', []) if isinstance(a, int)]
            if len(ps) == 1:
                return ps[0]
            raise Und('parameter ' + F['s'])
        return t

    def unbox(self, t):
        while self.kind(t)[0] in ('box', 'ref'):
            t = self.kind(t)[2]
        return t

    def same(self, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if a == b:
            return True
        A, B = self.P.types[a], self.P.types[b]
        if A['s'] == B['s']:
            return True
        if A['k'] == 'adt' and B['k'] == 'adt' and A['path'] == B['path'] and len(A['args']) == len(B['args']):
            # a constant may be written as a number or as the expression it comes from
            return all(self.same(x, y) if isinstance(x, int) and isinstance(y, int) else x == y or '{' in str(x) + str(y)
                       for x, y in zip(A['args'], B['args']))
        if A['k'] == 'ref' and B['k'] == 'ref':
            return self.same(A['e'], B['e'])
        return False

    def strip(self, v, t):
        """v without wrappers of one part"""
        while True:
            k, T, x = self.kind(t)
            if k == 'vers':
                v, t = self.part(v, None, [f[0] for f in self.fields(T)].index('t')), x
            elif k in ('box', 'ref'):
                t = x
            elif k == 'new':
                v, t = self.part(v, None, x[0]), self.sub(T, x[1])
            else:
                return v, t, k, T

    def sink(self, got):
        """a part of a converted value is a part of the value: its term and type, or None"""
        proj, v = [], got
        while v[0] == 'fld':
            proj.append((v[2], v[3]))
            v = v[1]
        if v[:2] != ('app', 'conv') or not proj:
            return None
        d, s, x = v[2], v[3], v[4]
        for var, i in reversed(proj):
            k, T, y = self.kind(d)
            if k == 'vers' or k == 'new':
                j = [f[0] for f in self.fields(T)].index('t') if k == 'vers' else y[0]
                if i != j:
                    return None
                d = y if k == 'vers' else self.sub(T, y[1])
                continue
            if k == 'box' :
                return None
            x, s, ks, S = self.strip(x, s)
            if k == 'struct' and ks == 'struct':
                n, t = self.fields(T)[i]
                names = [f[0] for f in self.fields(S)]
                if n not in names:
                    return None
                j = names.index(n)
                d, x, s = self.sub(T, t), self.part(x, None, j), self.sub(S, self.fields(S)[j][1])
                continue
            return None
        return x, s

    def go(self, got, d, src, s, what):
        P, E, st = self.P, self.E, self.st
        while True:
            if got[:2] == ('app', 'fe') and self.P.types[d]['s'] == '[u8; 32]':
                got = got[2]     # a field element is named by its bytes
                continue
            k = self.sink(got)
            if k is not None:
                got, d = k
                continue
            if got[:2] == ('app', 'conv'):
                if not self.same(got[2], d):
                    raise Und('%s: a %s where a %s is due' % (what, P.types[got[2]]['s'], P.types[d]['s']))
                if self.strip(got[4], got[3])[0] == self.whole:
                    self.through.append((got[2], got[3]))
                got, d = got[4], got[3]
                continue
            if self.same(d, s):
                if self.kind(d)[0] not in ('vec', 'opt') or prove_eq(E, st, got, src)[0] == EQ:
                    return self.eq(got, src, what)
            kd, D, xd = self.kind(d)
            ks, S, xs = self.kind(s)
            if kd == 'vers':
                names = [f[0] for f in self.fields(D)]
                iv, it = names.index('version'), names.index('t')
                if got[0] == 'agg':
                    c = D['args'][1]
                    c = I(int(c)) if str(c).isdigit() else ('sym', 'const ' + str(c), 0, ())
                    self.eq(got[3][iv], c, what + ': version')
                got, d = self.part(got, None, it), xd
                continue
            if ks == 'vers':
                names = [f[0] for f in self.fields(S)]
                src, s = self.part(src, None, names.index('t')), xs
                continue
            if kd in ('box', 'ref'):
                d = xd
                continue
            if ks in ('box', 'ref'):
                s = xs
                continue
            if kd == 'new':
                i, t, n = xd
                got, d = self.part(got, None, i), self.sub(D, t)
                if ks == 'new' and not self.same(d, s):
                    i, t, n = xs
                    src, s = self.part(src, None, i), self.sub(S, t)
                continue
            if ks == 'new':
                i, t, n = xs
                src, s = self.part(src, None, i), self.sub(S, t)
                continue
            break
        if {kd, ks} <= {'vec', 'slice', 'array'} and {kd, ks} & {'slice', 'array'}:
            if prove_eq(E, st, got, src)[0] == EQ:
                return
            return self.vec(got, xd if kd == 'vec' else D['e'], src, xs if ks == 'vec' else S['e'], what)
        if kd != ks:
            if {kd, ks} == {'struct', 'tuple'}:
                fd = D['ts'] if kd == 'tuple' else [f[1] for f in self.fields(D)]
                fs = S['ts'] if ks == 'tuple' else [f[1] for f in self.fields(S)]
                if len(fd) == len(fs):
                    for i in range(len(fd)):
                        self.go(self.part(got, None, i), fd[i], ('fld', src, None, i), fs[i], '%s.%d' % (what, i))
                    return
            raise Skip('%s: %s as %s' % (what, S['s'], D['s']))
        if kd == 'int':
            if D['w'] != S['w']:
                raise Skip('%s: %s as %s' % (what, S['s'], D['s']))
            # equal width: the same bits, read with or without a sign
            return self.eq(got, E.cast(st, src, s, d), what)
        if kd == 'opt':
            dd = E.iv(st, ('discr', src))
            if dd == ((0, 0),):
                return self.eq(got, NONE, what)
            if dd == ((1, 1),):
                if got[0] != 'agg':
                    raise Und('%s: %s' % (what, show(got)[:100]))
                if got[2] == 0:
                    raise Bad('%s: a present value becomes absent' % what, 'value')
                return self.go(got[3][0], xd, ('fld', src, 1, 0), xs, what)
            raise Und('%s: presence not decided: %s' % (what, show(got)[:80]))
        if kd == 'tuple':
            if len(D['ts']) != len(S['ts']):
                raise Skip('%s: %s as %s' % (what, S['s'], D['s']))
            for i in range(len(D['ts'])):
                self.go(self.part(got, None, i), D['ts'][i], ('fld', src, None, i), S['ts'][i], '%s.%d' % (what, i))
            return
        if kd == 'vec':
            return self.vec(got, xd, src, xs, what)
        if kd == 'struct':
            fd, fs = self.fields(D), self.fields(S)
            if sorted(f[0] for f in fd) != sorted(f[0] for f in fs):
                raise Skip('%s: fields of %s and %s differ' % (what, S['s'], D['s']))
            ns = [f[0] for f in fs]
            for i, (n, t) in enumerate(fd):
                j = ns.index(n)
                self.go(self.part(got, None, i), self.sub(D, t), self.part(src, None, j), self.sub(S, fs[j][1]), '%s.%s' % (what, n))
            return
        if kd == 'enum':
            vd, vs = P.adts[D['path']]['variants'], P.adts[S['path']]['variants']
            if sorted(v['name'] for v in vd) != sorted(v['name'] for v in vs):
                raise Skip('%s: variants of %s and %s differ' % (what, S['s'], D['s']))
            if len(vs) == 1:
                k = 0
            else:
                dd = E.iv(st, ('discr', src))
                if not dd or dd[0][0] != dd[-1][1]:
                    raise Und('%s: variant not decided' % what)
                k = [v['discr'] for v in vs].index(dd[0][0])
            if got[0] != 'agg':
                raise Und('%s: %s' % (what, show(got)[:100]))
            n = vs[k]['name']
            if vd[got[2]]['name'] != n:
                raise Bad('%s: variant %s becomes %s' % (what, n, vd[got[2]]['name']), 'value')
            fd, fs = vd[got[2]]['fields'], vs[k]['fields']
            if [f[0] for f in fd] != [f[0] for f in fs] and sorted(f[0] for f in fd) != sorted(f[0] for f in fs):
                raise Skip('%s: fields differ' % what)
            ns = [f[0] for f in fs]
            for i, (f, t) in enumerate(fd):
                j = ns.index(f)
                self.go(got[3][i], t, ('fld', src, k, j), fs[j][1], '%s.%s.%s' % (what, n, f))
            return
        raise Skip('%s: %s as %s' % (what, S['s'], D['s']))

    def vec(self, got, d, src, s, what):
        E, st = self.E, self.st
        segs = segs_of(got)
        if len(segs) == 1 and segs[0][0] == 'all':
            return self.eq(segs[0][1], src, what)
        if len(segs) == 0:
            n = E.iv(st, ('len', src))
            if n and n[-1][1] == 0:
                return
            return self.eq(ZERO, ('len', src), what + ': length')
        if all(x[0] in ('one', 'c') for x in segs):
            pos = ZERO
            for x in segs:
                self.go(x[1] if x[0] == 'one' else x[3], d, ('elem', src, pos if x[0] == 'one' else add(pos, x[2])), s, what + ': element')
                pos = add(pos, ONE if x[0] == 'one' else x[1])
            return self.eq(pos, ('len', src), what + ': length')
        raise Und('%s: %s' % (what, show(got)[:100]))


def rule(fam, path):
    P = fam.P
    d, s = fam.roots[path]['trait_args']

    def check(R, o):
        E, st = R.E, o[1]
        if o[0] == 'panic':
            if P.types[s]['s'] == '&[u8]':
                return      # a slice of another length is refused this way
            if feasible(E, st):
                raise Bad('panics at %s' % (o[2][1],), 'panic')
            raise Und('panic')
        if o[0] == 'cut':
            raise Bad('never returns', 'recursion')
        if o[0] != 'ret':
            raise Und(str(o[2])[:160])
        if any(e[0] == 'unknown' for e in st.ev):
            raise Und('unmodelled call')
        src, t = R.args[0], s
        if src[0] == 'ref':
            src, t = src[1][1], P.types[s]['e']
            src = ('*', src)
        C = Corr(P, E, st)
        C.whole = C.strip(src, t)[0]
        try:
            C.go(E.freeze(st, o[2]), d, src, t, 'the result')
        except Bad:
            if feasible(E, st):
                raise
            raise Und('not shown reachable')
        fam.edges.setdefault((P.types[d]['s'], P.types[s]['s']), set()).update(
            (P.types[a]['s'], P.types[b]['s']) for a, b in C.through)
    return check


def cycles(edges):
    """a conversion that leads back to itself on the same value"""
    out = []
    for a in sorted(edges):
        seen, todo = set(), list(edges[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += edges.get(x, ())
        if a in seen:
            out.append(a)
    return out
