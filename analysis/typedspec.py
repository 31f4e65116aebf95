"""What the bin_prot format demands of every primitive and every shape of the serde data model."""
from spec import *
from terms import *
from engine import *

RNG = {'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-(1 << 31), (1 << 31) - 1), 'i64': (-(1 << 63), (1 << 63) - 1),
       'isize': (-(1 << 63), (1 << 63) - 1), 'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1),
       'u64': (0, (1 << 64) - 1), 'usize': (0, (1 << 64) - 1)}


def arg(R, name):
    """value of a by-value argument / target of a reference argument"""
    for n, pl in R.body.get('names', []):
        if n == name and len(pl) == 1 and 1 <= pl[0] <= R.body['argc']:
            break
    else:
        raise Und('no argument ' + name)
    v = R.args[pl[0] - 1]
    if v[0] == 'ref':
        return ('*', v[1][1])
    return v


def fld(v, i, variant=None):
    return ('fld', v, variant, i)


def const(items):
    return lambda R: lambda E, st: [(st, items(R))]


def on(f):
    """f(R) -> (term, [(interval set, items or None)])"""
    def mk(R):
        def exp(E, st):
            t, table = f(R)
            out = []
            for iv, items in table:
                s = st.fork()
                if E.refine(s, t, iv):
                    out.append((s, items))
            return out
        return exp
    return mk


def wint(name):
    return const(lambda R: [('int', arg(R, name))])


def wnat(name):
    return const(lambda R: [('nat0', arg(R, name))])


def discr(v):
    return ('discr', v)


def ocaml_hash(label):
    h = 0
    for b in label.encode():
        h = 223 * h + b
    return h & 0x7fffffff


def tagbytes(n):
    t = (2 * n + 1) & 0xffffffff
    return [('b', I((t >> (8 * i)) & 255)) for i in range(4)]


def probes(v, n, variant=None):
    return [('probe', fld(v, i, variant)) for i in range(n)]


EN = (('A', 0), ('B', 1), ('C', 2), ('D', 2), ('E', 0))
PV = (('A', 0), ('Bc', 1), ('De', 2), ('F', 2))
LONG = 'A_variant_name_much_longer_than_sixty_four_characters_long_and_still_going_'
PVL = (('Signed_command', 1), ('Signed_command_with_fee', 1), ('Signed_command_with_fex', 2), ('signed_command', 0), (LONG + '1', 1), (LONG + '2', 2))


def hook_hash(E, st, f, args, sp):
    """the hash of a constant name, as C13 establishes it (the function itself stops with an overflow when such checks are on)"""
    import models
    s = models.const_str(models.val(E, st, args[0]))
    if s is None:
        return [('unk', st, 'hash of a name that is not constant: %s' % str(models.val(E, st, args[0]))[:200])]
    E.hashed = True
    return [('ret', st, I(ocaml_hash(s)))]


HASH = ((lambda p: p.split('::')[-1] == 'caml_hash_variant', hook_hash),)


def w_tag(t):
    """a four byte polymorphic variant tag"""
    return lambda E, st: [(st, [('b', E.byte(st, add(scale(t, 2), ONE), i)) for i in range(4)])]


WRITE = {}   # root -> R -> exp
for _t in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32'):
    WRITE['codec::w_int_' + _t] = wint('n')
for _t in ('u8', 'u16', 'u32', 'u64'):
    WRITE['codec::w_nat_' + _t] = wnat('n')
CHARS = lambda n: on(lambda R: (arg(R, n), [(((0, 255),), [('b', arg(R, n))]), (((256, INF),), None)]))
WRITE.update({
    'codec::w_unit': const(lambda R: [('b', ZERO)]),
    'codec::w_bool': const(lambda R: [('b', arg(R, 'b'))]),
    'codec::w_char': CHARS('c'),
    'codec::w_f32': const(lambda R: [('fb', arg(R, 'f'), 4)]),
    'codec::w_f64': const(lambda R: [('fb', arg(R, 'f'), 8)]),
    'codec::w_vidx': const(lambda R: [('b', arg(R, 'i'))]),
    'codec::w_ptag': lambda R: w_tag(arg(R, 'i')),
})
for _t in ('i8', 'i16', 'i32', 'i64', 'isize', 'u16', 'u32', 'u64', 'usize'):
    WRITE['typed::ser_' + _t] = wint('v')
WRITE['typed::ser_u8'] = const(lambda R: [('b', arg(R, 'v'))])
V = lambda R: arg(R, 'v')
WRITE.update({
    'typed::ser_bool': const(lambda R: [('b', V(R))]),
    'typed::ser_f32': const(lambda R: [('fb', V(R), 4)]),
    'typed::ser_f64': const(lambda R: [('fb', V(R), 8)]),
    'typed::ser_char': CHARS('v'),
    'typed::ser_unit': const(lambda R: [('b', ZERO)]),
    'typed::ser_units': const(lambda R: [('b', ZERO)]),
    'typed::ser_string': const(lambda R: [('nat0', ('len', V(R))), ('all', ('bytes', V(R)))]),
    'typed::ser_opt': on(lambda R: (discr(V(R)), [(((0, 0),), [('b', ZERO)]), (((1, 1),), [('b', ONE), ('probe', fld(V(R), 0, 1))])])),
    'typed::ser_box': const(lambda R: [('probe', V(R))]),
    'typed::ser_vec': const(lambda R: [('nat0', ('len', V(R))), ('loop', ('len', V(R)), lambda K: [('probe', ('elem', V(R), K))])]),
    'typed::ser_arr': const(lambda R: [('probe', ('elem', V(R), I(i))) for i in range(3)]),
    'typed::ser_pair': const(lambda R: probes(V(R), 2)),
    'typed::ser_trip': const(lambda R: probes(V(R), 3)),
    'typed::ser_news': const(lambda R: probes(V(R), 1)),
    'typed::ser_tups': const(lambda R: probes(V(R), 3)),
    'typed::ser_rec': const(lambda R: probes(V(R), 3)),
    'typed::ser_enum': on(lambda R: (discr(V(R)), [(((i, i),), [('b', I(i))] + probes(V(R), n, i)) for i, (_, n) in enumerate(EN)])),
    'typed::ser_pv': on(lambda R: (discr(V(R)), [(((i, i),), tagbytes(ocaml_hash(s)) + probes(V(R), n, i)) for i, (s, n) in enumerate(PV)])),
    'long::ser_pvl': lambda R: w_poly(PVL)(R),
    'long::ser_widepv': lambda R: w_poly(WIDE)(R),
    'typed::ser_bytes': const(lambda R: [('all', fld(V(R), 0))]),
    'typed::ser_with_int': const(lambda R: [('int', fld(V(R), 0))]),
    'typed::ser_with_nat': const(lambda R: [('nat0', fld(V(R), 0))]),
})
for _n, _k in (('vunit', 0), ('vnew', 1), ('vtup', 2), ('vrec', 2)):
    def _mk(k):
        def mk(R):
            i = fld(V(R), 0)
            pl = [('probe', fld(V(R), j + 1)) for j in range(k)]

            def exp(E, st):
                out = []
                s = st.fork()
                if E.refine(s, i, ((0, 255),)):
                    out.append((s, [('b', i)] + pl))
                s = st.fork()
                if E.refine(s, i, ((256, INF),)):
                    out += [(s2, x + pl) for s2, x in w_tag(i)(E, s)]
                return out
            return exp
        return mk
    WRITE['typed::ser_' + _n] = _mk(_k)


# shapes at the ends of the size range
NEAR = (('A', 0), ('B', 1))
WIDE = tuple(('V%d' % i, 0 if i % 3 == 0 else 1) for i in range(256))
ENDS = (0, 0, 1, None, 10, 9, None, None)


def w_sum(table):
    return on(lambda R: (discr(V(R)), [(((i, i),), [('b', I(i))] + probes(V(R), n, i)) for i, (_, n) in enumerate(table)]))


def w_poly(table):
    return on(lambda R: (discr(V(R)), [(((i, i),), tagbytes(ocaml_hash(s)) + probes(V(R), n, i)) for i, (s, n) in enumerate(table)]))


def ends_w(v, i):
    if i == 3:
        return [('probe', fld(fld(v, 0, 3), j)) for j in range(2)]
    return {6: [], 7: [('b', ZERO)]}.get(i) if ENDS[i] is None else probes(v, ENDS[i], i)


WRITE.update({
    'typed::ser_rec0': const(lambda R: []), 'typed::ser_tup0': const(lambda R: []),
    'typed::ser_rec1': const(lambda R: probes(V(R), 1)), 'typed::ser_one': const(lambda R: probes(V(R), 1)),
    'typed::ser_rec12': const(lambda R: probes(V(R), 12)), 'typed::ser_tuple12': const(lambda R: probes(V(R), 12)),
    'typed::ser_tup9': const(lambda R: probes(V(R), 9)),
    'typed::ser_arr0': const(lambda R: []),
    'typed::ser_arr1': const(lambda R: [('probe', ('elem', V(R), ZERO))]),
    'typed::ser_arr17': const(lambda R: [('probe', ('elem', V(R), I(i))) for i in range(17)]),
    'typed::ser_ends': on(lambda R: (discr(V(R)), [(((i, i),), [('b', I(i))] + ends_w(V(R), i)) for i in range(len(ENDS))])),
    'typed::ser_wide': w_sum(WIDE),
})
for _i in range(1, 5):
    WRITE['typed::ser_near%d' % _i] = w_sum(NEAR)


# ---------------------------------------------------------------- readers
def val(f):
    return lambda c, x: [(c, VAL(f(x)))]


def agg(path, variant=0):
    return lambda xs: ('agg', path, variant, tuple(xs))


def rd_const(flag, v):
    return lambda c: bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [(((flag, flag),), lambda c: [(c, VAL(v))])]))


def rd_u8(c):
    return bind(rd_bytes(c, 1), lambda c, bs: [(c, VAL(bs[0]))])


def rd_float(n):
    return lambda c: bind(rd_bytes(c, n), lambda c, bs: [(c, VAL(('fle', tuple(bs))))])


def rd_tag(c):
    """31 bit tag stored as 2*tag+1, little endian"""
    return bind(rd_bytes(c, 4), lambda c, bs: [(c, VAL(c.E.shr(c.st, le(c, bs, False), 1)))])


def rd_bytesv(c):
    return bind(rd_nat0(c), lambda c, n: rd_blob(c, n))


def rd_fields(n, mk):
    return lambda c: bind(rd_probes(c, n), lambda c, xs: [(c, VAL(mk(xs)))])


T = 'witness::typed::'


def rd_sum(name, table):
    return lambda c: bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [
        (((i, i),), rd_fields(n, agg('witness::' + name, i))) for i, (_, n) in enumerate(table)]))


def rd_ends(c):
    A = lambda i: agg(T + 'Ends', i)
    alt = {3: lambda c: bind(rd_probes(c, 2), lambda c, xs: [(c, VAL(A(3)([('agg', 'tuple', None, tuple(xs))])))]),
           6: lambda c: [(c, VAL(A(6)([('agg', T + 'Rec0', 0, ())])))],
           7: lambda c: bind(rd_const(0, UNIT)(c), lambda c, u: [(c, VAL(A(7)([u])))])}
    return bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [
        (((i, i),), alt[i] if n is None else rd_fields(n, A(i))) for i, n in enumerate(ENDS)]))


def rd_polyvar(name, table):
    return lambda c: bind(rd_tag(c), lambda c, t: cases(c, t, [
        (((ocaml_hash(s), ocaml_hash(s)),), rd_fields(n, agg('witness::' + name, i))) for i, (s, n) in enumerate(table)]))


READ = {}
for _t in RNG:
    READ['codec::r_int_' + _t] = READ['typed::de_' + _t] = (lambda lo, hi: lambda c: rd_int(c, lo, hi))(*RNG[_t])
    if _t[0] == 'u':
        READ['codec::r_nat_' + _t] = (lambda hi: lambda c: rd_nat0(c, hi))(RNG[_t][1])
READ['typed::de_u8'] = lambda c: rd_u8(c)
BOOL = lambda c: rd_flag(c, lambda c: [(c, VAL(ONE))], lambda c: [(c, VAL(ZERO))])
READ.update({
    'codec::r_unit': rd_const(0, UNIT), 'typed::de_unit': rd_const(0, UNIT),
    'typed::de_units': rd_const(0, ('agg', T + 'UnitS', 0, ())),
    'codec::r_bool': BOOL, 'typed::de_bool': BOOL,
    'codec::r_char': rd_u8, 'typed::de_char': rd_u8, 'codec::r_vidx': rd_u8,
    'codec::r_ptag': rd_tag,
    'codec::r_string': rd_string, 'typed::de_string': rd_string,
    'codec::r_bytes': rd_bytesv,
    'typed::de_f32': rd_float(4), 'typed::de_f64': rd_float(8),
    'typed::de_opt': lambda c: rd_flag(c, lambda c: bind(rd_probe(c), lambda c, v: [(c, VAL(Some(v)))]), lambda c: [(c, VAL(NONE))]),
    'typed::de_box': rd_probe,
    'typed::de_vec': lambda c: bind(rd_nat0(c), lambda c, n: rd_loop_probes(c, n)),
    'typed::de_arr': rd_fields(3, lambda xs: ('agg', 'array', None, xs)),
    'typed::de_pair': rd_fields(2, lambda xs: ('agg', 'tuple', None, xs)),
    'typed::de_trip': rd_fields(3, lambda xs: ('agg', 'tuple', None, xs)),
    'typed::de_news': rd_fields(1, agg(T + 'NewS')),
    'typed::de_tups': rd_fields(3, agg(T + 'TupS')),
    'typed::de_rec': rd_fields(3, agg(T + 'Rec')),
    'typed::de_enum': rd_sum('typed::En', EN),
    'typed::de_pv': rd_polyvar('typed::Pv', PV),
    'long::de_pvl': rd_polyvar('typed::Pvl', PVL), 'long::de_widepv': rd_polyvar('wide::WidePv', WIDE),
})
READ.update({
    'typed::de_rec0': rd_fields(0, agg(T + 'Rec0')), 'typed::de_tup0': rd_fields(0, agg(T + 'Tup0')),
    'typed::de_rec1': rd_fields(1, agg(T + 'Rec1')), 'typed::de_one': rd_fields(1, lambda xs: ('agg', 'tuple', None, tuple(xs))),
    'typed::de_rec12': rd_fields(12, agg(T + 'Rec12')), 'typed::de_tuple12': rd_fields(12, lambda xs: ('agg', 'tuple', None, tuple(xs))),
    'typed::de_tup9': rd_fields(9, agg(T + 'Tup9')),
    'typed::de_arr0': rd_fields(0, lambda xs: ('agg', 'array', None, xs)),
    'typed::de_arr1': rd_fields(1, lambda xs: ('agg', 'array', None, xs)),
    'typed::de_arr17': rd_fields(17, lambda xs: ('agg', 'array', None, xs)),
    'typed::de_ends': rd_ends,
    'typed::de_wide': rd_sum('wide::Wide', WIDE),
})
for _i in range(1, 5):
    READ['typed::de_near%d' % _i] = rd_sum('typed::Near%d' % _i, NEAR)
