"""Loosely typed values: the layout driven decoder and the encoder of `Value`, one level at a time.

Decoding is recursive through the stack of pending rules.  The nested decodings of one level are replaced by the
induction hypothesis "takes exactly the topmost pending rule, reads its encoding, returns its value"; the rule
checked on every path class of the level is that same statement (the pending rules below are left untouched)."""
from spec import *
from terms import *
from engine import *
from models import deep_loc, pop_outcomes, find_stream, wterm, val

BASE = ('sym', 'pending', 0, ())
UNDERFLOW = 'a nested value is read under a rule that belongs to an enclosing value'
MODPATH = ('sym', 'modpath', 0, ())


def is_value_de(p):
    return 'Value as serde::Deserialize' in p and p.split('::<')[0].endswith('::deserialize')


def is_any(p):
    return 'LooselyTyped' in p and '::deserialize_any' in p


def find_stack(E, st, a, want=None):
    """location of the list of pending rules inside the deserializer"""
    loc, v = deep_loc(E, st, a)
    found = []

    def go(v, path, d=0):
        if d > 6 or v[0] != 'agg':
            return
        for i, x in enumerate(v[3]):
            p = path + (('f', None, i),)
            if x[0] == 'vec':
                found.append((loc[0], loc[1] + p))
            else:
                go(x, p, d + 1)
    go(v, ())
    if len(found) != 1:
        raise Unk('pending rules')
    return found[0]


def hook_value_de(E, st, f, args, sp):
    path = f.get('rpath') or f.get('path') or ''
    inside = any(is_any(x) for x in E.stack)
    if is_any(path) and not inside:
        loc = find_stack(E, st, args[0])
        v = E.read(st, loc)
        E.write(st, loc, ('vec', (('all', BASE),) + segs_of(v)))
        E.rng[('len', BASE)] = (0, (1 << 40))
        parent = (loc[0], loc[1][:-1])
        for i, x in enumerate(E.read(st, parent)[3]):
            if x == NONE:   # the module path of the enclosing references
                E.write(st, (parent[0], parent[1] + (('f', None, i),)), MODPATH)
                E.modfield = i
        body = E.p.bodies[f['body']]
        outs = E.exec_body(st, body, E.fix_closure_args(st, body, args))
        for o in outs:
            try:
                o[1].emit(('pending', E.read(o[1], loc), E.read(o[1], parent)))
            except Unk:
                pass
        return outs
    if not inside:
        return None
    loc = find_stack(E, st, args[0])
    v = E.read(st, loc)
    out = []
    for k, s, r in pop_outcomes(E, st, loc, segs_of(v)):
        if r[2] == 0:
            out.append(('ret', s, Err(('sym', 'no-rule', s.fresh(), s.ctx))))
            continue
        rule = r[3][0]
        if has(rule, BASE):
            out.append(('cut', s, UNDERFLOW))
            continue
        stream_ = find_stream(E, s, args[0])
        a, b = s.fork(), s.fork()
        x = ('nested', rule, a.fresh(), a.ctx)
        a.emit(('R', stream_, (('nested', x),)))
        # what a nested rule leaves as the current module path is unknown
        b.emit(('Rerr', stream_, 'probe'))
        out += [('ret', a, Ok(x)), ('ret', b, Err(('sym', 'probe-err', b.fresh(), b.ctx)))]
    return out


def hook_again(E, st, f, args, sp):
    """values taken while rules are pending, by the induction hypothesis; the first one without a rule for real"""
    if any(is_any(x) for x in E.stack):
        return None
    loc = find_stack(E, st, args[0])
    if not segs_of(E.read(st, loc)):
        return None
    out = []
    for k, s, r in pop_outcomes(E, st, loc, segs_of(E.read(st, loc))):
        s.emit(('first',))
        out.append(('ret', s, Ok(('nested', r, s.fresh(), s.ctx))))
    return out


HOOKS_AGAIN = ((lambda p: is_value_de(p) or is_any(p), hook_again),)


def exhausted(R, o):
    """no rule left: an error, and nothing is read"""
    E, st = R.E, o[1]
    if o[0] in ('unk', 'cut'):
        raise Und(str(o[2])[:200])
    if not any(e[0] == 'first' for e in st.ev):
        raise Und('first value')
    if not feasible(E, st):
        raise Und('not shown reachable')
    if o[0] == 'panic':
        raise Bad('panics (%s) at %s when the layout has no rule left' % (o[2][0], o[2][1]), 'panic')
    if result_kind(o[2])[0] == 'ok':
        raise Bad('a value is returned although the layout has no rule left', 'accept')
    if any(e[0] in ('R', 'Rall', 'Rpart') for e in st.ev):
        raise Bad('input is read although the layout has no rule left', 'shape')


def is_value_ser(p):
    return 'serde::Serialize for bin_prot::Value' in p and p.split('::<')[-2 if p.endswith('>') else -1] is not None


def hook_value_ser(E, st, f, args, sp):
    path = f.get('rpath') or f.get('path') or ''
    if not any('serde::Serialize for bin_prot::Value' in x for x in E.stack):
        return None
    v = val(E, st, args[0])
    s = wterm(E, st, args[1])
    a, b = st.fork(), st.fork()
    a.emit(('W', s[1], (('probe', v),)))
    b.emit(('Werr', s[1], 'probe'))
    return [('ret', a, Ok(UNIT)), ('ret', b, Err(('sym', 'probe-err', b.fresh(), b.ctx)))]


HOOKS = ((lambda p: is_value_de(p) or is_any(p), hook_value_de),
         (lambda p: 'serde::Serialize for bin_prot::Value' in p and '::serialize' in p.split('Value>')[-1], hook_value_ser))


# ---------------------------------------------------------------- specification of one level
VAL_ = 'bin_prot::Value'
RULE = 'bin_prot::BinProtRule'
VECTORS = {'Pickles_type.Vector.Vector2': 2, 'Pickles_types.Vector.Vector2': 2, 'Pickles_types.Vector.Vector4': 4,
           'Pickles_types.Vector.Vector8': 8, 'Pickles_types.Vector.Vector17': 17, 'Pickles_types.Vector.Vector18': 18}
FIELDS = ('Ledger_hash0', 'State_hash', 'Pending_coinbase.Stack_hash', 'State_body_hash', 'Pending_coinbase.Hash_builder',
          'Snark_params.Make_inner_curve_scalar', 'Snark_params.Tick', 'Epoch_seed',
          'Zexe_backend.Zexe_backend_common.Stable.Field', 'Pending_coinbase.Coinbase_stack')


class Names:
    """variant and field numbers by name"""

    def __init__(self, P):
        self.P = P
        self.adts = P.adts

    def adt(self, suffix):
        c = [k for k in self.adts if k == suffix or k.endswith('::' + suffix)]
        if not c:
            raise Und('type %s not found' % suffix)
        return min(c, key=len)

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[self.adt(adt)]['variants']):
            if v['name'] == name:
                return i
        raise Und('variant %s::%s not found' % (adt, name))

    def field(self, adt, name, variant=0):
        for i, f in enumerate(self.adts[self.adt(adt)]['variants'][variant]['fields']):
            if f[0] == name:
                return i
        raise Und('field %s.%s not found' % (adt, name))

    def value(self, vname, /, **kw):
        i = self.variant(VAL_, vname)
        fs = self.adts[self.adt(VAL_)]['variants'][i]['fields']
        return ('agg', self.adt(VAL_), i, tuple(kw[('_' + f[0]) if f[0].isdigit() else f[0]] for f in fs))


def str_cases(c, p, table, default):
    out = []
    rest = c.st.fork()
    ok = True
    for s, f in table:
        t = ('streq', p, ('s', s))
        a = c.st.fork()
        if c.E.assume(a, t, True):
            out += f(c.at(st=a))
        ok = ok and c.E.assume(rest, t, False)
    if ok:
        out += default(c.at(st=rest))
    return out


def decode_spec(P, rule):
    N = Names(P)
    V = N.value
    rv = lambda n: N.variant(RULE, n)
    arg_ = lambda n, i=0: ('fld', rule, rv(n), i)

    def err(why):
        return lambda c: [(c, ('err', why))]

    def tuple_rule(args):
        return ('agg', N.adt(RULE), rv('Tuple'), (args,))

    def unit(c):
        return bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [(((0, 0),), lambda c: [(c, VAL(V('Unit')))])]))

    def boolean(c):
        return rd_flag(c, lambda c: [(c, VAL(V('Bool', _0=ONE)))], lambda c: [(c, VAL(V('Bool', _0=ZERO)))])

    def char(c):
        return bind(rd_bytes(c, 1), lambda c, bs: [(c, VAL(V('Char', _0=bs[0])))])

    def integer(c):
        return bind(rd_int(c, -(1 << 63), (1 << 63) - 1), lambda c, x: [(c, VAL(V('Int', _0=x)))])

    def flt(c):
        return bind(rd_bytes(c, 8), lambda c, bs: [(c, VAL(V('Float', _0=('fle', tuple(bs)))))])

    def string(c):
        def mk(c, v):
            ss = segs_of(v)
            if all(s[0] == 'c' for s in ss):
                w = ('vec', tuple(('c', s[1], s[2], V('Char', _0=s[3])) for s in ss))
            else:
                w = ('vec', tuple(('one', V('Char', _0=s[1])) if s[0] == 'one' else ('c', s[1], s[2], V('Char', _0=s[3])) for s in ss))
            return [(c, VAL(V('List', _0=w)))]
        return bind(rd_nat0(c), lambda c, n: bind(rd_blob(c, n), mk))

    def option(c):
        return rd_flag(c, lambda c: bind(rd_nested(c, arg_('Option')), lambda c, x: [(c, VAL(V('Option', _0=Some(x))))]),
                       lambda c: [(c, VAL(V('Option', _0=NONE)))])

    def record(c):
        fs = arg_('Record')
        nm, rl = N.field('RecordField', 'field_name'), N.field('RecordField', 'field_rule')
        el = lambda K, i: ('fld', ('elem', fs, K), None, i)
        return bind(rd_loop_probes(c, ('len', fs), rule=lambda K: el(K, rl), wrap=lambda K, x: ('agg', 'tuple', None, (el(K, nm), x))),
                    lambda c, v: [(c, VAL(V('Record', _0=v)))])

    def tup(c):
        fs = arg_('Tuple')
        return bind(rd_loop_probes(c, ('len', fs), rule=lambda K: ('elem', fs, K)), lambda c, v: [(c, VAL(V('Tuple', _0=v)))])

    def sum_(c):
        ss = arg_('Sum')

        def go(c, bs):
            b = bs[0]
            s = ('elem', ss, b)
            f = lambda n: ('fld', s, None, N.field('Summand', n))
            out = []
            a = c.st.fork()
            if c.E.assume(a, ('cmp', '<', b, ('len', ss)), True):
                out += cases(c.at(st=a), f('index'), [(((0, 255),), lambda c: bind(
                    rd_nested(c, tuple_rule(f('ctor_args'))),
                    lambda c, x: [(c, VAL(V('Sum', name=f('ctor_name'), index=f('index'), value=x)))]))])
            a = c.st.fork()
            if c.E.assume(a, ('cmp', '<', b, ('len', ss)), False):
                out.append((c.at(st=a), ('err', 'no such variant')))
            return out
        return bind(rd_bytes(c, 1), go)

    def poly(c):
        ss = arg_('Polyvar')

        def go(c, bs):
            E, st = c.E, c.st
            tag = E.shr(st, le(c, bs, False), 1)
            lp = [e for e in st.ev if e[0] == 'loop']
            if len(lp) != 1:
                return [(c, ('und', 'search of the variants'))]
            i = lp[0][2]
            s = ('fld', ('fld', ('elem', ss, i), N.variant('Polyvar', 'Tagged'), 0), None, 0)
            tg = ('fld', ('elem', ss, i), N.variant('layout::Polyvar', 'Tagged'), 0)
            # the payload may be wrapped in single field structs
            cand = [tg, ('fld', tg, None, 0)]
            # a variant is passed over only if it has another tag (or none)
            K = ('k', lp[0][1])
            tv = N.variant('layout::Polyvar', 'Tagged')
            elk = ('elem', ss, K)
            tgk = ('fld', elk, tv, 0)
            for conds in lp[0][6]:
                d = dict(conds)
                if ('discr', elk) in d and not any(lo <= tv <= hi for lo, hi in d[('discr', elk)]):
                    continue
                if any(t[0] == 'lin' and any(x == ('fld', b, None, N.field('TaggedPolyvar', 'hash')) for x, _ in t[2] for b in (tgk, ('fld', tgk, None, 0)))
                       and not any(lo <= 0 <= hi for lo, hi in iv) for t, iv in conds):
                    continue
                if any(is_opaque(t) or t[0] in ('pred', 'peq') for t, _ in conds):
                    return [(c, ('und', 'search of the variants'))]
                if not feasible(E, st):
                    return [(c, ('und', 'search of the variants'))]
                raise Bad('a variant with the tag of the input is passed over where %s' % '; '.join(
                    '%s in %s' % (show(t)[:60], iv_str(iv)) for t, iv in conds)[:200], 'search')
            r = E.iv(st, sub(i, ('len', ss)))
            if r and r[0][0] == r[-1][1] == 0:
                return [(c, ('err', 'unknown tag'))]
            for base in cand:
                f = lambda n: ('fld', base, None, N.field('TaggedPolyvar', n))
                d = E.iv(st, sub(f('hash'), tag))
                if d and d[0][0] == d[-1][1] == 0:
                    return bind(rd_nested(c, tuple_rule(f('polyvar_args'))),
                                lambda c, x: [(c, VAL(V('Polyvar', name=f('polyvar_name'), tag=f('hash'), value=x)))])
            return [(c, ('und', 'matching variant'))]
        return bind(rd_bytes(c, 4), go)

    def lst(c):
        return bind(rd_nat0(c), lambda c, n: bind(rd_loop_probes(c, n, rule=lambda K: arg_('List')),
                                                  lambda c, v: [(c, VAL(V('List', _0=v)))]))

    def custom(path, rules):
        def vec(n):
            def go(c):
                el = ('elem', rules, ZERO)
                out = []
                a = c.st.fork()
                if c.E.refine(a, ('len', rules), ((1, INF),)):
                    out += bind(rd_nesteds(c.at(st=a), [el] * n + [('agg', N.adt(RULE), rv('Unit'), ())]),
                                lambda c, xs: [(c, VAL(V('Tuple', _0=('vec', tuple(('one', x) for x in xs)))))])
                a = c.st.fork()
                if c.E.refine(a, ('len', rules), ((0, 0),)):
                    out.append((c.at(st=a), ('err', 'no element rule')))
                return out
            return go

        def field(c):
            ch = ('agg', N.adt(RULE), rv('Char'), ())
            return bind(rd_nesteds(c, [ch] * 32), lambda c, xs: [(c, VAL(V('Tuple', _0=('vec', tuple(('one', x) for x in xs)))))])
        return lambda c: str_cases(c, path, [(s, vec(n)) for s, n in VECTORS.items()] + [(s, field) for s in FIELDS], err('unknown custom type'))

    def custom_rule(c):
        out = []
        a = c.st.fork()
        if c.E.refine(a, ('discr', MODPATH), ((0, 0),)):
            out.append((c.at(st=a), ('err', 'no module path')))
        a = c.st.fork()
        if c.E.refine(a, ('discr', MODPATH), ((1, 1),)):
            out += custom(('fld', MODPATH, 1, 0), arg_('Custom'))(c.at(st=a))
        return out

    table = {'Unit': unit, 'Bool': boolean, 'String': string, 'Char': char, 'Int': integer, 'Int32': integer, 'Int64': integer,
             'NativeInt': integer, 'Float': flt, 'Option': option, 'Record': record, 'Tuple': tup, 'Sum': sum_, 'Polyvar': poly,
             'List': lst, 'Custom': custom_rule,
             'CustomForPath': custom(arg_('CustomForPath', 0), arg_('CustomForPath', 1))}

    def spec(c):
        t = ('discr', rule)
        return cases(c, t, [(((rv(n), rv(n)),), f) for n, f in table.items()])
    return spec


def check_decode(P, R, o, only=None):
    E, st = R.E, o[1]
    rule = ('*', R.args[1][1][1])
    N = Names(P)
    ref = N.variant(RULE, 'Reference')
    if o[0] == 'cut' and o[2] == UNDERFLOW:
        if feasible(E, st):
            raise Bad(UNDERFLOW, 'pending')
        raise Und('not shown reachable: ' + UNDERFLOW)
    pend = [e for e in st.ev if e[0] == 'pending']
    d = E.iv(st, ('discr', rule))
    if o[0] == 'cut' and d == ((ref, ref),):
        # a resolved reference: continues with the referenced rule and its module path, nothing read
        if not pend:
            raise Und('pending rules')
        if any(e[0] in ('R', 'Rall', 'Rerr') for e in st.ev):
            raise Bad('input is read for a reference itself', 'shape')
        segs = segs_of(pend[0][1])
        pl = ('fld', ('fld', rule, ref, 0), N.variant('RuleRef', 'Resolved'), 0)
        if len(segs) != 2 or segs[0] != ('all', BASE) or segs[1][0] != 'one':
            s = st.fork()
            if segs and all(x[0] == 'one' or x == ('all', BASE) for x in segs) and E.refine(s, ('len', BASE), ((1, INF),)) and feasible(E, s):
                raise Bad('the rules pending behind a reference are %s' % show(pend[0][1])[:100], 'pending')
            raise Und('pending rules %s' % show(pend[0][1])[:100])
        if not has(segs[1][1], pl):
            raise Bad('a reference continues with %s' % show(segs[1][1])[:100], 'shape')
        module_path(E, st, pend[0], Some(('fld', pl, None, N.field('ResolvedPayload', 'source_module_path'))))
        return
    if o[0] != 'cut' and d == ((ref, ref),):
        r = E.iv(st, ('discr', ('fld', rule, ref, 0)))
        if r == ((N.variant('RuleRef', 'Unresolved'),) * 2,) and o[0] == 'ret' and result_kind(o[2])[0] == 'err':
            return
        raise Und('reference')
    check_read(E, o, decode_spec(P, rule))
    if o[0] == 'ret' and result_kind(o[2])[0] == 'ok':
        if not pend:
            raise Und('pending rules')
        r = (EQ,) if pend[0][1] == BASE else prove_eq(E, st, pend[0][1], ('vec', (('all', BASE),)))
        if r[0] != EQ:
            segs = segs_of(pend[0][1])
            if segs == () or (segs[0] == ('all', BASE) and len(segs) > 1 and segs[1][0] == 'one'):
                if feasible(E, st):
                    raise Bad('the rules still pending after the value are %s' % show(pend[0][1])[:120], 'pending')
            raise Und('pending rules: %s' % (r[1],))
        module_path(E, st, pend[0], MODPATH)


def module_path(E, st, pend, want):
    """custom rules are looked up by the module path of the reference entered last"""
    i = getattr(E, 'modfield', None)
    if i is None or pend[2][0] != 'agg' or i >= len(pend[2][3]):
        return
    got = pend[2][3][i]
    d = E.iv(st, ('discr', MODPATH))
    if got == want or (want == MODPATH and (got == Some(('fld', MODPATH, 1, 0)) or (got == NONE and d == ((0, 0),)))):
        return
    if is_opaque(got) and got != MODPATH:
        raise Und('module path')
    if got != MODPATH and got != NONE and got[:3] != Some(ZERO)[:3]:
        raise Und('module path')
    if feasible(E, st):
        raise Bad('the module path for custom rules becomes %s instead of %s' % (show(got)[:80], show(want)[:80]), 'path')
    raise Und('module path')


# ---------------------------------------------------------------- writing a loosely typed value
def encode_exp(P, v):
    N = Names(P)
    n = lambda name: N.variant(VAL_, name)

    def f(name, i):
        fs = N.adts[N.adt(VAL_)]['variants'][n(name)]['fields']
        if isinstance(i, str):
            i = [x[0] for x in fs].index(i)
        return ('fld', v, n(name), i)

    def one(items):
        return lambda E, st: [(st, items)]

    def opt(E, st):
        o = f('Option', 0)
        out = []
        for k, items in ((0, [('b', ZERO)]), (1, [('b', ONE), ('probe', ('fld', o, 1, 0))])):
            s = st.fork()
            if E.refine(s, ('discr', o), ((k, k),)):
                out.append((s, items))
        return out

    def poly(E, st):
        t = add(scale(f('Polyvar', 'tag'), 2), ONE)
        return [(st, [('b', E.byte(st, t, i)) for i in range(4)] + [('probe', f('Polyvar', 'value'))])]

    loop = lambda name, el: ('loop', ('len', f(name, 0)), lambda K: [el(('elem', f(name, 0), K))])
    table = {
        'Unit': one([('b', ZERO)]),
        'Nat0': one([('nat0', f('Nat0', 0))]),
        'Bool': one([('b', f('Bool', 0))]),
        'String': one([('nat0', ('len', f('String', 0))), loop('String', lambda x: ('b', x))]),
        'Char': one([('b', f('Char', 0))]),
        'Int': one([('int', f('Int', 0))]),
        'Float': one([('fb', f('Float', 0), 8)]),
        'Option': opt,
        'Record': one([loop('Record', lambda x: ('probe', ('fld', x, None, 1)))]),
        'Tuple': one([loop('Tuple', lambda x: ('probe', x))]),
        'Sum': one([('b', f('Sum', 'index')), ('probe', f('Sum', 'value'))]),
        'Polyvar': poly,
        'List': one([('nat0', ('len', f('List', 0))), loop('List', lambda x: ('probe', x))]),
    }

    def exp(E, st):
        out = []
        for name, g in table.items():
            s = st.fork()
            if E.refine(s, ('discr', v), ((n(name), n(name)),)):
                out += g(E, s)
        return out
    return exp


def check_encode(P, R, o):
    v = ('*', R.args[1][1][1])
    check_write(R.E, o, encode_exp(P, v))


# ---------------------------------------------------------------- layouts in JSON
LAYOUT_TAGS = {
    'BinProtRule': {
        1: {'Nat0': 'Nat0', 'Unit': 'Unit', 'Bool': 'Bool', 'String': 'String', 'Char': 'Char', 'Int': 'Int', 'Int32': 'Int32',
            'Int64': 'Int64', 'Native_int': 'NativeInt', 'Float': 'Float', 'Bigstring': 'Bigstring'},
        2: {'Option': 'Option', 'Record': 'Record', 'Tuple': 'Tuple', 'Sum': 'Sum', 'Polyvar': 'Polyvar', 'List': 'List',
            'Hashtable': 'Hashtable', 'Reference': 'Reference', 'Type_var': 'TypeVar', 'Self_reference': 'SelfReference', 'Custom': 'Custom'},
        3: {'Vec': 'Vec', 'Type_abstraction': 'TypeAbstraction', 'Type_closure': 'TypeClosure'}},
    'Polyvar': {2: {'Tagged': 'Tagged', 'Inherited': 'Inherited'}},
    'RuleRef': {2: {'Unresolved': 'Unresolved', 'Resolved': 'Resolved'}},
}
LAYOUT_FIELDS = {'Layout': ('layout_loc', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule'), 'RecordField': ('field_name', 'field_rule'),
                 'Summand': ('ctor_name', 'index', 'ctor_args'), 'HashTblEntry': ('key_rule', 'value_rule'),
                 'TaggedPolyvar': ('polyvar_name', 'hash', 'polyvar_args'), 'UnresolvedPayload': ('params', 'layout_id'),
                 'ResolvedPayload': ('source_type_decl', 'source_module_path', 'bin_io_derived', 'ref_rule')}


def layout_roots(P, roots, ty):
    return [r['path'] for r in roots if r.get('trait', '') == 'std::convert::TryFrom' and r['path'].endswith('::try_from')
            and ('layout::%s as ' % ty) in r['path']]


def tag_of(E, st, v, arity):
    """the tag string of a list of that many elements, and its payload terms"""
    d = E.iv(st, ('discr', v))
    if not d or d[0][0] != d[-1][1]:
        raise Und('number of elements not decided')
    i = d[0][0]
    if arity is not None and i + 1 != arity:
        raise Und('arity')
    t = ('fld', v, i, 0)
    return i + 1, ('fld', t, None, 0), [('fld', t, None, j + 1) for j in range(i)]


def payload_of(got, errs):
    """the JSON part a payload was decoded from"""
    if got[0] == 'fld' and got[1][0] == 'fld':
        a = got[1]
        if a[1][0] == 'app' and str(a[1][1]).endswith('from_value'):
            return a[1][2][0]
    if got[0] == 'fld' and got[1][0] == 'app' and str(got[1][1]).endswith('from_value'):
        return got[1][2][0]
    return None


def check_layout_tags(P, ty):
    N = Names(P)
    table = LAYOUT_TAGS[ty]

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] == 'panic':
            if feasible(E, st):
                raise Bad('panics at %s' % (o[2][1],), 'panic')
            raise Und('panic')
        if o[0] != 'ret':
            raise Und(str(o[2])[:160])
        rk, pl = result_kind(o[2])
        v = R.args[0]
        try:
            n, tag, parts = tag_of(E, st, v, None)
        except Und:
            d = E.iv(st, ('discr', v))
            if rk == 'err' and d and all(b - a < 10 for a, b in d):
                ns = [x + 1 for a, b in d for x in range(a, b + 1)]
                miss = [t for k in ns for t in table.get(k, ())]
                if not miss:
                    return
                known = [f for f in st.facts if isinstance(f, tuple) and f[0] in ('streq', 'strval')]
                if not known:
                    raise Bad('the tag %s is rejected' % miss[0], 'reject')
            raise
        tab = table.get(n, {})
        s = st.facts.get(('strval', tag))
        fails = [t for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'discr' and t[1][0] == 'app' and str(t[1][1]).endswith('from_value') and f[1] == ((1, 1),)]
        other = [e for e in st.ev if e[0] == 'unknown' and not str(e[1]).endswith('from_value')]
        if other:
            raise Und('unmodelled ' + str(other[0][1]))
        if s is not None:
            s = s[1] if isinstance(s[1], str) else s[1][1]
            want = tab.get(s)
            if rk == 'ok':
                if want is None:
                    raise Bad('the unknown tag %s with %d elements is accepted' % (s, n), 'accept')
                if pl[0] != 'agg':
                    raise Und('result ' + show(pl)[:80])
                if pl[2] != N.variant(ty if ty != 'Polyvar' else 'layout::Polyvar', want):
                    raise Bad('the tag %s is read as %s' % (s, N.adts[N.adt('layout::' + ty if ty == 'Polyvar' else ty)]['variants'][pl[2]]['name']), 'value')
                if fails:
                    raise Bad('%s is accepted although a part of it is not readable' % s, 'accept')
                got = [payload_of(x, None) for x in pl[3]]
                if None in got:
                    raise Und('payload ' + show(pl)[:120])
                if got != parts:
                    raise Bad('the payload of %s is read from %s' % (s, ', '.join(show(x) for x in got)), 'value')
                return
            if rk == 'err':
                if want is not None and not fails:
                    raise Bad('the tag %s is rejected' % s, 'reject')
                return
            raise Und('result')
        no = {f[2][1] for f, x in st.facts.items() if isinstance(f, tuple) and f[0] == 'streq' and f[1] == tag and x[1] in (((0, 0),), 0, False) and f[2][0] == 's'}
        if rk == 'ok':
            raise Bad('any tag with %d elements is accepted' % n, 'accept')
        if rk == 'err' and not fails:
            miss = sorted(set(tab) - no)
            if miss:
                if any(isinstance(f, tuple) and is_opaque(f) for f in st.facts):
                    raise Und('tag test')
                raise Bad('the tag %s with %d elements is rejected' % (miss[0], n), 'reject')
            return
        if rk == 'err':
            return
        raise Und('result')
    return rule


def check_layout_keys(P, ty):
    """every key of the JSON format is recognised and fills the field of that name"""
    N = Names(P)
    keys = LAYOUT_FIELDS[ty]
    names = [f[0] for f in N.adts[N.adt('layout::' + ty)]['variants'][0]['fields']]

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] != 'ret':
            raise Und(str(o[2])[:160])
        rk, pl = result_kind(o[2])
        s = [f[1] if isinstance(f[1], str) else f[1][1] for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'strval']
        if rk != 'ok' or pl[0] != 'agg':
            raise Und('result')
        if len(s) == 1:
            if s[0] in keys:
                if pl[2] >= len(names):
                    raise Bad('the key %s of a layout is ignored' % s[0], 'reject')
                if names[pl[2]] != s[0] and names[pl[2]] in keys:
                    raise Bad('the key %s of a layout fills %s' % (s[0], names[pl[2]]), 'value')
            elif pl[2] < len(names):
                raise Bad('the key %s of a layout is read as %s' % (s[0], names[pl[2]]), 'accept')
            return
        if not s:
            no = {f[2][1] for f in st.facts if isinstance(f, tuple) and f[0] == 'streq' and f[2][0] == 's'}
            miss = [x for x in keys if x not in no]
            if miss:
                raise Bad('the key %s of a layout is not recognised' % miss[0], 'reject')
            return
        raise Und('key')
    return rule


LAYOUT_OPTIONAL = {('Layout', 'version_opt'), ('ResolvedPayload', 'source_module_path'), ('ResolvedPayload', 'bin_io_derived')}


def hook_part(E, st, f, args, sp):
    """the value under a key of a JSON object: of the type asked for or not"""
    k = args[0]
    while k[0] in ('*', 'utf8'):
        k = k[1]
    from models import const_str
    k = const_str(k) or (k[1] if k[0] == 's' else None)
    if k is None:
        raise Unk('key of a part')
    a, b = st.fork(), st.fork()
    b.emit(('failed', k))
    return [('ret', a, Ok(('part', k))), ('ret', b, Err(('sym', 'failure', b.fresh(), b.ctx)))]


HOOKS_PARTS = ((lambda p: p.split('::<')[0].endswith('witness::layout::value') or p.split('::<')[0] == 'layout::value', hook_part),)


def check_layout_object(P, ty, keys):
    """a JSON object with these keys: every part comes from the key of its name, a missing one is an error"""
    N = Names(P)
    names = [f[0] for f in N.adts[N.adt('layout::' + ty)]['variants'][0]['fields']]
    all_ = LAYOUT_FIELDS[ty]

    def place(k):
        if k in names:
            return names.index(k)
        lost = [x for x in all_ if x not in names]
        new = [x for x in names if x not in all_]
        if len(lost) == len(new) == 1:
            return names.index(new[0])
        raise Und('the part ' + k)

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] == 'panic':
            if feasible(E, st):
                raise Bad('panics at %s' % (o[2][1],), 'panic')
            raise Und('panic')
        if o[0] != 'ret':
            raise Und(str(o[2])[:160])
        if any(e[0] == 'unknown' for e in st.ev):
            raise Und('unmodelled call')
        rk, pl = result_kind(o[2])
        failed = any(e[0] == 'failed' for e in st.ev)
        missing = [k for k in all_ if k not in keys and (ty, k) not in LAYOUT_OPTIONAL]
        if rk == 'err':
            if not failed and not missing:
                raise Bad('a %s with the parts %s is rejected' % (ty, ', '.join(keys)), 'reject')
            return
        if rk != 'ok':
            raise Und('result')
        if missing:
            raise Bad('a %s without %s is accepted' % (ty, missing[0]), 'accept')
        if [e for e in st.ev if e[0] == 'failed' and e[1] in all_]:
            raise Bad('a %s whose %s is not of its type is accepted' % (ty, st.ev[-1][1]), 'accept')
        if pl[0] != 'agg':
            raise Und('result ' + show(pl)[:80])
        for k in all_:
            x = pl[3][place(k)]
            if k in keys:
                if x == ('part', k):
                    continue
                if x[0] == 'part':
                    raise Bad('%s is taken from %s' % (k, x[1]), 'value')
                if not has(x, ('part', k)):
                    raise Bad('%s is not the part of that name but %s' % (k, show(x)[:60]), 'value')
                raise Und('the part %s: %s' % (k, show(x)[:80]))
            if x[0] == 'part':
                raise Bad('%s is taken from %s' % (k, x[1]), 'value')
    return rule


# ---------------------------------------------------------------- access to the parts of a loosely typed value
WEAKER = ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case')


TESTS = {'starts_with': lambda a, b: a.startswith(b), 'ends_with': lambda a, b: a.endswith(b), 'contains': lambda a, b: b in a,
         'eq_ignore_ascii_case': lambda a, b: a.lower() == b.lower()}


class NoValue(Exception):
    pass


def concrete(t, env):
    """value of a term over two texts"""
    from models import STR_FOLD, const_str
    if t in env:
        return env[t]
    if t[0] in ('utf8', 'bytes', '*'):
        return concrete(t[1], env)
    if t[0] == 'i':
        return t[1]
    c = const_str(t)
    if c is not None:
        return c
    if t[0] == 'strfn' and STR_FOLD.get(t[1]):
        xs = [concrete(x, env) for x in t[2:]]
        return STR_FOLD[t[1]](*[chr(x) if isinstance(x, int) else x for x in xs])
    if t[0] == 'slice' and len(t) == 4:
        a, lo, hi = concrete(t[1], env), concrete(t[2], env), concrete(t[3], env)
        return a[lo:hi]
    if t[0] == 'len':
        return len(concrete(t[1], env))
    if t[0] == 'streq':
        return int(concrete(t[1], env) == concrete(t[2], env))
    if t[0] == 'peq':
        return int(concrete(t[1], env) == concrete(t[2], env))
    if t[0] == 'pred' and t[1] in TESTS and len(t) == 4:
        a, b = concrete(t[2], env), concrete(t[3], env)
        return int(TESTS[t[1]](a, chr(b) if isinstance(b, int) else b))
    if t[0] == 'lin':
        return t[1] + sum(k * concrete(x, env) for x, k in t[2])
    if t[0] == 'cmp' and len(t) == 4:
        a, b = concrete(t[2], env), concrete(t[3], env)
        return int({'<=': a <= b, '<': a < b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[t[1]])
    raise NoValue(show(t)[:80])


def witness_names(facts, key, nm, equal):
    """texts of the key and of a name, equal or different, that pass all the tests made on them; None if there are none or it is not known"""
    consts = set()

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 's' and isinstance(t[1], str):
                consts.add(t[1])
            for x in t:
                go(x)
    mine = [(t, iv) for t, iv in facts if has(t, key) or has(t, nm)]
    for t, _ in mine:
        go(t)
    base = ['ab', 'a', 'aB', 'abc', 'b', '', 'ab ', ' ab', 'Ab', 'ac', 'ab.c', 'a_b', '_ab', 'ab_', 'cab', 'abcdefghijklmnop', '0', 'AB', 'a.b', 'c.ab']
    for c in sorted(consts):
        base += [c + 'ab', 'ab' + c, c, c + 'ab' + c, 'a' + c + 'b']
    try:
        for a in base:
            for b in base:
                if (a == b) == equal:
                    env = {key: a, nm: b}
                    if all(any(lo <= concrete(t, env) <= hi for lo, hi in iv) for t, iv in mine):
                        return a, b
    except (NoValue, TypeError, IndexError):
        return None
    return None


def refuted(E, st, t, iv, key, nm):
    """the condition cannot hold if both texts are the same"""
    if not (has(t, nm) and has(t, key)):
        return False
    x = subst(t, {nm: key})
    if x[0] in ('streq', 'peq') and x[1] == x[2] or x[0] == 'pred' and x[1] in WEAKER and x[2] == x[3]:
        x = ONE
    x = E.norm_deep(st, x)
    return x[0] == 'i' and not any(lo <= x[1] <= hi for lo, hi in iv)


def check_index(P, by, panics):
    """by: 'int' or 'key'; panics: the indexing operator, which panics where the lookup finds nothing"""
    N = Names(P)
    n = lambda name: N.variant(VAL_, name)
    sum_val = [f[0] for f in N.adts[N.adt(VAL_)]['variants'][n('Sum')]['fields']].index('value')
    cont = ('List', 'Tuple') if by == 'int' else ('Record',)

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] in ('unk', 'cut'):
            raise Und(str(o[2])[:160])
        if any(e[0] == 'unknown' for e in st.ev):
            raise Und('unmodelled call')
        v = ('*', R.args[0][1][1])

        def kind(x):
            d = E.iv(st, ('discr', x))
            return d
        # the containers this class can be about
        def one(x):
            d = kind(x)
            return d[0][0] if d and d[0][0] == d[-1][1] else None
        base = None
        k = one(v)
        may = False
        if k in [n(c) for c in cont]:
            base = ('fld', v, k, 0)
        elif k == n('Sum'):
            x = ('fld', v, k, sum_val)
            k2 = one(x)
            if k2 in [n(c) for c in cont]:
                base = ('fld', x, k2, 0)
            elif k2 is None:
                may = any(iv_meet(kind(x) or FULL, ((n(c), n(c)),)) for c in cont)
        elif k is None:
            may = any(iv_meet(kind(v) or FULL, ((n(c), n(c)),)) for c in cont + ('Sum',))
        if o[0] == 'panic':
            if not panics:
                raise_if(E, st, Bad('a lookup panics at %s' % (o[2][1],), 'panic'))
            found = None
        else:
            if panics:
                found = o[2]
            else:
                if o[2][0] != 'agg':
                    raise Und('result ' + show(o[2])[:100])
                found = o[2][3][0] if o[2][2] == 1 else None
        if found is not None:
            if found[0] == 'ref':
                found = E.read(st, (found[1], found[2]))
            if base is None:
                if may:
                    raise Und('kind of value not decided')
                raise_if(E, st, Bad('a part is found in a value without such parts: %s' % show(found)[:100], 'value'))
            if by == 'int':
                i = arg_named(R, 'i')
                r = prove_eq(E, st, found, ('elem', base, i))
                if r[0] == EQ:
                    d = E.iv(st, sub(('len', base), i))
                    if d and d[0][0] >= 1:
                        return
                    raise Und('index not shown in range')
                if found[0] == 'elem' and found[1] == base:
                    r2 = prove_eq(E, st, found[2], i)
                    if r2[0] == NE:
                        raise_if(E, st, Bad('element %s is returned for index %s' % (show(found[2])[:80], show(i)), 'value'))
                if found[0] == 'elem' and found[1] != base and found[1][0] == 'fld':
                    raise_if(E, st, Bad('%s is returned' % show(found)[:100], 'value'))
                raise Und('part ' + show(found)[:100])
            key = ('*', R.args[1][1][1])
            if found[0] == 'fld' and found[1][0] == 'elem' and found[1][1] == base:
                el = found[1]
                if found[3] != 1:
                    raise_if(E, st, Bad('the wrong half of an entry is returned', 'value'))
                nm = ('fld', el, None, 0)
                for t, f in st.facts.items():
                    if isinstance(t, tuple) and t[0] == 'streq' and set(t[1:3]) == {key, nm} and f[1] == ((1, 1),):
                        return
                pr = [(t, f[1]) for t, f in st.facts.items() if isinstance(t, tuple) and t[0] in ('pred', 'peq', 'streq') and f[1] != ((0, 0),)]
                # a test that names other than the key pass as well
                weak = [t for t, f in pr if t[0] == 'pred' and t[1] in WEAKER and {t[2], t[3]} == {key, nm}]
                if len(pr) == 1 and len(weak) == 1 and not any(has(t, ('len', nm)) or has(t, ('len', key)) for t in st.facts if isinstance(t, tuple)):
                    raise_if(E, st, Bad('an entry is returned whose name only passes "%s" with the key' % weak[0][1], 'value'))
                fs = [(t, f[1]) for t, f in st.facts.items() if isinstance(t, tuple) and f[0] == 'iv']
                if not any(is_opaque(t) for t, _ in fs if not (has(t, key) or has(t, nm))):
                    w = witness_names(fs, key, nm, False)
                    if w:
                        raise Bad('the entry named %r is returned for the key %r' % (w[1], w[0]), 'value')
                if any(is_opaque(t) or t[0] in ('pred', 'peq', 'streq') for t in st.facts if isinstance(t, tuple)):
                    raise Und('key test')
                raise_if(E, st, Bad('an entry is returned without its name being the key', 'value'))
            raise Und('part ' + show(found)[:100])
        # nothing found
        if base is None:
            if may:
                raise_if(E, st, Bad('nothing is found in a value that can have such parts', 'reject'))
            return
        if by == 'int':
            d = E.iv(st, sub(('len', base), arg_named(R, 'i')))
            if d and d[-1][1] <= 0:
                return
            raise_if(E, st, Bad('an index in range is not found', 'reject'))
        lps = [e for e in st.ev if e[0] == 'loop']
        ln = E.iv(st, ('len', base))
        if not lps and ln:
            key = ('*', R.args[1][1][1])
            cnt = 0
            while any(isinstance(t, tuple) and t[0] in ('streq', 'pred') and {key, ('fld', ('elem', base, I(cnt)), None, 0)} <= set(t[1:]) and f[1] == ((0, 0),)
                      for t, f in st.facts.items()):
                cnt += 1
            if ln[-1][1] <= cnt:
                return
            if any(is_opaque(t) or t[0] in ('pred', 'peq') for t in st.facts if isinstance(t, tuple)):
                raise Und('key test')
            raise_if(E, st, Bad('not every entry is examined: %d of %s' % (cnt, iv_str(ln)), 'reject'))
        if len(lps) == 1:
            r = prove_eq(E, st, lps[0][2], ('len', base))
            if r[0] == EQ:
                nm = ('fld', ('elem', base, ('k', lps[0][1])), None, 0)
                key = ('*', R.args[1][1][1])
                for conds in lps[0][6]:
                    if any(t[0] == 'streq' and set(t[1:3]) == {key, nm} and f == ((0, 0),) for t, f in conds):
                        continue
                    if any(t[0] == 'pred' and t[1] in WEAKER and {t[2], t[3]} == {key, nm} and f == ((0, 0),) for t, f in conds):
                        continue
                    if any(refuted(E, st, t, f, key, nm) for t, f in conds):
                        continue
                    if any(t[0] == 'streq' and set(t[1:3]) == {key, nm} and f == ((1, 1),) for t, f in conds) and not any(is_opaque(t) for t, f in conds):
                        raise_if(E, st, Bad('an entry with the requested name is passed over', 'search'))
                    w = witness_names(conds, key, nm, True)
                    if w and not any(is_opaque(t) for t, _ in conds if not (has(t, key) or has(t, nm))):
                        raise_if(E, st, Bad('an entry with the requested name %r is passed over' % w[0], 'search'))
                    if any(is_opaque(t) or t[0] in ('pred', 'peq', 'streq') for t, f in conds):
                        raise Und('key test')
                    raise_if(E, st, Bad('an entry is passed over without its name being compared', 'search'))
                return
            if r[0] == NE:
                raise_if(E, st, Bad('not every entry is examined: %s' % r[1], 'reject'))
            raise Und(str(r[1]))
        raise Und('search')
    return rule


def arg_named(R, name):
    for nm, pl in R.body.get('names', []):
        if nm == name and len(pl) == 1 and 1 <= pl[0] <= R.body['argc']:
            return R.args[pl[0] - 1]
    raise Und('no argument ' + name)


def raise_if(E, st, bad):
    if feasible(E, st):
        raise bad
    raise Und('not shown reachable: %s' % bad)


def check_inner(P):
    N = Names(P)

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] in ('unk', 'cut'):
            raise Und(str(o[2])[:160])
        v = ('*', R.args[0][1][1])
        k = N.variant(VAL_, 'Option')
        d = E.iv(st, ('discr', v))
        if not iv_meet(d, ((k, k),)):
            return      # not an option: documented to panic
        if o[0] == 'panic':
            raise_if(E, st, Bad('panics on an option', 'panic'))
        if d != ((k, k),):
            raise Und('kind')
        x = ('fld', v, k, 0)
        p = E.iv(st, ('discr', x))
        if p == ((0, 0),):
            r = prove_eq(E, st, o[2], NONE)
        elif p == ((1, 1),):
            r = prove_eq(E, st, o[2], Some(('fld', x, 1, 0)))
        else:
            r = (EQ, None) if o[2] == x else (UNDET, 'presence')
        if r[0] == NE:
            raise_if(E, st, Bad('content of an option: %s' % r[1], 'value'))
        if r[0] == UNDET:
            raise Und(str(r[1]))
    return rule
