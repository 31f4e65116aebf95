"""The properties: entry points, rules, obligations."""
from engine import *
from run import Missing
from spec import *
from terms import *
import os
import cli
import convspec
import loosespec
from layouttable import TABLE as LAYOUT_OBJECTS
from typedspec import HASH, READ, WRITE, RNG, arg, fld, ocaml_hash, V

ASSUMPTIONS = [
    'rustc lowers the source to the MIR that is analysed; dependencies and the standard library behave as modelled in analysis/models.py',
    'an obligation is reported as violated only when an assignment of the inputs satisfies every fact recorded on the path; undetermined obligations are counted, not reported',
    '64 bit target, overflow checks on (the dev profile)',
]

CODEC_R = sorted(k for k in READ if k.startswith('codec::'))
CODEC_W = sorted(k for k in WRITE if k.startswith('codec::'))
TYPED_R = sorted(k for k in READ if k.startswith('typed::'))
TYPED_W = sorted(k for k in WRITE if k.startswith('typed::'))
OTHER_R = ['typed::de_' + x for x in ('strict', 'any', 'bytes', 'byte_buf', 'ident', 'ignored', 'str', 'map', 'i128', 'u128')]
WITH_R = ['typed::with_int_i32', 'typed::with_int_i64', 'typed::with_int_u64', 'typed::with_nat_u8', 'typed::with_nat_u32', 'typed::with_nat_u64']
ALL = {'value', 'shape', 'accept', 'reject', 'panic', 'noenc', 'refuse', 'count'}


def writes(ctx, rep, roots, kinds=None):
    for r in roots:
        R = ctx.run('witness', r)
        exp = WRITE[r](R)
        for o in R.outs:
            rep.outcome(R, o, lambda R, o: check_write(R.E, o, exp), kinds)


def reads(ctx, rep, roots, kinds=None):
    for r in roots:
        R = ctx.run('witness', r)
        for o in R.outs:
            rep.outcome(R, o, lambda R, o: check_read(R.E, o, READ[r]), kinds)


def scan(ctx, rep, roots, rule, crate='witness'):
    for r in roots:
        R = ctx.run(crate, r)
        for o in R.outs:
            rep.outcome(R, o, rule)


def loose(ctx, rep, root, rule):
    """a root over loosely typed values; nested values by the induction hypothesis"""
    R = ctx.run('witness', 'loose::' + root, 'hooks', hooks=loosespec.HOOKS)
    for o in R.outs:
        if o[0] == 'cut' and root == 'decode' and rule is not None and getattr(rule, 'levels', False):
            continue   # a reference: goes on with the rule it resolves to (checked by C11)
        rep.outcome(R, o, rule)


def again(ctx, rep, kinds):
    R = ctx.run('witness', 'loose::decode_more', 'again', hooks=loosespec.HOOKS_AGAIN)
    for o in R.outs:
        rep.outcome(R, o, loosespec.exhausted, kinds)


def level(rule):
    f = lambda R, o: rule(R, o)
    f.levels = True
    return f


def pick(names, *pats):
    return [n for n in names if any(p in n for p in pats)]


# ---------------------------------------------------------------- rules on single outcomes
def no_panic(R, o):
    if o[0] in ('unk', 'cut'):
        raise Und(str(o[2])[:200])
    if o[0] == 'panic':
        if feasible(R.E, o[1]):
            raise Bad('panics (%s) at %s' % (o[2][0], o[2][1]), 'panic')
        raise Und('panic at %s not shown reachable' % (o[2][1],))


def from_input(t):
    if isinstance(t, tuple) and t and t[0] == 'len' and not is_opaque(t):
        return False    # the length of something that exists already, though input may have selected it
    return isinstance(t, tuple) and bool(t) and (t[0] == 'rb' or any(from_input(x) for x in t))


LIMIT = 1 << 20


def bounded_memory(R, o):
    """an allocation sized by bytes of the input before that much input was read"""
    E, st = R.E, o[1]
    if o[0] in ('unk', 'cut'):
        und = str(o[2])[:200]
    else:
        und = None
    read = []
    found = []

    def go(evs, ctxs):
        for e in evs:
            if e[0] == 'Rall':
                read.append(e[2][1])
            elif e[0] == 'R':
                for s in e[2]:
                    if s[0] == 'c':
                        read.append(s[1])
            elif e[0] == 'loop':
                consumes = all(any(x[0] in ('R', 'Rall', 'loop') for x in a) for a in e[3]) and e[3]
                if consumes:
                    for a in e[3]:
                        go(a, ctxs + 1)
                    read.append(e[2])
                    continue
                if len(e) > 5 and e[5] and from_input(e[2]):
                    size(e[2], 'a collection grown', '', '')
                for a in e[3]:
                    go(a, ctxs + 1)
            elif e[0] == 'alloc':
                if from_input(e[1]):
                    size(e[1], 'an allocation', '%s in %s' % (e[3], e[4]), e[5] if len(e) > 5 else '')

    def size(n, what, where, elem):
        nonlocal und
        for m in read:
            r = E.iv(st, sub(n, m))
            if r and r[-1][1] <= 0:
                return
        s = st.fork()
        if not E.refine(s, n, ((LIMIT + 1, INF),)):
            return
        if not feasible(E, s):
            und = 'size %s not shown reachable' % show(n)[:100]
            return
        found.append(('%s of %s elements%s, announced by the input before they are read, %s' % (
            what, show(n)[:120], ' of type ' + elem if elem else '', where), elem))
    go(st.ev, 0)
    if found:
        # collections of different element types are different allocations
        n = len({e for _, e in found if e})
        raise Bad('; '.join(m for m, _ in found), 'alloc' if n <= 1 else 'alloc%d' % n)
    if und:
        raise Und(und)


def errors_propagate(kind):
    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] in ('unk', 'cut'):
            raise Und(str(o[2])[:200])
        items = []

        def go(evs):
            for e in evs:
                if e[0] == 'loop':
                    for a in e[3]:
                        n = len(items)
                        go(a)
                        if any(x[0].endswith('err') for x in items[n:]):
                            # the loop goes on after a failure
                            if feasible(E, st):
                                raise Bad('continues after a failed %s' % kind, 'after')
                            raise Und('loop continues after a failure')
                elif e[0] in ('R', 'Rall', 'Rpart', 'W', 'Wpart', 'Rerr', 'Werr', 'flush') and (len(e) < 2 or e[1] not in ('mem', 'take')):
                    items.append(e)
        go(st.ev)
        bad = None
        for i, e in enumerate(items):
            if e[0] in ('Rerr', 'Werr'):
                later = [x for x in items[i + 1:] if x[0][0] == e[0][0]]
                if later:
                    bad = Bad('goes on after a failed %s' % kind, 'after')
                elif o[0] == 'ret':
                    rk, pl = result_kind(o[2])
                    if rk == 'ok':
                        bad = Bad('a failed %s is reported as success' % kind, 'swallow')
                    elif rk == 'err':
                        er = e[2]
                        if not contains(pl, lambda t: t == er or (er == 'probe' and t[:2] == ('sym', 'probe-err'))):
                            if is_opaque(pl) and any(x[0] == 'unknown' for x in st.ev):
                                raise Und('error value')
                            bad = Bad('the error of a failed %s is replaced by %s' % (kind, show(pl)[:80]), 'lost')
                    else:
                        raise Und('result')
                elif o[0] == 'panic':
                    bad = Bad('panics on a failed %s' % kind, 'panic')
            elif e[0] in ('Wpart', 'Rpart') and o[0] == 'ret' and result_kind(o[2])[0] == 'ok':
                k, n = (e[4], e[5]) if e[0] == 'Wpart' and len(e) > 5 else (e[4], e[2]) if e[0] == 'Rpart' and len(e) > 4 else (None, None)
                if k is None:
                    raise Und('partial transfer')
                s = st.fork()
                if E.refine(s, sub(n, k), ((1, INF),)) and E.refine(s, k, ((1, INF),)) and feasible(E, s):
                    others = [x for x in items if x is not e and x[0] in ('Wpart', 'Rpart')]
                    if others or any(has_term(f, k) for f in st.facts if f != k and isinstance(f, tuple) and f != sub(k, n) and f != sub(n, k)):
                        raise Und('partial transfer')
                    bad = Bad('a short %s is taken for a complete one' % kind, 'partial')
            elif e[0] == 'unknown':
                raise Und('unmodelled ' + str(e[1]))
        if bad:
            if feasible(E, st):
                raise bad
            raise Und('not shown reachable: %s' % bad)
    return rule


def early_end(spec):
    """success although the input ended inside the value"""
    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] != 'ret' or result_kind(o[2])[0] != 'ok':
            return
        short = [e for e in st.ev if e[0] == 'Rall' and len(e) > 3 and e[3] is not None]
        if not short:
            return
        try:
            check_read(E, o, spec)
        except Bad as b:
            for e in short:
                s = (b.st or st).fork()
                if E.refine(s, sub(e[3], e[2][1]), ((1, INF),)) and feasible(E, s):
                    raise Bad('the input ends before the announced %s bytes, but the result is a success' % show(e[3])[:80], 'short')
    return rule


def has_term(t, x):
    return isinstance(t, tuple) and (t == x or any(has_term(y, x) for y in t))


def contains(t, p):
    return isinstance(t, tuple) and bool(t) and (p(t) or any(contains(x, p) for x in t))


def count_returned(R, o):
    """the number of bytes a writer reports is the number it wrote"""
    E, st = R.E, o[1]
    if o[0] != 'ret':
        raise Und(str(o[2])[:100])
    rk, pl = result_kind(o[2])
    if rk != 'ok':
        return
    items = stream(st.ev, ('W',))
    n = ZERO
    for it in items:
        if it[0] == 'b':
            n = add(n, ONE)
        elif it[0] == 'all':
            n = add(n, seq_len(it[1]))
        else:
            raise Und('output ' + it[0])
    r = prove_eq(E, st, pl, n)
    if r[0] == NE:
        raise Bad('the number of bytes reported is %s' % r[1], 'count')
    if r[0] == UNDET:
        raise Und(str(r[1]))


def strict(R, o):
    E, st = R.E, o[1]
    if o[0] != 'ret':
        return no_panic(R, o)
    rk, pl = result_kind(o[2])
    evs = st.ev
    if any(e[0] == 'unknown' for e in evs):
        raise Und('unmodelled call')
    pos = [i for i, e in enumerate(evs) if e[0] == 'R' and any(s[0] == 'probe' for s in e[2])]
    if any(e[0] == 'Rerr' for e in evs) and rk != 'ok':
        return
    if len(pos) != 1:
        if rk == 'ok' and not pos and feasible(E, st):
            raise Bad('returns a value without decoding it', 'shape')
        raise Und('nested values')
    after = evs[pos[0] + 1:]
    ends, weak = [], False
    for e in after:
        if e[0] == 'peek':
            ends.append(('len', e[2]))
        elif e[0] == 'buffered':
            weak = True
        elif e[0] == 'Rall':
            ends.append(e[2][1])
        elif e[0] == 'Rpart' and len(e) > 4:
            ends.append(e[4])
        elif e[0] == 'loop':
            raise Und('loop after the value')
    if rk == 'ok':
        for t in ends:
            r = E.iv(st, t)
            if r and r[-1][1] == 0:
                want = [s[1] for s in evs[pos[0]][2] if s[0] == 'probe'][0]
                d = prove_eq(E, st, pl, want)
                if d[0] == EQ:
                    return
                if d[0] == NE:
                    raise Bad('a different value is returned', 'value')
                raise Und(d[1])
        if feasible(E, st):
            raise Bad('success without establishing that the input is exhausted' +
                      (' (only the bytes already buffered are examined)' if weak else '') +
                      (' (the read that looks for more has failed)' if any(e[0] == 'Rerr' for e in after) else ''), 'trailing')
        raise Und('not shown reachable')
    if rk == 'err':
        s = st.fork()
        ok = all(E.refine(s, t, ((0, 0),)) for t in ends)
        if ok and ends and not contradictory(E, s):
            if feasible(E, s):
                raise Bad('exhausted input is reported as trailing data', 'reject')
            raise Und('not shown reachable')
        if not ends:
            if feasible(E, st) and not weak:
                raise Bad('a complete value is rejected without looking for further input', 'reject')
            raise Und('')
        return
    raise Und('result')


NAMES = [b'', b'A', b'Bc', b'One', b'Two', b'Zz_9', 'caf\u00e9'.encode(), '\u00e9'.encode(), b'Three', b'Full_name', b'A_rather_long_variant_name_42',
         'na\u00efve'.encode(), b'Proof', b'Signature', b'None_given', b'aaaaaaaaaaaaaaaa', b'Zzzzzzzz']


def on_name(E, o, label, lps, name):
    """value of a path class on one name: None when the name is not in the class; True for a confirmed panic"""
    st = o[1]
    phis = {}
    for lp in lps:
        for init, phi, backs in lp[4]:
            phis[phi[:-1]] = (init, phi, backs, ('k', lp[1]))
    busy = {}

    def pick(K):
        def pk(t):
            if t == ('len', label) or t == ('len', ('bytes', label)):
                return len(name)
            if t[0] == 'elem' and t[1] in (('bytes', label), label):
                i = ev(t[2], {**K}, pk)
                if not 0 <= i < len(name):
                    raise CantEval
                return name[i]
            if t == ('len', ('chars', label)):
                return len(name.decode())
            if t[0] == 'elem' and t[1] == ('chars', label):
                i = ev(t[2], {**K}, pk)
                if not 0 <= i < len(name.decode()):
                    raise CantEval
                return ord(name.decode()[i])
            if t[0] == 'phi' and t[:-1] in phis:
                init, phi, backs, k = phis[t[:-1]]
                if len(backs) != 1:
                    raise CantEval
                n = ev(t[-1][1], {**K}, pk)
                if n > len(name) + 1:
                    raise CantEval
                key = t[:-1]
                seq = busy.setdefault(key, [ev(init, {}, pk)])
                while len(seq) <= n:
                    m = len(seq) - 1
                    seq.append(ev(backs[0], {k: I(m)[1]}, pick({k: m})))
                return seq[n]
            raise CantEval
        return pk
    facts = [(t, f[1]) for t, f in st.facts.items() if f[0] == 'iv' and isinstance(t, tuple)]
    ks = {('k', lp[1]) for lp in lps}
    used = [k for k in ks if any(has_term(t, k) for t, _ in facts) or has_term(o[2], k)]
    if len(used) > 1:
        raise CantEval
    for m in range(len(name) + 1) if used else [0]:
        env = {used[0]: m} if used else {}
        if all(any(lo <= ev(t, dict(env), pick(env)) <= hi for lo, hi in iv) for t, iv in facts):
            if o[0] == 'panic':
                return True
            return ev(o[2], dict(env), pick(env))
    return None


def variant_hash(R, o):
    """h = 0; for each byte b of the name: h = 223 h + b   (modulo 2^31, all that reaches the wire)"""
    E, st = R.E, o[1]
    if o[0] not in ('ret', 'panic'):
        raise Und(str(o[2])[:200])
    if any(e[0] == 'unknown' for e in st.ev):
        raise Und('unmodelled call')
    label = arg(R, 'label')
    lps = [e for e in st.ev if e[0] == 'loop']
    for name in NAMES:
        try:
            v = on_name(E, o, label, lps, name)
        except CantEval:
            continue
        if v is None:
            continue
        shown = repr(name.decode())
        if o[0] == 'panic':
            k = 'overflow' if 'overflow' in str(o[2][0]) else 'panic'
            raise Bad('panics (%s) at %s for the name %s' % (o[2][0], o[2][1], shown), k)
        h = 0
        for b in name:
            h = (223 * h + b) & 0x7fffffff
        if v & 0x7fffffff != h:
            raise Bad('the hash of %s is %d instead of %d' % (shown, v, h), 'value')
    if o[0] == 'panic':
        raise Und('panic at %s not shown reachable' % (o[2][1],))
    if not lps:
        n = E.iv(st, ('len', label))
        if n and n[0][0] == n[-1][1] and n[0][0] < 64:
            n = n[0][0]
            want = ZERO
            for i in range(n):
                want = add(scale(want, 223), ('elem', ('bytes', label), I(i)))
            r = prove_eq(E, st, trunc_raw(o[2], 31, False), trunc_raw(want, 31, False))
            if r[0] == EQ:
                return
        raise Und('hash without loop')
    if len(lps) != 1:
        raise Und('loops')
    lp = lps[0]
    v = strip_trunc(o[2])
    r = prove_eq(E, st, lp[2], ('len', label))
    if r[0] != EQ:
        raise Und('number of bytes hashed: %s' % r[1])
    for init, phi, backs in lp[4]:
        K = ('k', lp[1])
        if subst(phi, {K: lp[2]}) != v and phi != v:
            continue
        if trunc_raw(init, 31, False) != ZERO:
            raise Und('initial value')
        want = add(scale(phi, 223), ('elem', ('bytes', label), K))
        for b in backs:
            if prove_eq(E, st, trunc_raw(b, 31, False), trunc_raw(want, 31, False))[0] != EQ and trunc_raw(sub(b, want), 31, False) != ZERO:
                raise Und('step ' + show(b)[:160])
        return
    raise Und('result ' + show(o[2])[:120])


def strip_trunc(v):
    while v[0] == 'trunc' and v[2] >= 31:
        v = v[1]
    return v


# ---------------------------------------------------------------- properties
PROPS = {}


def prop(pid, rule, node=False):
    def deco(f):
        PROPS[pid] = {'check': f, 'rule': rule, 'node': node}
        return f
    return deco


@prop('C01', 'every path class of the signed integer writers emits the canonical prefix and little endian two\'s complement bytes; every path class of the readers returns the value those bytes denote or rejects an out of range one')
def c01(ctx, rep):
    writes(ctx, rep, pick(CODEC_W, 'w_int_') + [r for r in TYPED_W if r[len('typed::ser_'):] in RNG], ALL)
    reads(ctx, rep, pick(CODEC_R, 'r_int_') + [r for r in TYPED_R if r[len('typed::de_'):] in RNG], ALL)


@prop('C02', 'every path class of the natural number writers emits the canonical prefix and unsigned little endian bytes, lengths included; readers invert them and reject out of range values')
def c02(ctx, rep):
    writes(ctx, rep, pick(CODEC_W, 'w_nat_') + ['typed::ser_vec', 'typed::ser_string', 'typed::ser_with_nat'], ALL)
    reads(ctx, rep, pick(CODEC_R, 'r_nat_') + ['codec::r_string', 'codec::r_bytes', 'typed::de_vec', 'typed::de_string'], ALL)


@prop('C03', 'no path class of a reader that returns success covers input outside the grammar of its type (prefix, flag and unit bytes, ranges, UTF-8, variant index, tag)')
def c03(ctx, rep):
    reads(ctx, rep, CODEC_R + TYPED_R, {'accept'})


@prop('C04', 'no path class of a decoder ends in a panic for any input bytes, any failing source or any layout')
def c04(ctx, rep):
    scan(ctx, rep, CODEC_R + TYPED_R + OTHER_R + WITH_R, no_panic)
    loose(ctx, rep, 'decode', level(no_panic))
    loose(ctx, rep, 'decode_bare', no_panic)
    again(ctx, rep, {'panic'})


@prop('C05', 'no allocation on a decoding path is sized by bytes of the input (beyond 2^20 elements) before that much input has been read')
def c05(ctx, rep):
    scan(ctx, rep, CODEC_R + TYPED_R + OTHER_R + WITH_R, bounded_memory)
    loose(ctx, rep, 'decode', level(bounded_memory))
    loose(ctx, rep, 'decode_bare', bounded_memory)


@prop('C06', 'every write of a value is complete (no partial write taken for a whole one) and the byte count returned is the number of bytes emitted; the bytes are those of the format')
def c06(ctx, rep):
    scan(ctx, rep, CODEC_W + TYPED_W, errors_propagate('write'))
    scan(ctx, rep, [r for r in CODEC_W if r not in ('codec::w_unit', 'codec::w_bool')], count_returned)
    writes(ctx, rep, CODEC_W + TYPED_W, {'shape', 'value'})


@prop('C07', 'on every path class with a failed read or write the failure is returned, carries the cause, and nothing is read or written afterwards')
def c07(ctx, rep):
    scan(ctx, rep, CODEC_W + TYPED_W, errors_propagate('write'))
    scan(ctx, rep, CODEC_R + TYPED_R + OTHER_R, errors_propagate('read'))
    for r in ('codec::r_string', 'codec::r_bytes', 'typed::de_string'):
        scan(ctx, rep, [r], early_end(READ[r]))
    loose(ctx, rep, 'decode', level(errors_propagate('read')))
    loose(ctx, rep, 'encode', errors_propagate('write'))


@prop('C08', 'strict decoding: every success path class establishes that the source has no further byte, every class at the end of the input succeeds')
def c08(ctx, rep):
    scan(ctx, rep, ['typed::de_strict'], strict)


@prop('C09', 'sum types are written and read by declaration index, polymorphic variants by hash tag; unknown ones are rejected')
def c09(ctx, rep):
    writes(ctx, rep, ['codec::w_vidx', 'codec::w_ptag', 'typed::ser_enum', 'typed::ser_pv', 'typed::ser_ends', 'typed::ser_wide'] + pick(TYPED_W, 'ser_v', 'ser_near'), ALL)
    reads(ctx, rep, ['codec::r_vidx', 'codec::r_ptag', 'typed::de_enum', 'typed::de_pv', 'typed::de_ends', 'typed::de_wide'] + pick(TYPED_R, 'de_near'), ALL)
    for r in ('ser_pvl', 'de_pvl', 'ser_widepv', 'de_widepv'):
        # names of any length: the hash function itself is replaced by what C13 says of it
        R = ctx.run('witness', 'typed::' + r, 'hash', hooks=HASH)
        for o in R.outs:
            if r.startswith('de_'):
                rule = lambda R, o: check_read(R.E, o, READ['long::' + r])
            else:
                rule = lambda R, o: check_write(R.E, o, WRITE['long::' + r](R))
            rep.outcome(R, o, hashed(rule), ALL)


def hashed(rule):
    def f(R, o):
        if not getattr(R.E, 'hashed', False):
            raise Und('the tag is not computed with caml_hash_variant')
        return rule(R, o)
    return f


@prop('C10', 'for every shape of the data model the writer emits exactly the parts in order with the flag, length or index of the format, and the reader inverts it part by part')
def c10(ctx, rep):
    ints = ['typed::ser_' + x for x in RNG] + ['typed::de_' + x for x in RNG]
    writes(ctx, rep, [r for r in TYPED_W if r not in ints] + ['codec::w_' + x for x in ('unit', 'bool', 'char', 'f32', 'f64')], ALL)
    reads(ctx, rep, [r for r in TYPED_R if r not in ints] + ['codec::r_' + x for x in ('unit', 'bool', 'char', 'string', 'bytes')], ALL)


@prop('C11', 'for every rule of a layout, every path class of the loose decoder reads exactly the encoding of that rule, returns the value it denotes, takes exactly that rule off the pending ones and rejects what the rule does not admit; nested rules by induction')
def c11(ctx, rep):
    P = ctx.prog('witness')
    loose(ctx, rep, 'decode', lambda R, o: loosespec.check_decode(P, R, o))
    again(ctx, rep, {'accept', 'shape'})


@prop('C12', 'for every kind of loosely typed value, every path class of the encoder writes the encoding the loose decoder reads for it; nested values by induction')
def c12(ctx, rep):
    P = ctx.prog('witness')
    loose(ctx, rep, 'encode', lambda R, o: loosespec.check_encode(P, R, o))


@prop('C13', 'the tag of a polymorphic variant name is the OCaml recurrence over all bytes of the name: start 0, step 223 h + byte modulo 2^31')
def c13(ctx, rep):
    scan(ctx, rep, ['codec::hash'], variant_hash)


def conv_built(ctx, rep, only):
    """the generated conversions and version wrappers are well typed for every supported shape"""
    err = os.path.join(ctx.out, 'witness_conv.err')
    if not os.path.exists(err):
        return True
    text = open(err).read()
    lines = [l for l in text.splitlines() if l.startswith('error')][:4]
    where = [l.strip() for l in text.splitlines() if l.strip().startswith('-->')][:4]
    if any(only(w) for w in where) or not where:
        rep.violation('witness_conv|build', 'code generated for a supported type does not compile: %s' % '; '.join(lines)[:400], where, text[-2000:])
    else:
        rep.undetermined('witness_conv', 'the conversions could not be built')
    return False


@prop('C14', 'every constructor and conversion of the version wrapper carries the version of its type at every layer and the payload unchanged; on the wire it is the version followed by the payload')
def c14(ctx, rep):
    if not conv_built(ctx, rep, lambda w: 'vers.rs' in w or 'versioned' in w):
        return
    P = ctx.prog('witness_conv')
    for n in convspec.VERS_ROOTS:
        R = ctx.run('witness_conv', 'vers::' + n)
        for o in R.outs:
            rep.outcome(R, o, convspec.check_vers(P, n))
    f = lambda R, i: fld(arg(R, 'v'), i)
    R = ctx.run('witness_conv', 'vers::ser')
    for o in R.outs:
        rep.outcome(R, o, lambda R, o: check_write(R.E, o, lambda E, st: [(st, [('int', f(R, 0)), ('probe', f(R, 1))])]))
    R = ctx.run('witness_conv', 'vers::ser2')
    for o in R.outs:
        rep.outcome(R, o, lambda R, o: check_write(R.E, o, lambda E, st: [(st, [('int', f(R, 0)), ('int', fld(f(R, 1), 0)), ('probe', fld(f(R, 1), 1))])]))
    R = ctx.run('witness_conv', 'vers::de')
    for o in R.outs:
        rep.outcome(R, o, lambda R, o: check_read(R.E, o, lambda c: bind(rd_int(c, 0, 65535), lambda c, v: bind(
            rd_probe(c), lambda c, x: [(c, VAL(('agg', convspec.VERS, 0, (v, x))))]))))


@prop('C15', 'every generated conversion maps each field and variant to the one of the same name (or position) with its elements converted one by one, sets the version of every wrapper, and the reverse conversion undoes it')
def c15(ctx, rep):
    if not conv_built(ctx, rep, lambda w: 'autofrom.rs' in w or 'serialization-types-macros' in w):
        return
    P = ctx.prog('witness_conv')
    for root, a, b, t, fs, n, into in convspec.CONV:
        R = ctx.run('witness_conv', root)
        for o in R.outs:
            rep.outcome(R, o, lambda R, o: convspec.check_conv(P, R, o, a, b, t, fs, n, into))


def export_roots(ctx, crate):
    import json
    return json.load(open(os.path.join(ctx.out, crate + '.main.json')))['roots']


@prop('C16', 'every path class of the layout reader maps each tag, with its number of elements, to the rule of that name with the payload taken from the element at its position; other tags are rejected; keys fill the field of the same name')
def c16(ctx, rep):
    P = ctx.prog('bin_prot')
    roots = export_roots(ctx, 'bin_prot')
    for ty in loosespec.LAYOUT_TAGS:
        rs = loosespec.layout_roots(P, roots, ty)
        if not rs:
            rep.undetermined(ty, 'no conversion from the tagged list found')
        for r in rs:
            R = ctx.run('bin_prot', r.split('::', 1)[1])
            for o in R.outs:
                rep.outcome(R, o, loosespec.check_layout_tags(P, ty))
    for ty in loosespec.LAYOUT_FIELDS:
        rs = [r['path'] for r in roots if r['path'].endswith('::visit_str') and ('for value::layout::%s>' % ty) in r['path'] and '__FieldVisitor' in r['path']]
        if not rs:
            rep.undetermined(ty, 'no field names found')
        for r in rs:
            R = ctx.run('bin_prot', r.split('::', 1)[1])
            for o in R.outs:
                rep.outcome(R, o, loosespec.check_layout_keys(P, ty))
    for root, ty, keys in LAYOUT_OBJECTS:
        R = ctx.run('witness', root, 'parts', hooks=loosespec.HOOKS_PARTS)
        for o in R.outs:
            rep.outcome(R, o, loosespec.check_layout_object(P, ty, keys))


@prop('C17', 'every path class of a lookup returns the element at the index (or the entry whose name equals the key), found in the list, tuple or record or in that of the payload of a sum, and finds nothing exactly when there is none; the indexing operator panics exactly then')
def c17(ctx, rep):
    P = ctx.prog('witness')
    for r, by, pan in (('get_usize', 'int', False), ('idx_usize', 'int', True), ('get_str', 'key', False), ('get_string', 'key', False), ('idx_str', 'key', True)):
        R = ctx.run('witness', 'loose::' + r)
        for o in R.outs:
            rep.outcome(R, o, loosespec.check_index(P, by, pan))
    R = ctx.run('witness', 'loose::inner')
    for o in R.outs:
        rep.outcome(R, o, loosespec.check_inner(P))


@prop('C18', 'every path class of main() of the layout reader: which file, bytes and rule are decoded; success only if nothing failed, and with --roundtrip only if the re-encoding equals the input; the decoded value reaches the output')
def c18(ctx, rep):
    P = ctx.prog('bin_prot_layout_reader')
    R = ctx.run('bin_prot_layout_reader', 'main', 'cli', hooks=cli.HOOKS)
    rule = lambda R, o: cli.reader(P)(R, o)
    for o in R.outs:
        rep.outcome(R, o, rule)


@prop('C19', 'every path class of main() of the checker: destination and bytes of the encoding of the selected test, source and type of what is decoded, exit status; the table of test names')
def c19(ctx, rep):
    P = ctx.prog('bin_prot_checker')
    R = ctx.run('bin_prot_checker', 'main', 'cli', hooks=cli.CHECKER_HOOKS)
    for o in R.outs:
        rep.outcome(R, o, lambda R, o: cli.checker(P)(R, o))
    for ty, b in sorted(getattr(R.E, 'decoders', {}).items(), key=lambda x: str(x[0])):
        exp = ty and cli.test_readers(P, cli.Names(P), ty)
        if exp:
            D = ctx.run('bin_prot_checker', 'from_reader::<%s>' % ty, 'decoder', bid=b)
            for o in D.outs:
                rep.outcome(D, o, lambda D, o: check_read(D.E, o, exp))
    for r in [r['path'] for r in export_roots(ctx, 'bin_prot_checker') if r['path'].endswith('as std::str::FromStr>::from_str')]:
        R = ctx.run('bin_prot_checker', r.split('::', 1)[1])
        for o in R.outs:
            rep.outcome(R, o, lambda R, o: cli.test_names(P)(R, o))


@prop('C20', 'every path class of a proof\'s root hash and verification, for proofs of zero to five levels with all inputs symbolic and for named positions of trees of 20, 29, 35 and 63 levels: a root is returned exactly when the peers named are the siblings on the way from the position to the root, it is the nesting of the merger\'s results in left-right order with each node\'s depth and height, and nothing panics', node='node')
def c20(ctx, rep):
    import nodespec
    for root, rule in nodespec.merkle_rules(rep):
        R = ctx.run('witness_node', root, hooks=nodespec.HOOKS)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C28', 'trees of every size up to ten items and chosen larger ones, of variable and of fixed height, filled in batches with the root asked for in between or not, items symbolic and mergers opaque (one with a hash for every node, one without a hash for empty subtrees): the roots, counts and heights, and for every position the proof, are those of the tree the items stand for', node='node')
def c28(ctx, rep):
    import treespec
    for n, init, rule, label in treespec.cases(ctx.tier == 'thorough'):
        if len(rep.und) > 30:
            rep.undetermined('tree::' + n, 'not analysed, like the cases after it: too many before could not be decided')
            break
        R = ctx.run('witness_node', 'tree::' + n, label, hooks=treespec.HOOKS, init=init, unroll=treespec.UNROLL, budget=60000)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C29', 'the hash of a node for every height up to six (thorough: nine) and every pattern of present and absent children, of a leaf, and of nodes of both kinds of tree in one program, as nested applications of the opaque hash function with variant, domain string and inputs; every path of up to five nodes (thorough: six), malformed ones, and chosen long ones to the limit: the positions and hashes of the proof made from it', node='node')
def c29(ctx, rep):
    import ledgerspec
    for n, init, rule, label in ledgerspec.cases(ctx.tier == 'thorough'):
        if len(rep.und) > 30:
            rep.undetermined('ledger::' + n, 'not analysed, like the cases after it: too many before could not be decided')
            break
        R = ctx.run('witness_node', 'ledger::' + n, label, hooks=ledgerspec.HOOKS, init=init, unroll=ledgerspec.UNROLL, budget=60000)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C30', 'every path class of reading a wallet, of opening it to a private key and to a key pair, and of writing one that was read: the conditions under which each succeeds, and the bytes of the key as a function of password hash, cipher and parameters; the JSON text and the two ciphers are opaque functions', node='secrets')
def c30(ctx, rep):
    import walletspec
    for n, rule in walletspec.RULES:
        R = ctx.run('witness_secrets', n, hooks=walletspec.HOOKS)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C21', 'every path class of chain selection equals the selection rule: short range forks by length, VRF digest, state hash; long range forks by relative minimum window density after rejecting malformed windows; blocks are appended only at the next height; errors leave the chain as it was', node='node')
def c21(ctx, rep):
    import nodespec
    for root, rule, hooks, *init in nodespec.fork_rules():
        R = ctx.run('witness_node', root, hooks=hooks, init=init[0] if init else None)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C22', 'every wire type, one at a time with the values nested in it abstract: what is written per variant (tag, then fields in order) and that reading puts the same parts into the same fields; the written form composed along the types agrees with the OCaml layouts position by position (kind, width, version, tag, field name)', node='wire')
def c22(ctx, rep):
    import wirespec
    wirespec.wire(ctx, rep)


@prop('C23', 'every path class of the random oracle input of each hashed type (legacy and chunked): exactly the listed fields, at their widths, in their order, each once, with the sub-inputs of nested types taken whole; domain strings; packing of chunks into field elements; state hashes', node='base')
def c23(ctx, rep):
    import inputspec
    P = ctx.prog('witness_base')
    for n, rule, hooks in inputspec.rules(P):
        R = ctx.run('witness_base', 'input::' + n, hooks=hooks)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C24', 'every path class of verifying a command, a user command, a diff and a block, with lists of any length and, exactly, with every combination of up to three commands; of signing a payload; of building one', node='base')
def c24(ctx, rep):
    import signspec
    for k, (n, rule, whole, hooks, init) in enumerate(signspec.rules()):
        R = ctx.run('witness_base', 'verify::' + n, str(k), hooks=hooks, init=init)
        for o in R.outs:
            rep.outcome(R, o, rule)
        if whole:
            try:
                whole(R)
            except Und as e:
                rep.undetermined(n, str(e))
        if n == 'pre_diff' and init is None:
            # a path that is limited to some positions: lists that go beyond
            for m in signspec.limits(R):
                ns, ty = (m,), 'StagedLedgerPreDiff'
                Q = ctx.run('witness_base', 'verify::' + n, 'limit%d' % m, hooks=hooks, init=signspec.init_lists(ty, ns))
                for o in Q.outs:
                    rep.outcome(Q, o, signspec.rule_list(ty, ns))


@prop('C25', 'every path class of every conversion (impl From) between library types, wire types and text-form types: the result has the converted part of the same name or position at each field, the same variant, all elements in order, the declared versions; none leads back to itself', node='base')
def c25(ctx, rep):
    import structspec
    edges = {}
    for crate in structspec.CRATES:
        F = structspec.Family(ctx.prog(crate))
        for p in F.claimed:
            R = ctx.run(crate, p[len(crate) + 2:], 'from', hooks=F.hooks(p))
            rule = structspec.rule(F, p)
            for o in R.outs:
                rep.outcome(R, o, rule)
        for k, v in F.edges.items():
            edges.setdefault(k, set()).update(v)
    for d, s in structspec.cycles(edges):
        rep.violation('recursion', 'the conversion from %s to %s leads back to itself and never returns' % (s, d), 'impl From<%s> for %s' % (s, d))


@prop('C26', 'every path class of writing each text form, of reading it, of reading what was written, of the conversions to and from strings that go by way of a text form, and of memos of texts of each length', node='base')
def c26(ctx, rep):
    import graphqlspec
    import textspec
    for n, rule in textspec.rules():
        R = ctx.run('witness_base', 'text::' + n, hooks=textspec.HOOKS)
        for o in R.outs:
            rep.outcome(R, o, rule)
    for k, (n, rule, init) in enumerate(graphqlspec.string_rules()):
        R = ctx.run('witness_base', 'text::' + n, 's%d' % k, hooks=graphqlspec.HOOKS, init=init)
        for o in R.outs:
            rep.outcome(R, o, rule)


@prop('C27', 'every path class of reading accounts, permissions, timing, epoch data, blockchain, consensus and protocol state from GraphQL data: each part against the entry of its name and the form of its type', node='base')
def c27(ctx, rep):
    import graphqlspec
    for n, rule, hooks in graphqlspec.graphql_rules():
        R = ctx.run('witness_base', 'text::' + n, hooks=hooks)
        for o in R.outs:
            rep.outcome(R, o, rule)
