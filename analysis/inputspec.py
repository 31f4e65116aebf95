"""What enters the hashes: the random oracle inputs of every type, in the legacy and in the chunked form, against a table of
fields, order and width; the packing of chunks into field elements; domains and hash functions of the state hashes."""
from spec import *
from terms import *
from engine import *
import models
from nodespec import T, Dead, explore, contradictory, possible, free

NAMES = ('bit', 'bits', 'pack', 'fe', 'nestf', 'nestp', 'sha', 'fields_of')


def deref(E, st, v):
    for _ in range(6):
        if v[0] != 'ref':
            break
        v = models.val(E, st, v)
    return v


def fld(E, st, v, i):
    return v[3][i] if v[0] == 'agg' else E.norm(st, ('fld', v, None, i))


def const_len(E, st, v):
    n = E.iv(st, E.norm(st, seq_len(v)))
    return n[0][0] if n and n[0][0] == n[-1][1] else None


def hook_bits(E, st, f, args, sp):
    v, msb = deref(E, st, args[0]), E.norm(st, args[1])
    v = E.norm_deep(st, v)
    if msb[0] != 'i':
        return None
    n = const_len(E, st, v)
    if n is None or n > 64:
        return [('ret', st, ('vec', (('all', ('app', 'bits', v, msb)),)))]
    out = []
    for k in range(n):
        x = E.norm(st, seq_get(v, I(k)))
        for j in range(8):
            j = 7 - j if msb[1] else j
            out.append(('one', I(x[1] >> j & 1) if x[0] == 'i' else ('app', 'bit', x, I(j))))
    return [('ret', st, ('vec', tuple(out)))]


def hook_pack(E, st, f, args, sp):
    v = E.norm_deep(st, args[0])
    segs = segs_of(v)
    while segs and segs[-1] == ('one', ZERO):
        segs = segs[:-1]
    n = const_len(E, st, v)
    if n is None:
        return None
    return [('ret', st, ('app', 'pack', ('vec', tuple(segs)), E.norm(st, args[1]), I((n + 7) // 8)))]


def hook_fe(E, st, f, args, sp):
    return [('ret', st, Ok(('app', 'fe', E.norm_deep(st, deref(E, st, args[0])))))]


def hook_opaque(E, st, f, args, sp):
    name = (f.get('rpath') or f.get('path')).split('::')[-1]
    return [('ret', st, ('app', name) + tuple(E.norm_deep(st, deref(E, st, a)) for a in args))]


def hook_into_fields(E, st, f, args, sp):
    """the packing itself is checked on its own"""
    v = deref(E, st, args[0])
    fs, pk = (E.norm_deep(st, fld(E, st, v, i)) for i in (0, 1))
    return [('ret', st, ('vec', (('all', ('app', 'fields_of', fs, pk)),)))]


def last(p):
    return p.split('::')[-1]


def hook_once(E, st, f, args, sp):
    """the value a cell is initialised with"""
    res = []
    for o in E.call_value(st, args[1], [], sp):
        if o[0] != 'ret':
            res.append(o)
            continue
        o[1].mem[('H', k := o[1].fresh())] = o[2]
        res.append(('ret', o[1], ('ref', ('H', k), ())))
    return res


def hook_read_field(E, st, f, args, sp):
    return [('ret', st, Ok(('app', 'opaque_read_field', E.norm_deep(st, deref(E, st, args[0])))))]


def hook_limbs(E, st, f, args, sp):
    """a field element and its integer; shifting by nothing, and zero, stay what they are"""
    n, v = last(f.get('rpath') or f.get('path')), E.norm_deep(st, args[0])
    if n == 'opaque_le_limbs':
        return [('ret', st, ('app', 'limbs', v))]
    if n == 'opaque_le_bytes':
        return [('ret', st, v[2] if v[0] == 'app' and v[1] == 'limbs' else ('app', n, v))]
    if n == 'opaque_shl':
        k = E.norm(st, args[1])
        if k == ZERO or v == ('app', 'limbs', CONST[0]) or E.truth(st, ('cmp', '==', k, ZERO)) == 1:
            return [('ret', st, v)]
        return [('ret', st, ('app', 'limbs', ('app', 'shl', v[2], k)))] if v[0] == 'app' and v[1] == 'limbs' else None
    a = [E.norm_deep(st, x) for x in args]
    return [('ret', st, plus(*a))]


def plus(a, b):
    return b if a == CONST[0] else a if b == CONST[0] else ('app', 'plus') + tuple(sorted((a, b), key=repr))


BASE_HOOKS = ((lambda p: last(p) in ('opaque_le_limbs', 'opaque_le_bytes', 'opaque_shl', 'opaque_add'), hook_limbs), (lambda p: last(p) == 'opaque_read_field', hook_read_field), (lambda p: last(p) == 'opaque_bits', hook_bits), (lambda p: last(p) == 'opaque_pack', hook_pack),
              (lambda p: last(p) in ('opaque_field_bytes',), hook_fe), (lambda p: last(p).startswith('opaque_'), hook_opaque),
              (lambda p: last(p) == 'get_or_init', hook_once))
PACKED = (lambda p: last(p) == 'into_fields' and 'ChunkedROInput' in p, hook_into_fields),


# ================================================================ the table
# legacy: 'f' a field element, 'u32', 'u64', 'bool', 'bytes' what is appended; a name: the input of that type
# chunked: the same, 'u32' and so on as one packed chunk of that width
H = [('fe', '0')]
SLOTS = ['ledger', 'total_currency']
LEGACY = {
    'BaseHash': H, 'StateHash': ['0'], 'LedgerHash': ['0'], 'ChainHash': ['0'], 'CoinBaseHash': ['0'], 'EpochSeed': ['0'],
    'StagedLedgerHash': ['non_snark', 'pending_coinbase_hash'],
    'TokenId': [('u64', '0')], 'Amount': [('u64', '0')], 'BlockTime': [('u64', '0')],
    'Length': [('u32', '0')], 'AccountNonce': [('u32', '0')], 'GlobalSlotNumber': [('u32', '0')],
    'GlobalSlot': ['slot_number', 'slots_per_epoch'],
    'EpochLedger': ['hash', 'total_currency'],
    'EpochData': ['seed', 'start_checkpoint', 'epoch_length', 'ledger', 'lock_checkpoint'],
    'ProtocolConstants': ['k', 'delta', 'slots_per_epoch', 'slots_per_sub_window', 'genesis_state_timestamp'],
    'CompressedPubKey': [('fp', 'x'), ('bool', 'is_odd')],
    'ConsensusState': ['blockchain_length', 'epoch_count', 'min_window_density', ('each', 'sub_window_densities'), 'last_vrf_output',
                       'total_currency', 'curr_global_slot', 'global_slot_since_genesis', ('bool', 'has_ancestor_in_same_checkpoint_window'),
                       ('bool', 'supercharge_coinbase'), 'staking_epoch_data', 'next_epoch_data', 'block_stake_winner', 'block_creator',
                       'coinbase_receiver'],
    'BlockchainStateLegacy': ['staged_ledger_hash', 'snarked_ledger_hash', 'genesis_ledger_hash', 'snarked_next_available_token', 'timestamp'],
    'ProtocolStateBodyLegacy': ['constants', 'genesis_state_hash', 'blockchain_state', 'consensus_state'],
    'ProtocolStateLegacy': ['previous_state_hash', ('hash', 0, 'CodaProtoStateBody', 'body')],
}
AUTH = ('edit_state', 'send', 'receive', 'set_delegate', 'set_permissions', 'set_verification_key', 'set_zkapp_uri',
        'edit_sequence_state', 'set_token_symbol', 'increment_nonce', 'set_voting_for')
CHUNKED = dict({k: v for k, v in LEGACY.items() if not k.endswith('Legacy')}, **{
    'Field': H, 'TokenId': [('of_u64', '0')], 'MinaIndex': [('u32', '0')], 'SignedAmount': [('u64', '0'), ('bool', '1')],
    'BodyReference': [('bytes', '0')],
    'BlockchainState': ['staged_ledger_hash', 'genesis_ledger_hash', 'registers', 'timestamp', 'body_reference'],
    'BlockchainStateRegisters': ['ledger', 'local_state'],
    'BlockchainStateRegistersLocalState': ['stack_frame', 'call_stack', 'transaction_commitment', 'full_transaction_commitment', 'token_id',
                                           'excess', 'ledger', 'party_index', ('bool', 'success')],
    'TimedData': ['initial_minimum_balance', ('low32', 'cliff_time'), 'cliff_amount', ('low32', 'vesting_period'), 'vesting_increment'],
    'Permissions': list(AUTH),
    'ProtocolStateBody': ['constants', 'genesis_state_hash', 'blockchain_state', 'consensus_state'],
    'ProtocolState': ['previous_state_hash', ('hash', 1, 'CodaProtoStateBody', 'body')],
    'Account': ['zkapp_uri', 'zkapp', 'permissions', 'timing', 'voting_for', 'delegate', 'receipt_chain_hash', 'nonce', 'balance',
                'token_symbol', 'token_permissions', 'token_id', 'public_key'],
})
# types with a form per case; nested in others they stand for themselves
CASES = {'VrfOutputTruncated', 'NonSnarkStagedLedgerHash'}
CHUNKED_CASES = {'AuthRequired', 'VrfOutputTruncated', 'NonSnarkStagedLedgerHash', 'BodyReference', 'Timing', 'TokenPermissions', 'TokenSymbol',
                 'CompressedPubKeyOptionHashableWrapper', 'ZkAppOptionHashableWrapper', 'ZkAppUriOptionHashableWrapper'}
WRAPPED = {'delegate': 'CompressedPubKeyOptionHashableWrapper', 'zkapp': 'ZkAppOptionHashableWrapper', 'zkapp_uri': 'ZkAppUriOptionHashableWrapper'}
# what does not enter the hash by the protocol of this version
OMITTED = {('BlockchainStateRegisters', 'pending_coinbase_stack'), ('BlockchainStateRegistersLocalState', 'failure_status_tbl')}
# (constant, signature necessary, signature sufficient)
AUTH_BITS = {'None': (1, 0, 1), 'Either': (0, 0, 1), 'Proof': (0, 0, 0), 'Signature': (0, 1, 1), 'Both': (0, 1, 0), 'Impossible': (1, 1, 0)}


def short(s):
    return s.split('<')[0].split('::')[-1]


def self_type(P, f):
    b = P.bodies[f['body']] if 'body' in f else None
    if b is None:
        return None
    t = b['locals'][1]
    while P.types[t]['k'] == 'ref':
        t = P.types[t]['e']
    return P.types[t]


def hook_nested(own, method, cases, adt):
    """the input of a nested value that has a form per case is an atom; the form is checked where the type itself is"""
    def pred(p):
        return last(p) == method

    def h(E, st, f, args, sp):
        T = self_type(E.p, f)
        if T is None or T['k'] != 'adt' or short(T['path']) not in cases or short(T['path']) == own:
            return None
        v = deref(E, st, args[0])
        n = short(T['path'])
        if n.endswith('Wrapper'):
            v = deref(E, st, fld(E, st, v, 0))
        return [('ret', st, atom(adt, n, v))]
    return pred, h


def atom(adt, n, v):
    return ('agg', adt, 0, (('vec', (('one', ('app', 'nestf', n, v)),)), ('vec', (('one', ('app', 'nestp', n, v)),))))


ROI, CROI = 'proof_systems::mina_hasher::ROInput', 'proof_systems::ChunkedROInput'
FP, BITS = 'proof_systems::mina_hasher::Fp', 'proof_systems::mina_hasher::Bits'


class In:
    """the expected input of a value"""
    def __init__(self, E, st, chunked):
        self.E, self.st, self.P, self.ch = E, st, E.p, chunked
        self.f, self.b = [], []

    def fp(self, t):
        self.f.append(('one', ('agg', FP, 0, (t,))))

    def fe(self, v):
        self.fp(('app', 'fe', v))

    def pack(self, bits, n):
        bits = list(bits)
        while bits and bits[-1] == ZERO:
            bits.pop()
        fp = ('agg', FP, 0, (('app', 'fe', ('app', 'pack', ('vec', tuple(('one', x) for x in bits)), ZERO, I(32))),))
        self.b.append(('one', ('agg', 'tuple', None, (fp, I(n)))))

    def constant(self, v, n):
        self.b.append(('one', ('agg', 'tuple', None, (('agg', FP, 0, (CONST[v],)), I(n)))))

    def num(self, v, w):
        if not self.ch:
            self.b.append(('one', ('agg', BITS, {32: 1, 64: 2}[w], (v,))))
        else:
            bits = []
            for i in range(w // 8):
                x = self.E.byte(self.st, v, i)
                bits += [I(x[1] >> j & 1) if x[0] == 'i' else ('app', 'bit', x, I(j)) for j in range(8)]
            self.pack(bits, w)

    def bool(self, v):
        if self.ch:
            self.pack([v], 1)
        else:
            self.b.append(('one', ('agg', BITS, 0, (v,))))

    def bytes(self, v, n=None):
        if not self.ch:
            self.b.append(('one', ('agg', BITS, 3, (v,))))
        elif n is None:
            raise Und('bytes')
        else:
            for k in range(n):
                x = self.E.norm(self.st, seq_get(v, I(k)))
                for j in range(8):
                    self.pack([('app', 'bit', x, I(j))], 1)

    def octets(self, v, n):
        """the bits of bytes whose number is not known"""
        if not self.ch:
            return self.bytes(v)
        k = ('k', ('spec', 'bits'))
        v = ('app', 'bits', v, ZERO)
        sub = In(self.E, self.st, True)
        sub.pack([('elem', v, k)], 1)
        self.b.append(('c', ('len', v), k, sub.b[0][1]))

    def atom(self, n, v):
        self.f.append(('one', ('app', 'nestf', n, v)))
        self.b.append(('one', ('app', 'nestp', n, v)))

    # ---------------------------------------------------------- by type
    def fields(self, ty):
        for k, a in self.P.adts.items():
            if short(k) == ty and 'serialization' not in k and len(a['variants']) == 1:
                return a['variants'][0]['fields']
        raise Und('no type ' + ty)

    def part(self, v, ty, name):
        for i, f in enumerate(self.fields(ty)):
            if f[0] == name:
                return self.E.norm(self.st, ('fld', v, None, i)), self.P.types[f[1]]
        raise Und('no field %s in %s' % (name, ty))

    def value(self, v, ty, own=None):
        table = CHUNKED if self.ch else LEGACY
        if ty in (CHUNKED_CASES if self.ch else CASES) and ty != own:
            return self.atom(ty, v)
        if ty not in table:
            raise Und('no form of %s' % ty)
        seen = set()
        for it in table[ty]:
            kind, name = (None, it) if isinstance(it, str) else (it[0], it[-1])
            seen.add(name)
            x, T = self.part(v, ty, name)
            if kind is None:
                if name in WRAPPED and ty == 'Account':
                    self.atom(WRAPPED[name], x)
                else:
                    self.value(x, short(T.get('path', '?')))
            elif kind == 'fe':
                self.fe(x)
            elif kind == 'fp':
                self.f.append(('one', x))
            elif kind in ('u32', 'u64'):
                self.num(x, int(kind[1:]))
            elif kind == 'low32':
                self.num(self.E.trunc(self.st, self.part(x, 'BlockTime', '0')[0], 32, False), 32)
            elif kind == 'bool':
                self.bool(x)
            elif kind == 'bytes':
                self.bytes(x, 32)
            elif kind == 'of_u64':
                self.fp(('app', 'opaque_of_u64', x))
            elif kind == 'each':
                self.each(x, short(self.P.types[T['args'][0]]['path']))
            elif kind == 'hash':
                self.f.append(('one', self.hash(it[1], it[2], x, short(T['path']))))
        for f in self.fields(ty):
            if f[0] not in seen and (ty, f[0]) not in OMITTED:
                raise Bad('field %s of %s does not enter its hash' % (f[0], ty), 'omitted')

    def each(self, v, ty):
        k = ('k', ('spec', ty))
        sub = In(self.E, self.st, self.ch)
        sub.value(('elem', v, k), ty)
        for segs, out in ((sub.f, self.f), (sub.b, self.b)):
            if len(segs) > 1:
                raise Und('several parts per element')
            out += [('c', ('len', v), k, s[1]) for s in segs]

    def hash(self, variant, domain, v, ty):
        sub = In(self.E, self.st, self.ch)
        sub.value(v, ty, ty)
        return ('app', 'opaque_poseidon', I(variant), STR(domain), sub.roinput())

    def roinput(self):
        if not self.ch:
            return ('agg', ROI, 0, (('vec', tuple(self.f)), ('vec', tuple(self.b))))
        return ('agg', ROI, 0, (('vec', (('all', ('app', 'fields_of', ('vec', tuple(self.f)), ('vec', tuple(self.b)))),)), ('vec', ())))

    def chunked(self):
        return ('agg', CROI, 0, (('vec', tuple(self.f)), ('vec', tuple(self.b))))

    def result(self):
        return self.chunked() if self.ch else self.roinput()


CONST = {k: ('agg', 'array', None, (I(k),) + (ZERO,) * 31) for k in (0, 1)}


def STR(s):
    return Some(('s', s))


# ================================================================ comparison
def same(E, st, a, b):
    """equality of two inputs; abstract functions are injective, distinct parts of the value distinct"""
    a, b = E.norm_deep(st, a), E.norm_deep(st, b)
    if a == b:
        return EQ, None
    a, b = whole(E, st, a, b), whole(E, st, b, a)
    if a == b:
        return EQ, None
    why = '%s instead of %s' % (brief(a), brief(b))
    if is_seqy(a) and is_seqy(b):
        sa, sb = segs_of(a), segs_of(b)
        plain = all(s[0] == 'one' for s in sa) and all(s[0] == 'one' for s in sb)
        res = EQ, None
        for x, y in zip(sa, sb):
            if x[0] == 'one' and y[0] == 'one':
                r = same(E, st, x[1], y[1])
            elif x[0] == 'c' and y[0] == 'c':
                r = same(E, st, x[1], y[1])
                if r[0] == EQ:
                    r = same(E, st, x[3], subst(y[3], {y[2]: x[2]}))
            elif x[0] == 'all' and y[0] == 'all':
                r = same(E, st, x[1], y[1])
            elif {x[0], y[0]} == {'all', 'c'}:
                r = same(E, st, *(s if s[0] == 'c' else ('c', ('len', s[1]), (x if x[0] == 'c' else y)[2], ('elem', s[1], (x if x[0] == 'c' else y)[2]))
                                  for s in (x, y)))
            elif known(x) and known(y):
                r = NE, '%s instead of %s' % (brief(x), brief(y))
            else:
                r = UNDET, '%s vs %s' % (brief(x), brief(y))
            if r[0] == NE:
                return r
            if r[0] == UNDET:
                res = r
        if len(sa) != len(sb):
            if res[0] == EQ and all(known(s) for s in sa + sb):
                return NE, '%d parts instead of %d: %s' % (len(sa), len(sb), brief((sa[len(sb):] or sb[len(sa):])[0]))
            return UNDET, '%d parts vs %d' % (len(sa), len(sb))
        return res
    if a[0] == 'c' and b[0] == 'c':
        r = same(E, st, a[1], b[1])
        return same(E, st, a[3], subst(b[3], {b[2]: a[2]})) if r[0] == EQ else r
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1]:
        if a[2] != b[2]:
            return NE, why
        return every(same(E, st, x, y) for x, y in zip(a[3], b[3]))
    if a[0] == 'app' and b[0] == 'app':
        if a[1] != b[1] or len(a) != len(b):
            return NE, why
        return every(same(E, st, x, y) if isinstance(x, tuple) else ((EQ, None) if x == y else (NE, why)) for x, y in zip(a[2:], b[2:]))
    if a[0] == b[0] == 'elem' and a[1] == b[1]:
        return prove_eq(E, st, a[2], b[2])
    if a[0] == b[0] and a[0] in ('len', 'elem') and 'app' in (a[1][0], b[1][0]):
        return every(same(E, st, x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] in ('cmp', 'not', 'out') or b[0] in ('cmp', 'not', 'out'):
        return truths(E, st, a, b)
    if a[0] == 'fld' and b[0] == 'fld' and a[2:] == b[2:]:
        r = same(E, st, a[1], b[1])
        if r[0] != UNDET:
            return r
    if free(a) and free(b):
        return NE, why
    if a[0] in ('i', 'app') and b[0] in ('i', 'app') or {a[0], b[0]} & {'i', 'app'} and (free(a) or free(b)):
        return NE, why
    if a[0] in ARITH and b[0] in ARITH:
        return prove_eq(E, st, a, b)
    if a[0] in ('s', 'bs') or b[0] in ('s', 'bs'):
        return (NE if a[0] == b[0] else UNDET), why
    return UNDET, '%s vs %s' % (brief(a), brief(b))


def whole(E, st, a, b):
    """the value written out in the form the other one has"""
    if is_seqy(b) and not is_seqy(a) and a[0] in ('app', 'fld', 'sym', '*', 'elem'):
        return ('vec', (('all', a),))
    if b[0] == 'agg' and b[1] != 'array' and a[0] in ('upd', 'fld', 'sym', '*', 'elem', 'app') and not E.discrs(b[1]):
        return ('agg', b[1], b[2], tuple(E.norm_deep(st, field(E, st, a, i)) for i in range(len(b[3]))))
    return a


def field(E, st, v, i):
    if v[0] == 'upd':
        for p, x in v[2]:
            if p[0] == 'f' and p[2] == i:
                return x
        return field(E, st, v[1], i)
    return E.norm(st, ('fld', v, None, i))


def every(rs):
    res = EQ, None
    for r in rs:
        if r[0] == NE:
            return r
        if r[0] == UNDET:
            res = r
    return res


def known(s):
    return s[0] == 'one' and (s[1][0] in ('app', 'agg', 'i') or free(s[1])) or s[0] == 'c' and s[1][0] == 'len' and free(s[1][1])


def brief(t):
    return show(t)[:170]


def truths(E, st, a, b):
    """two conditions on one byte of the input agree on every value of it"""
    xs = sorted({t for x in (a, b) for t in leaves(x)}, key=repr)
    if len(xs) != 1:
        return UNDET, '%s vs %s' % (brief(a), brief(b))
    for v in range(256):
        env = {xs[0]: v}
        try:
            x, y = ev(a, env, no_pick), ev(b, env, no_pick)
        except CantEval:
            return UNDET, '%s vs %s' % (brief(a), brief(b))
        if bool(x) != bool(y):
            return NE, '%s instead of %s when the byte is %d' % (brief(a), brief(b), v)
    return EQ, None


def leaves(t):
    if not isinstance(t, tuple) or not t:
        return
    if free(t) if t[0] in ('sym', 'fld', '*', 'elem') else False:
        yield t
        return
    for x in t:
        yield from leaves(x)


# ================================================================ the rules
def arg(R, i=0):
    a = R.args[i]
    return ('*', a[1][1]) if a[0] == 'ref' else a


def good(o):
    if o[0] in ('unk', 'cut'):
        raise Und(str(o[2])[:200])


def outcome(P, exp):
    """every path returns the expected input; none panics"""
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        if o[0] == 'panic':
            if contradictory(E, st):
                return
            raise (Bad if possible(E, st) is not None else Und)('panics (%s) at %s' % (o[2][0], o[2][1]), *(['panic'] if possible(E, st) is not None else []))

        def spec(t):
            e = exp(t, E, t.st, R)
            r = same(E, t.st, o[2], e)
            if r[0] == EQ:
                return
            if contradictory(E, t.st) or conflict(E, t.st):
                raise Dead
            if r[0] == NE:
                if possible(E, t.st) is None:
                    raise Und(r[1])
                raise Bad(r[1], 'value')
            raise Und(r[1])
        explore(E, st, spec)
    return rule


def conflict(E, st):
    """two sums whose difference has known bounds cannot both be in their ranges"""
    fs = [(t, f[1]) for t, f in st.facts.items() if f[0] == 'iv' and isinstance(t, tuple) and t[0] == 'lin' and f[1]]
    for t, x in fs:
        for u, y in fs:
            if t is not u:
                d = E.iv(st, sub(t, u))
                if d and (y[0][0] + d[0][0] > x[-1][1] or y[-1][1] + d[-1][1] < x[0][0]):
                    return True
    return False


def variant(t, E, v, path, order=None):
    """the variant of the value, one case at a time"""
    vs = E.p.adts[path]['variants']
    for x in vs[:-1]:
        if t.test(('cmp', '==', ('discr', v), I(x['discr']))):
            return x['name']
    return vs[-1]['name']


def adt_of(P, ty):
    for k in P.adts:
        if short(k) == ty and 'serialization' not in k:
            return k
    raise Und('no type ' + ty)


def by_type(ty, chunked):
    def exp(t, E, st, R):
        v = arg(R)
        i = In(E, st, chunked)
        c = CASE.get(ty)
        if c:
            c(t, i, v)
        else:
            i.value(v, ty, ty)
        return i.result()
    return exp


def vrf(t, i, v):
    E, st = i.E, t.st
    x, _ = i.part(v, 'VrfOutputTruncated', '0')
    n = E.norm(st, ('len', x))
    if t.test(('cmp', '<=', n, I(31))):
        i.octets(x, n)
        return
    i.bytes(('slice', x, ZERO, I(31)), 31)
    b = E.norm(st, seq_get(x, I(31)))
    for j in range(5):
        i.bool(('cmp', '<', ZERO, ('and', b, I(1 << j))))


def non_snark(t, i, v):
    """the SHA-256 digest of the ledger hash (most significant byte first), the auxiliary hash and the pending coinbase"""
    E, st = i.E, t.st
    (l, _), (a, _), (p, _) = (i.part(v, 'NonSnarkStagedLedgerHash', n) for n in ('ledger_hash', 'aux_hash', 'pending_coinbase_aux'))
    l = i.part(i.part(l, 'LedgerHash', '0')[0], 'BaseHash', '0')[0]
    d = ('app', 'opaque_sha256', ('vec', tuple(('one', ('elem', l, I(n))) for n in reversed(range(32))) + (
        ('all', i.part(a, 'AuxHash', '0')[0]), ('all', i.part(p, 'PendingCoinbaseAuxHash', '0')[0]))))
    if i.ch:
        bits = [('app', 'bit', E.norm(st, seq_get(d, I(k))), I(j)) for k in range(32) for j in range(8)]
        for x in bits:
            i.pack([x], 1)
    else:
        i.bytes(d)


def auth(t, i, v):
    bits = AUTH_BITS[variant(t, i.E, v, adt_of(i.P, 'AuthRequired'))]
    for b in bits:
        i.pack([I(b)], 1)


def timing(t, i, v):
    p = adt_of(i.P, 'Timing')
    name = variant(t, i.E, v, p)
    names = [x['name'] for x in i.P.adts[p]['variants']]
    i.constant(1 if name == 'Timed' else 0, 1)
    if name == 'Timed':
        return i.value(i.E.norm(t.st, ('fld', v, names.index('Timed'), 0)), 'TimedData')
    for x, w in ((0, 64), (0, 32), (0, 64), (1, 32), (0, 64)):
        i.num(I(x), w)


def token_permissions(t, i, v):
    p = adt_of(i.P, 'TokenPermissions')
    name = variant(t, i.E, v, p)
    names = [x['name'] for x in i.P.adts[p]['variants']]
    i.pack([I(int(name == 'TokenOwned')), i.E.norm(t.st, ('fld', v, names.index(name), 0))], 2)


def key_option(t, i, v):
    if t.test(('cmp', '==', ('discr', v), ONE)):
        return i.value(('fld', v, 1, 0), 'CompressedPubKey')
    e = ('app', 'opaque_empty_key')
    i.f.append(('one', ('agg', FP, 0, (('fld', e, None, 0),))))
    i.bool(('fld', e, None, 1))


def token_symbol(t, i, v):
    """the first six bytes"""
    x = i.part(v, 'TokenSymbol', '0')[0]
    bs = ('agg', 'array', None, tuple(('elem', x, I(k)) for k in range(6)) + (ZERO,) * 26)
    i.b.append(('one', ('agg', 'tuple', None, (('agg', FP, 0, (('app', 'opaque_read_field', bs),)), I(48)))))


CASE = {'TokenSymbol': token_symbol, 'VrfOutputTruncated': vrf, 'NonSnarkStagedLedgerHash': non_snark, 'AuthRequired': auth, 'Timing': timing,
        'TokenPermissions': token_permissions, 'Option': key_option}


# ================================================================ entry points
def command(t, i, v):
    """the legacy form of a payload: fee payer, source and receiver; fee, token, nonce, expiry, memo; kind and amounts"""
    E, P, st = i.E, i.P, t.st
    com, _ = i.part(v, 'SignedCommandPayload', 'common')
    body, _ = i.part(v, 'SignedCommandPayload', 'body')
    adt = adt_of(P, 'SignedCommandPayloadBody')
    names = [x['name'] for x in P.adts[adt]['variants']]
    kind = variant(t, E, body, adt)
    inner = E.norm(st, ('fld', body, names.index(kind), 0))
    C = lambda n: i.part(com, 'SignedCommandPayloadCommon', n)[0]
    if kind == 'PaymentPayload':
        p, r = (i.part(inner, 'PaymentPayload', n)[0] for n in ('source_pk', 'receiver_pk'))
        token, amount = (i.part(i.part(inner, 'PaymentPayload', n)[0], ty, '0')[0] for n, ty in (('token_id', 'TokenId'), ('amount', 'Amount')))
        tag = (0, 0, 0)
    elif kind == 'StakeDelegation':
        p, r = (E.norm(st, ('fld', inner, 0, [f[0] for f in i.fields('StakeDelegation')].index(n))) for n in ('delegator', 'new_delegate'))
        token, amount, tag = ONE, ZERO, (0, 0, 1)
    else:
        raise Und('payload ' + kind)
    K = lambda k, n: i.part(k, 'CompressedPubKey', n)[0]
    payer = C('fee_payer_pk')
    i.f += [('one', K(k, 'x')) for k in (payer, p, r)]
    i.num(i.part(C('fee'), 'Amount', '0')[0], 64)
    i.num(i.part(C('fee_token'), 'TokenId', '0')[0], 64)
    i.bool(K(payer, 'is_odd'))
    i.num(i.part(C('nonce'), 'AccountNonce', '0')[0], 32)
    i.num(i.part(C('valid_until'), 'GlobalSlotNumber', '0')[0], 32)
    i.bytes(i.part(C('memo'), 'SignedCommandMemo', '0')[0])
    for b in tag:
        i.bool(I(b))
    i.bool(K(p, 'is_odd'))
    i.bool(K(r, 'is_odd'))
    i.num(token, 64)
    i.num(amount, 64)
    i.bool(ZERO)


CASE['SignedCommandPayload'] = command


def constant_domain(s):
    return lambda t, E, st, R: STR(s)


def command_domain(t, E, st, R):
    n = variant(t, E, arg(R), adt_of(E.p, 'NetworkId'))
    return STR({'MAINNET': 'MinaSignatureMainnet', 'TESTNET': 'CodaSignature'}[n])


def as_roinput(ty):
    def exp(t, E, st, R):
        i = In(E, st, True)
        i.value(arg(R), ty, ty)
        return i.roinput()
    return exp


def state_hash(ty, ch, fp):
    def exp(t, E, st, R):
        h = In(E, st, ch).hash(int(ch), 'CodaProtoState', arg(R), ty)
        if fp:
            return h
        return ('agg', adt_of(E.p, 'StateHash'), 0, (('agg', adt_of(E.p, 'BaseHash'), 0, (('fld', h, None, 0),)),))
    return exp


def primitive(add):
    def exp(t, E, st, R):
        i = In(E, st, True)
        c = R.args[0]
        i.f, i.b = [('all', ('fld', c, None, 0))], [('all', ('fld', c, None, 1))]
        add(i, *[deref(E, st, a) for a in R.args[1:]])
        return i.chunked()
    return exp


def p_append(i, v):
    i.f.append(('all', ('fld', v, None, 0)))
    i.b.append(('all', ('fld', v, None, 1)))


PRIMITIVES = {'p_bool': In.bool, 'p_u32': lambda i, v: i.num(v, 32), 'p_u64': lambda i, v: i.num(v, 64), 'p_bytes': lambda i, v: i.bytes(v, 3),
              'p_field': lambda i, v: i.f.append(('one', v)), 'p_append': p_append,
              'p_packed': lambda i, v, n: i.b.append(('one', ('agg', 'tuple', None, (v, n)))),
              'p_chunked': lambda i, v: i.value(v, 'Amount')}


def packing(n):
    """chunks are joined from the left while the width stays below that of a field element"""
    def exp(t, E, st, R):
        out, acc, s = [('all', R.args[0])], ZERO, CONST[0]
        for k in range(n):
            f, w = ('fld', R.args[1 + 2 * k], None, 0), E.norm(st, R.args[2 + 2 * k])
            if t.test(('cmp', '<', add(acc, w), I(255))):
                zero = s == CONST[0] or t.test(('cmp', '==', w, ZERO))
                s = plus(s if zero else ('app', 'shl', s, w), f)
                acc = add(acc, w)
            else:
                out.append(('one', ('agg', FP, 0, (s,))))
                acc, s = w, f
        if t.test(('cmp', '<', ZERO, acc)):
            out.append(('one', ('agg', FP, 0, (s,))))
        return ('vec', tuple(out))
    return exp


def as_fields(t, E, st, R):
    """the field elements of the packed form, in order"""
    c = R.args[0]
    return ('agg', ROI, 0, (('vec', (('all', ('app', 'fields_of', ('fld', c, None, 0), ('fld', c, None, 1))),)), ('vec', ())))


FIXED = {'d_account': constant_domain('CodaAccount'), 'd_protocol_state': constant_domain('CodaProtoState'),
         'd_protocol_state_body': constant_domain('CodaProtoStateBody'), 'd_protocol_state_legacy': constant_domain('CodaProtoState'),
         'd_protocol_state_body_legacy': constant_domain('CodaProtoStateBody'), 'd_command': command_domain,
         'l_account': as_roinput('Account'), 'l_body': as_roinput('ProtocolStateBody'), 'l_state': as_roinput('ProtocolState'),
         'h_legacy_fp': state_hash('ProtocolStateLegacy', False, True), 'h_legacy': state_hash('ProtocolStateLegacy', False, False),
         'h_fp': state_hash('ProtocolState', True, True), 'h': state_hash('ProtocolState', True, False), 'p_roinput': as_fields}
FIXED.update({k: primitive(f) for k, f in PRIMITIVES.items()})
FIXED.update({'p_fields_%d' % n: packing(n) for n in range(5)})


def rules(P):
    """entry point, rule, hooks"""
    for r in sorted(r['path'] for r in P.roots if r['path'].startswith('witness_base::input::')):
        n = last(r)
        if n in FIXED:
            hooks = BASE_HOOKS + (() if n.startswith('p_fields') else PACKED)
            if not n.startswith('p_'):
                own = {'l_account': 'Account', 'l_body': 'ProtocolStateBody', 'l_state': 'ProtocolState'}.get(n, '')
                hooks += (hook_nested(own, 'to_chunked_roinput', CHUNKED_CASES, CROI),) + (
                    (hook_nested(own, 'to_roinput', CASES, ROI),) if 'legacy' in n else ())
            yield n, outcome(P, FIXED[n]), hooks
            continue
        if n[:2] not in ('l_', 'c_'):
            continue
        ch = n[0] == 'c'
        b = P.bodies[P.find(r)]
        t = b['locals'][1]
        while P.types[t]['k'] == 'ref':
            t = P.types[t]['e']
        ty = short(P.types[t].get('path', '?'))
        own = 'CompressedPubKeyOptionHashableWrapper' if ty == 'Option' else ty
        m, cs, adt = ('to_chunked_roinput', CHUNKED_CASES, CROI) if ch else ('to_roinput', CASES, ROI)
        yield n, outcome(P, by_type(ty, ch)), BASE_HOOKS + PACKED + (hook_nested(own, m, cs, adt),)
