"""Which commands verify, which diffs and blocks do, what is signed, and what a built payload holds."""
from spec import *
from terms import *
from engine import *
from nodespec import Dead, explore, contradictory, possible, refute
import inputspec as S
from inputspec import fld, arg, good, same, adt_of, last, field, hook_opaque

def hook_valid(E, st, f, args, sp):
    res = hook_opaque(E, st, f, args, sp)
    E.refine(res[0][1], res[0][2], ((0, 1),))
    return res


HOOKS = ((lambda p: last(p) == 'opaque_valid', hook_valid), (lambda p: last(p).startswith('opaque_'), hook_opaque))


def hook_input(E, st, f, args, sp):
    v = S.deref(E, st, args[0])
    T = S.self_type(E.p, f)
    if T is None or S.short(T.get('path', '?')) != 'SignedCommandPayload':
        return None
    return [('ret', st, S.atom(S.ROI, 'SignedCommandPayload', v))]


SIGN = ((lambda p: last(p) == 'to_roinput', hook_input),) + HOOKS


def named(P, ty, v, name):
    """a field of a value, by the name of the field"""
    fs = P.adts[adt_of(P, ty)]['variants'][0]['fields']
    return [f[0] for f in fs].index(name)


def is_valid(t, E, c):
    """a signed command verifies if its signer is a public key for which the signature of the payload is right"""
    st = t.st
    f = lambda n: E.norm_deep(st, field(E, st, c, named(E.p, 'SignedCommand', c, n)))
    k = f('signer')
    x = E.norm(st, field(E, st, field(E, st, k, 0), 0))
    q = ('app', 'opaque_point_of_address', ('app', 'opaque_address_encode', E.norm_deep(st, x), E.norm_deep(st, field(E, st, k, 1))))
    if not t.test(('cmp', '==', ('discr', q), ZERO)):
        return False
    pk = ('agg', adt_of(E.p, 'PubKey'), 0, (('fld', q, 0, 0),))
    return t.test(('cmp', '==', ('app', 'opaque_valid', f('signature'), E.norm_deep(st, pk), f('payload')), ONE))


def command_of(E, st, v, ty):
    """the signed command inside a user command or a user command with its status"""
    if ty == 'UserCommandWithStatus':
        v, ty = field(E, st, v, named(E.p, ty, v, 'data')), 'UserCommand'
    if ty == 'UserCommand':
        v = E.norm(st, ('fld', v, 0, 0)) if v[0] != 'agg' else v[3][0]
    return v


def commands(E, st, d):
    return E.norm(st, field(E, st, d, named(E.p, 'StagedLedgerPreDiff', d, 'commands')))


def verdict(E, t, o):
    """what the path returns"""
    if o[0] == 'panic':
        if contradictory(E, t.st):
            raise Dead
        refute(E, t.st, 'panics (%s) at %s' % (o[2][0], o[2][1]), 'panic')
    v = E.norm(t.st, o[2])
    return v[1] == 1 if v[0] == 'i' else t.test(v if v[0] in ('pred', 'cmp') else ('cmp', '==', v, ONE))


def judge(E, t, o, want, why):
    got = verdict(E, t, o)
    if got != want:
        refute(E, t.st, '%s %s' % (why, 'is accepted' if got else 'is rejected'), 'accept' if got else 'reject')


def rule_command(ty):
    def rule(R, o):
        good(o)
        E = R.E

        def spec(t):
            c = command_of(E, t.st, arg(R), ty)
            ok = is_valid(t, E, c)
            judge(E, t, o, ok, 'a command that is %s' % ('rightly signed' if ok else 'not rightly signed'))
        explore(E, o[1], spec)
    return rule


# ---------------------------------------------------------------- lists of commands
def diff_lists(E, t, v, ty):
    """the lists of commands of a value, those that are there"""
    P, st = E.p, t.st
    if ty == 'ExternalTransition':
        v, ty = field(E, st, v, named(P, ty, v, 'staged_ledger_diff')), 'StagedLedgerDiff'
    if ty == 'StagedLedgerDiff':
        v = field(E, st, v, named(P, ty, v, 'diff'))
        a, b = field(E, st, v, 0), E.norm(st, field(E, st, v, 1))
        res = [commands(E, st, a)]
        some = t.test(('cmp', '==', ('discr', b), ONE)) if b[0] != 'agg' else b[2] == 1
        if some:
            res.append(commands(E, st, b[3][0] if b[0] == 'agg' else E.norm(st, ('fld', b, 1, 0))))
        return res
    return [commands(E, st, v)]


def fixed_lists(ns):
    return [[('sym', 'c%d_%d' % (k, i), None, ()) for i in range(n)] for k, n in enumerate(ns)]


def init_lists(ty, ns):
    """as many commands as ns says; the second diff is absent if there is only one number"""
    def init(E, st, args):
        P = E.p
        root = args[0][1]
        path, cur = [], ty
        for t, n in (('ExternalTransition', 'staged_ledger_diff'), ('StagedLedgerDiff', 'diff')):
            if cur == t:
                path.append(('f', None, named(P, t, None, n)))
                cur = 'StagedLedgerDiff'
        v = ('*', root[1])
        c = ('f', None, named(P, 'StagedLedgerPreDiff', None, 'commands'))
        ls = [mk_vec([('one', x) for x in l]) for l in fixed_lists(ns)]
        if cur == 'StagedLedgerPreDiff':
            v = E.set_proj(st, v, [c], ls[0])
        else:
            v = E.set_proj(st, v, path + [('f', None, 0), c], ls[0])
            v = E.set_proj(st, v, path + [('f', None, 1)], NONE if len(ls) < 2 else Some(
                E.set_proj(st, ('sym', 'second', None, ()), [c], ls[1])))
        E.write(st, (root, ()), v)
        return args
    return init


def rule_list(ty, ns=None):
    """a list is accepted exactly if each command is: a path that rejects names one that is not"""
    def rule(R, o):
        good(o)
        E = R.E

        def spec(t):
            got = verdict(E, t, o)
            st = t.st
            if ns is not None:
                for l in fixed_lists(ns):
                    for c in l:
                        if not is_valid(t, E, command_of(E, st, c, 'UserCommandWithStatus')):
                            return judge(E, t, o, False, 'a block with a command that is not rightly signed')
                return judge(E, t, o, True, 'a block whose commands are all rightly signed')
            for l in diff_lists(E, t, arg(R), ty):
                for i in elems(E, st, l):
                    if not is_valid(t, E, command_of(E, st, E.norm(st, seq_get(l, i)), 'UserCommandWithStatus')):
                        if got:
                            refute(E, st, 'a block is accepted with a command that is not rightly signed', 'accept')
                        return
            if not got:
                refute(E, st, 'a block is rejected although no command is found that is not rightly signed', 'reject')
        explore(E, o[1], spec)
    return rule


def const(E, st, l):
    return S.const_len(E, st, l)


def elems(E, st, l):
    """the positions of a list that the path speaks of"""
    res, seen = [], set()

    def walk(x):
        if not isinstance(x, tuple) or not x or id(x) in seen:
            return
        seen.add(id(x))
        if x[0] == 'elem' and x[1] == l and x[2] not in res:
            res.append(x[2])
        for y in x:
            walk(y)
    for k in st.facts:
        walk(k)
    n = const(E, st, l)
    if n is not None:
        res += [I(i) for i in range(n) if I(i) not in res]
    return res


def covered(R, ty):
    """whichever command of a list does not verify, one of the rejecting paths is the one for it: no other condition on that
    command, and on nothing else in the list, decides whether that path is taken"""
    E = R.E
    for o in R.outs:
        if o[0] != 'ret' or E.norm(o[1], o[2]) != TRUE:
            continue
        st = o[1]
        for l in lists_on(E, st, arg(R), ty):
            if const(E, st, l) == 0:
                continue
            left = {('discr', 1), ('valid', 0)}
            extra = None
            for q in R.outs:
                if q[0] != 'ret' or E.norm(q[1], q[2]) != FALSE:
                    continue
                for i in elems(E, q[1], l):
                    if i[0] != 'k':
                        continue
                    k, why = case_of(E, q[1], l, i)
                    if k and why is None:
                        left.discard(k)
                    elif why:
                        extra = why
            if left:
                raise Und('a command that %s does not always end in a rejection%s' % (
                    ' or '.join({'discr': 'has no valid signer', 'valid': 'has a wrong signature'}[k] for k, _ in sorted(left)),
                    '; the rejection also depends on ' + extra if extra else ''))


def limits(R):
    """a length beyond the positions that single paths speak of, if there are such"""
    m = -1
    for o in R.outs:
        for x, f in o[1].facts.items():
            if x[0] == 'k' and f[0] == 'iv' and f[1][-1][1] < 60:
                m = max(m, f[1][-1][1])
            for l in lists_on(R.E, o[1], arg(R), 'StagedLedgerPreDiff'):
                m = max([m] + [i[1] for i in elems(R.E, o[1], l) if i[0] == 'i' and i[1] < 60])
    return [m + 3] if m >= 0 else []


def lists_on(E, st, v, ty):
    """the lists of commands of a value on a path that decided which there are"""
    P = E.p
    if ty == 'ExternalTransition':
        v, ty = field(E, st, v, named(P, ty, v, 'staged_ledger_diff')), 'StagedLedgerDiff'
    if ty == 'StagedLedgerDiff':
        v = field(E, st, v, named(P, ty, v, 'diff'))
        b = E.norm(st, field(E, st, v, 1))
        res = [commands(E, st, field(E, st, v, 0))]
        if E.truth(st, ('cmp', '==', ('discr', b), ZERO)) != 1:
            res.append(commands(E, st, E.norm(st, ('fld', b, 1, 0))))
        return res
    return [commands(E, st, v)]


def case_of(E, st, l, i):
    """which defect of the command at a position the path is about, and what else about the list it depends on"""
    kind, why = None, None
    for x, f in st.facts.items():
        if x == i or isinstance(x, tuple) and x[0] == 'lin' and f == ('iv', ((-(2 ** 63) + 1, -1),)) or x == ('len', l):
            continue
        if not mentions(x, ('elem', l, i)):
            continue
        if x[0] == 'discr' and x[1][:2] == ('app', 'opaque_point_of_address'):
            if f == ('iv', ((1, 1),)):
                kind = 'discr', 1
        elif x[:2] == ('app', 'opaque_valid'):
            if f == ('iv', ((0, 0),)):
                kind = 'valid', 0
        elif f[0] == 'iv' and trivial(E, x, f):
            pass
        else:
            why = show(x)[:120]
    r = E.iv(st, i)
    if not r or r[0][0] != 0 or r[-1][1] < 2 ** 62:
        why = 'the position'
    d = E.iv(st, sub(i, ('len', l)))
    if not d or d[-1][1] != -1:
        why = 'the position'
    return kind, why


def trivial(E, x, f):
    """a fact that holds of every value: an enum of one variant"""
    return x[0] == 'discr' and f[1] == ((0, 0),) and x[1][0] in ('fld', 'elem')


def mentions(x, y):
    if x == y:
        return True
    return isinstance(x, tuple) and any(mentions(z, y) for z in x if isinstance(z, tuple))


# ---------------------------------------------------------------- signing and building
def rule_sign(R, o):
    """the command holds the payload, the signer's key and the signature of the payload for the network"""
    good(o)
    E, P = R.E, R.E.p

    def exp(t, E, st, R):
        p, k, n = R.args
        h = named(P, 'Keypair', k, 'secret'), named(P, 'Keypair', k, 'public')
        pt = field(E, st, field(E, st, k, h[1]), 0)
        kind = S.variant(t, E, n, adt_of(P, 'NetworkId'))
        q = ('app', 'opaque_sign', ZERO, ('discr', n), field(E, st, k, h[0]), pt,
             S.STR({'MAINNET': 'MinaSignatureMainnet', 'TESTNET': 'CodaSignature'}[kind]), S.atom(S.ROI, 'SignedCommandPayload', p))
        q = E.norm_deep(st, q)
        c = E.norm_deep(st, ('app', 'opaque_compress', pt))
        fp = lambda x: ('agg', S.FP, 0, (x,))
        key = ('agg', adt_of(P, 'CompressedPubKey'), 0, (fp(('fld', c, None, 0)), ('fld', c, None, 1)))
        sig = ('agg', adt_of(P, 'Signature'), 0, (fp(('fld', q, None, 0)), ('agg', adt_of(P, 'ScalarField'), 0, (('fld', q, None, 1),))))
        return make(E, 'SignedCommand', payload=p, signer=key, signature=sig)
    S.outcome(P, exp)(R, o)


def make(E, ty, variant=0, **fs):
    path = adt_of(E.p, ty)
    v = E.p.adts[path]['variants'][variant]
    return ('agg', path, variant, tuple(fs[f[0]] for f in v['fields']))


def newtype(E, ty, x):
    return ('agg', adt_of(E.p, ty), 0, (x,))


def rule_built(*sets):
    """each value the builder was given is in the field it is meant for; the others have their defaults"""
    def exp(t, E, st, R):
        frm, to, amount, fee, nonce = R.args[:5]
        v = dict(transfer_token=ONE, fee_token=ONE, fee_payer=frm, valid_until=I(2 ** 32 - 1),
                 memo=newtype(E, 'SignedCommandMemo', ('vec', (('one', ONE),) + (('one', ZERO),) * 33)))
        for n, x in zip(sets, R.args[5:]):
            v[n] = x
        common = make(E, 'SignedCommandPayloadCommon', fee=newtype(E, 'Amount', fee), fee_token=newtype(E, 'TokenId', v['fee_token']),
                      fee_payer_pk=v['fee_payer'], nonce=newtype(E, 'AccountNonce', nonce),
                      valid_until=newtype(E, 'GlobalSlotNumber', v['valid_until']), memo=v['memo'])
        pay = make(E, 'PaymentPayload', source_pk=frm, receiver_pk=to, token_id=newtype(E, 'TokenId', v['transfer_token']),
                   amount=newtype(E, 'Amount', amount))
        body = ('agg', adt_of(E.p, 'SignedCommandPayloadBody'), 0, (pay,))
        return make(E, 'SignedCommandPayload', common=common, body=body)
    return lambda R, o: S.outcome(R.E.p, exp)(R, o)


BUILT = {'built': (), 'built_token': ('transfer_token',), 'built_fee_token': ('fee_token',), 'built_payer': ('fee_payer',),
         'built_memo': ('memo',), 'built_until': ('valid_until',),
         'built_all': ('transfer_token', 'fee_token', 'fee_payer', 'memo', 'valid_until')}
LISTS = (('pre_diff', 'StagedLedgerPreDiff', [(n,) for n in (0, 1, 2, 3, 6)]),
         ('diff', 'StagedLedgerDiff', [(0,), (1,), (2,)] + [(a, b) for a in range(3) for b in range(3)]),
         ('block', 'ExternalTransition', [(1,), (0, 1), (1, 0), (1, 1)]))


def rules():
    """entry point, rule per path, rule for all paths, hooks, initial state"""
    yield 'command', rule_command('SignedCommand'), None, HOOKS, None
    yield 'user_command', rule_command('UserCommand'), None, HOOKS, None
    for n, ty, sizes in LISTS:
        yield n, rule_list(ty), (lambda R, ty=ty: covered(R, ty)), HOOKS, None
        for ns in sizes:
            yield n, rule_list(ty, ns), None, HOOKS, init_lists(ty, ns)
    for n in ('sign', 'sign_into'):
        yield n, rule_sign, None, SIGN, None
    for n, sets in BUILT.items():
        yield n, rule_built(*sets), None, HOOKS, None
