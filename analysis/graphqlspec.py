"""Strings converted by way of a text form, memos, and data of the GraphQL API: which entry and which form each part is read from."""
import hashlib
import re
import textspec as X
from spec import *
from terms import *
from engine import *
from inputspec import deref, last, good, adt_of
from models import ret, Some, NONE, ref_to
from nodespec import Dead, explore, contradictory
import nodespec
from textspec import STR, OBJ, VALUE, inner, outcome_value, the_input, tyname


# ---------------------------------------------------------------- the API as it is read
def key(v, *names):
    for n in names:
        v = ('app', 'key', v, n)
    return v


def hook_index(E, st, f, args, sp):
    """an entry of an object; null if there is none"""
    k = deref(E, st, args[1])
    if not str(f.get('rpath') or f.get('path') or '').endswith('index') or k[0] != 's':
        return None
    tys = [E.T[a] for a in f.get('args', []) if isinstance(a, int)]
    if not any(t.get('path') == VALUE for t in tys):
        return None
    return [('ret', st, ref_to(key(E.norm_deep(st, deref(E, st, args[0])), k[1])))]


def hook_get(E, st, f, args, sp):
    k = deref(E, st, args[1])
    if k[0] != 's':
        return None
    v = key(E.norm_deep(st, deref(E, st, args[0])), k[1])
    return [('ret', a, Some(ref_to(v)) if x else NONE) for x, a in E.split(st, ('not', ('cmp', '==', ('discr', v), ZERO)))]


def hook_bool(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    out = []
    for x, a in E.split(st, X.is_kind(v, 1)):
        b = E.norm(a, ('fld', v, 1, 0))
        E.refine(a, b, ((0, 1),))
        out.append(('ret', a, Some(b) if x else NONE))
    return out


def hook_address(E, st, f, args, sp):
    s = E.norm_deep(st, deref(E, st, args[0]))
    err = Err(('agg', 'PubKeyError', 0, ()))
    if s == ('s', ''):
        return [('ret', st, err)]
    return [('ret', a, Ok(('app', 'keyof', s)) if x else err) for x, a in E.split(st, ('pred', 'address', s))]


def hook_auth(E, st, f, args, sp):
    """the variant of that name"""
    rp = f.get('rpath') or ''
    if 'FromStr' not in rp and f.get('trait') != 'std::str::FromStr' or 'AuthRequired' not in rp + str(f.get('path')):
        return None
    s = E.norm_deep(st, deref(E, st, args[0]))
    err = Err(('agg', 'ParseError', 0, ()))
    if s == ('s', ''):
        return [('ret', st, err)]
    return [('ret', a, Ok(('app', 'auth', s)) if x else err) for x, a in E.split(st, ('pred', 'auth', s))]


def hook_sub(E, st, f, args, sp):
    """a part that has the same way of reading, which is an entry point of its own"""
    m = re.match(r'<([\w:]+) as [\w:]*FromGraphQLJson>::from_graphql_json', f.get('rpath') or f.get('path') or '')
    if not m or last(m.group(1)) not in SUBS:
        return None
    t, v = last(m.group(1)), E.norm_deep(st, deref(E, st, args[0]))
    r = ('app', 'sub', t, v)
    if t == 'Timing':
        return [('ret', st, Ok(r))]
    return [('ret', a, Ok(r) if x else Err(('agg', '#anyhow', 0, ()))) for x, a in E.split(st, ('pred', 'sub', t, v))]


def hook_anyhow(E, st, f, args, sp):
    return [('ret', st, ('agg', '#anyhow', 0, ()))]


def hook_or_default(E, st, f, args, sp):
    v = E.norm_deep(st, args[0])
    tid = [a for a in f.get('args', []) if isinstance(a, int)]
    T = E.T[tid[0]] if tid else {}
    if v[0] != 'agg' or len(v[3]) > 1:
        return None
    if v[2] == 1:
        return [('ret', st, v[3][0])]
    if T.get('k') == 'ref' and E.T[T['e']].get('k') == 'str':
        return [('ret', st, ref_to(('s', '')))]
    return None


def hook_parse(E, st, f, args, sp):
    s = E.norm_deep(st, deref(E, st, args[0]))
    tys = [E.T[a] for a in f.get('args', []) if isinstance(a, int)]
    T = tys[-1] if tys else {}
    m = re.search(r'FromStr for u(\d+)>', str(f.get('rpath')) + str(f.get('path')))
    if not m and (T.get('k') != 'int' or T.get('sg')):
        return None
    w = int(m.group(1)) if m else T['w']
    if s[0] == 's':
        v = int(s[1]) if re.fullmatch(r'\+?[0-9]+', s[1], re.A) else 1 << w
        return [('ret', st, Ok(I(v)) if v < 1 << w else Err(('agg', 'ParseIntError', 0, ())))]
    out = []
    for x, a in E.split(st, ('pred', 'u%d' % w, s)):
        if x:
            E.refine(a, ('app', 'num', s), ((0, (1 << w) - 1),))
        out.append(('ret', a, Ok(('app', 'num', s)) if x else Err(('agg', 'ParseIntError', 0, ()))))
    return out


FP = 28948022309329048855892746252171976963363056481941560715954676764349967630337


def hook_radix(E, st, f, args, sp):
    """a number written in the program"""
    s, r = deref(E, st, args[0]), deref(E, st, args[1])
    try:
        v = int(s[1], r[1]) if s[0] == 's' and r[0] == 'i' else None
    except ValueError:
        return None
    return None if v is None or v >= FP else [('ret', st, Ok(('app', 'field', I(v))))]


ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def base58_kind(s):
    """the first byte of a base58 text with a valid checksum"""
    n = 0
    for c in s:
        if c not in ALPHABET:
            return None
        n = n * 58 + ALPHABET.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    b = b'\0' * (len(s) - len(s.lstrip('1'))) + b
    if len(b) < 5 or hashlib.sha256(hashlib.sha256(b[:-4]).digest()).digest()[:4] != b[-4:]:
        return None
    return b[0]


def hook_json_text(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    t = tyname(E, f)
    m = re.search(r'Base58\w*<(\d+),', t)
    if last(f.get('rpath') or f.get('path')) == 'from_str' and m and v[0] == 'app' and v[1] == 'jsontext' and v[2][0] == 's' and v[2][1]:
        if base58_kind(v[2][1]) == int(m.group(1)):
            return [('ret', st, Ok(('app', 'read', t, v[2])))]
    return X.hook_json_text(E, st, f, args, sp)


HOOKS = (
    (lambda p: 'Option' in p and last(p) == 'unwrap_or_default', hook_or_default), (lambda p: 'Field::' in p and last(p) == 'from_str_radix', hook_radix),
    (lambda p: 'str' in p and last(p) == 'parse' or 'num::' in p and last(p) == 'from_str', hook_parse), (lambda p: last(p) == 'index', hook_index), (lambda p: 'Value::' in p and last(p) == 'get', hook_get),
    (lambda p: 'Value::' in p and last(p) == 'as_bool', hook_bool),
    (lambda p: 'CompressedPubKey' in p and last(p) == 'from_address', hook_address), (lambda p: last(p) == 'from_str' and 'serde_json' not in p, hook_auth),
    (lambda p: p.startswith('serde_json') and last(p) in ('to_string', 'from_str'), hook_json_text),
    (lambda p: p.startswith('anyhow::') and last(p) in ('from', 'format_err', 'msg'), hook_anyhow),
) + X.HOOKS


# ---------------------------------------------------------------- are the facts of a path satisfiable
def is_key(v):
    while v[0] == 'app' and v[1] == 'key':
        v = v[2]
    return v[0] in ('sym', '*')


def is_string(v):
    return v[0] in ('sym', '*') or v[0] == 'fld' and v[2] == STR and is_key(v[1])


def kind_of_text(p):
    """what kind of text a predicate asks for; texts of different kinds are disjoint, and some text is of none of them"""
    if p[1] != 'readable':
        return p[1]
    m = re.search(r'Base58\w*<(\d+),', p[2])
    return 'b58:' + m.group(1) if m else 'form:' + p[2]


def jointly(E, st):
    """the facts ask of independent entries and strings what some JSON value fulfils"""
    texts = {}
    objects = set()
    keys = [t[1] for t in st.facts if isinstance(t, tuple) and t[0] == 'discr']
    for t, f in st.facts.items():
        if f[0] != 'iv' or not isinstance(t, tuple):
            return False
        iv = f[1]
        if not iv:
            return False
        if t[0] == 'discr' and is_key(t[1]):
            if not iv_meet(iv, ((0, 5),)):
                return False
            if not iv_meet(iv, ((0, 0),)) and t[1][0] == 'app':
                objects.add(t[1][2])
        elif t[0] == 'fld' and t[2] == 1 and is_key(t[1]):
            if not iv_meet(iv, ((0, 1),)):
                return False
        elif t[0] == 'pred' and t[1] == 'writable':
            pass
        elif t[0] == 'pred' and t[1] == 'sub':
            if t[3][0] == 'app':
                objects.add(t[3][2])
            if any(x[0] == 'app' and x[1] == 'key' and x[2] == t[3] for x in keys) and t[3][0] == 'app':
                return False
        elif t[0] == 'pred' and is_string(t[-1]):
            texts.setdefault(t[-1], []).append((kind_of_text(t), iv))
        elif t[0] == 'app' and t[1] == 'num' and is_string(t[2]):
            texts.setdefault(t[2], []).append(('num', iv))
        elif t[0] == 'len' and t[1][0] == 'app' and t[1][1] == 'unhex' and is_string(t[1][2]):
            if not iv_meet(iv, ((0, 1 << 40),)):
                return False
        elif t[0] == 'len' and t[1][0] == 'fld' and t[1][1][0] == 'app' and t[1][1][1] == 'read':
            if not iv_meet(iv, ((32, 32),)):
                return False
        else:
            return False
    for o in objects:
        if o[0] == 'app' and not iv_meet(E.iv(st, ('discr', o)), ((OBJ, OBJ),)):
            return False
    for s, fs in texts.items():
        if s[0] == 'fld' and E.truth(st, ('cmp', '==', ('discr', s[1]), I(STR))) != 1:
            return False
        yes = {k for k, iv in fs if k != 'num' and iv == ((1, 1),)}
        ints = {k for k in yes if re.fullmatch(r'u\d+', k)}
        if yes - ints and ints or len(yes - ints) > 1:
            return False
        if any(iv == ((0, 0),) and k in yes for k, iv in fs):
            return False
        if ints:
            lo = max([-1] + [(1 << int(k[1:])) - 1 for k, iv in fs if re.fullmatch(r'u\d+', k) and iv == ((0, 0),)]) + 1
            hi = min((1 << int(k[1:])) - 1 for k in ints)
            q = ((lo, hi),)
            for k, iv in fs:
                q = iv_meet(q, iv) if k == 'num' else q
            if lo > hi or not q:
                return False
    return True


def refute(E, st, msg, kind='value'):
    if contradictory(E, st):
        raise Dead
    counts = lambda t: t[0] == 'k' or t[0] == 'lin' and all(x[0] in ('k', 'len') for x, _ in t[2])
    if all(counts(t) for e in st.ev if e[0] == 'loop' for alt in e[6] for t, _ in alt) and jointly(E, st):
        raise Bad(msg, kind, st)
    nodespec.refute(E, st, msg, kind)


# ---------------------------------------------------------------- strings by way of a text form
FORMS = {'body_hash': '<17,', 'state_hash': '<16,', 'ledger_hash': '<5,', 'chain_hash': '<5,', 'coinbase_hash': '<12,', 'epoch_seed': '<13,', 'aux': '<14,',
         'pending_aux': '<15,', 'vrf_hash': '<21,', 'vrf64': 'VrfOutputTruncatedBase64Json$', 'vrf58': 'VrfOutputTruncatedBase58Json$',
         'memo': 'SignedCommandMemoJson$', 'char': 'CharJson$', 'point': 'PublicKeyJson$'}
SUBS = ('Timing', 'Permissions', 'EpochLedger', 'EpochData', 'BlockchainState', 'ConsensusState', 'ProtocolStateBody')
SOURCES = ('read', 'num', 'keyof', 'auth', 'unhex', 'written', 'unbp')


def sources(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and t[1] in SOURCES:
            out.add(t)
        else:
            for x in t:
                sources(x, out)
    return out


def rule_of_string(form):
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        kind, got = outcome_value(E, st, o)
        s = E.norm_deep(st, deref(E, st, the_input(R, 's' if any(n == 's' for n, _ in R.body['names']) else 'v')))
        if any(n == 'v' for n, _ in R.body['names']):
            k = E.truth(st, ('cmp', '==', ('discr', s), I(STR)))
            if k == 0:
                if kind == 'ok':
                    refute(E, st, 'a value that is no string is read', 'accepted')
                if kind == 'panic':
                    refute(E, st, 'reading panics (%s)' % o[2][0], 'panic')
                return
            if k is None:
                raise Und('kind of value not looked at')
            s = E.norm(st, ('fld', s, STR, 0))
        if kind == 'panic':
            refute(E, st, 'reading panics (%s)' % o[2][0], 'panic')
        if kind == 'err':
            if any(t[0] == 'pred' and t[1] == 'readable' and t[3] == s and re.search(form, t[2]) and f[0] == 'iv' and f[1] == ((0, 0),)
                   for t, f in st.facts.items() if isinstance(t, tuple)):
                return
            if any(t[0] == 'pred' and t[1] == 'readable' and t[3] != s for t in st.facts if isinstance(t, tuple)):
                raise Und('another text is looked at')
            refute(E, st, 'a valid text is refused', 'refused')
        src = sources(got)
        if len(src) != 1:
            raise Und('read from %s' % ', '.join(show(x)[:60] for x in src))
        x, = src
        if x[1] == 'read' and x[3][0] == 'strfn' and x[3][1].startswith('trim') and x[3][2] == s:
            raise Bad('a text with blanks before or after it is read', 'accepted', st)
        if x[1] != 'read' or x[3] != s:
            raise Und('read from ' + show(x)[:100])
        if not re.search(form, x[2]):
            refute(E, st, 'is read as a text of the form %s' % x[2][-70:], 'form')
    return rule


def rule_to_string(form):
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        kind, got = outcome_value(E, st, o)
        if kind == 'panic':
            refute(E, st, 'writing panics (%s)' % o[2][0], 'panic')
        if kind == 'err':
            if any(t[0] == 'pred' and t[1] == 'writable' and f[0] == 'iv' and f[1] == ((0, 0),) for t, f in st.facts.items() if isinstance(t, tuple)):
                return
            refute(E, st, 'is not written', 'refused')
        v = X.text_written(E, st) if got == UNIT else got
        if v == ('s', ''):
            refute(E, st, 'nothing is written', 'value')
        v = E.norm_deep(st, v)
        if v[0] == 'app' and v[1] == 'text' and len(v[2]) == 1 and v[2][0][0] == 'disp':
            v = v[2][0][1]
        if v[0] == 'app' and v[1] == 'text' and any(p[0] == 's' for p in v[2]):
            refute(E, st, 'is written with additional text', 'value')
        if v[0] != 'app' or v[1] != 'written':
            raise Und('writes ' + show(v)[:100])
        if not re.search(form, v[2]):
            refute(E, st, 'is written as a text of the form %s' % v[2][-70:], 'form')
    return rule


# ---------------------------------------------------------------- memos
TEXT_LEN = 32


def init_memo(n):
    def init(E, st, args):
        E.write(st, (args[0][1], ()), mk_vec([('one', ('sym', 'b', i, ())) for i in range(n)]))
        return args
    return init


def rule_memo(n, back):
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        if o[0] == 'panic':
            refute(E, st, 'panics (%s)' % o[2][0], 'panic')
        v = E.norm_deep(st, o[2])
        if v[0] != 'agg':
            raise Und('result ' + show(v)[:100])
        fits = n <= TEXT_LEN
        if (v[2] == (1 if back else 0)) != fits:
            refute(E, st, 'a text of %d bytes is %s' % (n, 'refused' if fits else 'not refused'), 'length')
        if not fits:
            return
        b = [('one', ('sym', 'b', i, ())) for i in range(n)]
        if back:
            x = v[3][0]
            got = x[2] if x[0] == 'app' and x[1].startswith('from_utf8') else None
            if got is not None and got and isinstance(got[0], tuple):
                got = got[0]
            want = mk_vec(b)
        else:
            got = inner(E, st, v[3][0])
            want = mk_vec([('one', ONE), ('one', I(n))] + b + [('one', ZERO)] * (TEXT_LEN - n))
        if got is None:
            raise Und('result ' + show(v)[:100])
        g, w = seq_list(E, st, got), seq_list(E, st, want)
        if g is None:
            raise Und('result ' + show(v)[:100])
        if g != w:
            refute(E, st, 'the %s of %d bytes is [%s], not [%s]' % ('text of a memo of a text' if back else 'memo of a text', n,
                   ', '.join(map(show, g)), ', '.join(map(show, w))), 'value')
    return rule


def seq_list(E, st, v):
    n = E.norm(st, seq_len(v))
    if not is_c(n) or n[1] > 100:
        return None
    return [E.norm(st, seq_get(v, I(i))) for i in range(n[1])]


def rule_no_panic(R, o):
    good(o)
    if o[0] == 'panic':
        refute(R.E, o[1], 'panics (%s)' % o[2][0], 'panic')


# ---------------------------------------------------------------- GraphQL entries
def num(bits, *k):
    return ('num', bits, k)


def text(form, *k):
    return ('text', form, k)


def addr(*k):
    return ('addr', None, k)


def flag(*k):
    return ('flag', None, k)


def auth(*k):
    return ('auth', None, k)


def hexs(*k):
    return ('hex', None, k)


def opt(x):
    return ('opt', x, None)


def sub(ty, tab, *k):
    """a part with a table of its own, in the entry of that name"""
    return ('sub', (ty, tab), k)


def under(ks, tab):
    """the table for a value that is found in an entry"""
    if isinstance(tab, dict):
        return {f: under(ks, x) for f, x in tab.items()}
    if tab[0] == 'opt':
        return opt(under(ks, tab[1]))
    return tab[:2] + (ks + tab[2],)


LEDGER, STATE, SEED, COINBASE, AUX, PENDING, CHAIN = '<5,', '<16,', '<13,', '<12,', '<14,', '<15,', '<5,'
PERMISSIONS = {f: auth(k) for f, k in (
    ('edit_state', 'editState'), ('send', 'send'), ('receive', 'receive'), ('set_delegate', 'setDelegate'), ('set_permissions', 'setPermissions'),
    ('set_verification_key', 'setVerificationKey'), ('set_zkapp_uri', 'setZkappUri'), ('edit_sequence_state', 'editSequenceState'),
    ('set_token_symbol', 'setTokenSymbol'), ('increment_nonce', 'incrementNonce'), ('set_voting_for', 'setVotingFor'))}
TIMED = {'initial_minimum_balance': num(64, 'initialMinimumBalance'), 'cliff_time': num(64, 'cliffTime'), 'cliff_amount': num(64, 'cliffAmount'),
         'vesting_period': num(64, 'vestingPeriod'), 'vesting_increment': num(64, 'vestingIncrement')}
EPOCH_LEDGER = {'hash': text(LEDGER, 'hash'), 'total_currency': num(64, 'totalCurrency')}
EPOCH = {'ledger': sub('EpochLedger', EPOCH_LEDGER, 'ledger'), 'seed': text(SEED, 'seed'), 'start_checkpoint': text(STATE, 'startCheckpoint'),
         'lock_checkpoint': text(STATE, 'lockCheckpoint'), 'epoch_length': num(32, 'epochLength')}
BLOCKCHAIN = {'staged_ledger_hash': {'non_snark': {'ledger_hash': text(LEDGER, 'stagedLedgerHash'), 'aux_hash': text(AUX, 'stagedLedgerAuxHash'),
                                                   'pending_coinbase_aux': text(PENDING, 'stagedLedgerPendingCoinbaseAux')},
                                     'pending_coinbase_hash': text(COINBASE, 'stagedLedgerPendingCoinbaseHash')},
              'genesis_ledger_hash': text(LEDGER, 'genesisLedgerHash'), 'registers': {'ledger': text(LEDGER, 'snarkedLedgerHash')},
              'timestamp': num(64, 'utcDate'), 'body_reference': hexs('bodyReference')}
CONSENSUS = {'blockchain_length': num(32, 'blockHeight'), 'epoch_count': num(32, 'epochCount'), 'min_window_density': num(32, 'minWindowDensity'),
             'last_vrf_output': text('VrfOutputTruncatedBase58Json$', 'lastVrfOutput'), 'total_currency': num(64, 'totalCurrency'),
             'curr_global_slot': {'slot_number': num(32, 'slot')}, 'global_slot_since_genesis': num(32, 'slotSinceGenesis'),
             'staking_epoch_data': sub('EpochData', EPOCH, 'stakingEpochData'), 'next_epoch_data': sub('EpochData', EPOCH, 'nextEpochData'),
             'has_ancestor_in_same_checkpoint_window': flag('hasAncestorInSameCheckpointWindow'), 'block_stake_winner': addr('blockStakeWinner'),
             'block_creator': addr('blockCreator'), 'coinbase_receiver': addr('coinbaseReceiever'), 'supercharge_coinbase': flag('superchargedCoinbase')}
BODY = {'blockchain_state': sub('BlockchainState', BLOCKCHAIN, 'blockchainState'), 'consensus_state': sub('ConsensusState', CONSENSUS, 'consensusState')}
PSTATE = {'previous_state_hash': text(STATE, 'previousStateHash'), 'body': sub('ProtocolStateBody', BODY)}
ACCOUNT = {'public_key': addr('publicKey'), 'token_id': num(64, 'token'), 'balance': num(64, 'balance', 'total'),
           'token_permissions': ('token', None, ()), 'nonce': num(32, 'nonce'), 'receipt_chain_hash': text(CHAIN, 'receiptChainHash'),
           'delegate': opt(addr('delegate')), 'voting_for': text(STATE, 'votingFor'), 'timing': sub('Timing', ('timing', None, ()), 'timing'),
           'permissions': sub('Permissions', PERMISSIONS, 'permissions')}
TABLES = {'g_account': ('Account', ACCOUNT), 'g_permissions': ('Permissions', PERMISSIONS), 'g_timed': ('TimedData', TIMED), 'g_timing': ('Timing', ('timing', None, ())),
          'g_epoch_ledger': ('EpochLedger', EPOCH_LEDGER), 'g_epoch_data': ('EpochData', EPOCH), 'g_blockchain': ('BlockchainState', BLOCKCHAIN),
          'g_consensus': ('ConsensusState', CONSENSUS), 'g_body': ('ProtocolStateBody', BODY), 'g_state': ('ProtocolState', PSTATE)}


def entry(E, st, J, x):
    """(is the entry valid on this path: 1, 0 or None; the term of what it denotes; the condition that is still open)"""
    kind, par, ks = x
    v = key(J, *ks)
    if kind == 'sub':
        return E.truth(st, ('pred', 'sub', par[0], v)), None
    if kind == 'flag':
        return 1, None
    is_str = E.truth(st, ('cmp', '==', ('discr', v), I(STR)))
    if is_str == 0:
        return 0, None
    S = E.norm(st, ('fld', v, STR, 0))
    if kind == 'num':
        p, r = ('pred', 'u%d' % par, S), ('app', 'num', S)
    elif kind == 'addr':
        p, r = ('pred', 'address', S), ('app', 'keyof', S)
    elif kind == 'auth':
        p, r = ('pred', 'auth', S), ('app', 'auth', S)
    elif kind == 'hex':
        a, r = E.truth(st, ('pred', 'hex', S)), ('app', 'unhex', S)
        q = E.iv(st, seq_len(r))
        n = None if a != 1 else 1 if q == ((32, 32),) else 0 if not iv_meet(q, ((32, 32),)) else None
        return 0 if 0 in (a, n) else 1 if a == n == 1 and is_str == 1 else None, r
    else:
        c = [(t, f) for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'pred' and t[1] == 'readable' and t[3] == S and re.search(par, t[2])]
        if not c:
            return None, None
        p, r = c[0][0], ('app', 'read', c[0][0][2], S)
    a = E.truth(st, p)
    return 0 if a == 0 else 1 if a == 1 and is_str == 1 else None, r


def leaves(tab):
    if isinstance(tab, dict):
        for x in tab.values():
            yield from leaves(x)
    elif tab[0] == 'sub':
        yield tab
        yield from leaves(under(tab[2], tab[1][1]))
    else:
        yield tab


def name_of(x):
    return '.'.join(x[2])


def compare(E, st, J, got, ty, tab, where):
    """the parts of a value that is read against the table"""
    got = E.norm_deep(st, got)
    if isinstance(tab, dict):
        if got[0] != 'agg':
            raise Und('%s is %s' % (where, show(got)[:100]))
        fs = [f[0] for f in E.p.adts[got[1]]['variants'][0]['fields']]
        for f, x in tab.items():
            if f not in fs:
                raise Und('no field ' + f)
            compare(E, st, J, got[3][fs.index(f)], None, x, (where + '.' if where else '') + f)
        return
    kind = tab[0]
    if kind == 'sub':
        v = key(J, *tab[2])
        if got[0] == 'app' and got[1] == 'sub':
            if got[2] != tab[1][0] or got[3] != v:
                refute(E, st, '%s is %s, not the entry "%s"' % (where, show(got)[:100], name_of(tab)), 'value')
            return
        compare(E, st, J, got, None, under(tab[2], tab[1][1]), where)
        return
    if kind == 'opt':
        k = E.truth(st, ('cmp', '==', ('discr', key(J, *tab[1][2])), I(STR)))
        if got[0] != 'agg' or k is None:
            raise Und('%s is %s' % (where, show(got)[:100]))
        if got[2] != k:
            refute(E, st, '%s is %s though "%s" is %s' % (where, 'absent' if k else 'present', name_of(tab[1]), 'present' if k else 'absent'), 'value')
        if k:
            compare(E, st, J, got[3][0], None, tab[1], where)
        return
    if kind == 'timing':
        tab = under(tab[2], TIMED)
        oks = [entry(E, st, J, x)[0] for x in leaves(tab)]
        want = 1 if all(k == 1 for k in oks) else 0 if 0 in oks else None
        if got[0] != 'agg' or want is None:
            raise Und('%s is %s' % (where, show(got)[:100]))
        is_timed = variant(E, got) == 'Timed'
        if is_timed != bool(want):
            refute(E, st, '%s is %s though its entries are %s' % (where or 'timing', variant(E, got), 'valid' if want else 'not all valid'), 'value')
        if is_timed:
            compare(E, st, J, got[3][0], None, tab, where)
        return
    if kind == 'token':
        owner, disabled = (bool_of(E, st, J, *tab[2], k) for k in ('isTokenOwner', 'isDisabled'))
        k = None if owner is None else E.truth(st, ('cmp', '==', owner, ONE))
        if got[0] != 'agg' or k is None:
            raise Und('%s is %s' % (where, show(got)[:100]))
        w = 'TokenOwned' if k else 'NotOwned'
        if variant(E, got) != w:
            refute(E, st, '%s is %s though isTokenOwner is %s' % (where, variant(E, got), show(owner)), 'value')
        same_term(E, st, got[3][0], disabled, where, 'isDisabled')
        return
    if kind == 'flag':
        same_term(E, st, got, bool_of(E, st, J, *tab[2]), where, name_of(tab))
        return
    ok, want = entry(E, st, J, tab)
    if ok == 0:
        refute(E, st, '%s is read although "%s" is not valid' % (where, name_of(tab)), 'accepted')
    if want is None:
        src = sources(got)
        if src or is_c(inner(E, st, got)):
            refute(E, st, '%s is %s, not the entry "%s" in its form' % (where, ', '.join(show(x)[:120] for x in src) or show(got)[:60], name_of(tab)), 'value')
        raise Und('%s is %s' % (where, show(got)[:100]))
    if kind == 'num':
        same_term(E, st, got, want, where, name_of(tab))
        return
    src = sources(got)
    if src != {want}:
        if src or is_c(inner(E, st, got)):
            refute(E, st, '%s is %s, not the entry "%s"' % (where, ', '.join(show(x)[:100] for x in src) or show(got)[:60], name_of(tab)), 'value')
        raise Und('%s is %s' % (where, show(got)[:100]))
    if ok is None:
        raise Und('"%s" is not looked at' % name_of(tab))


def variant(E, v):
    return E.p.adts[v[1]]['variants'][v[2]]['name']


def bool_of(E, st, J, *ks):
    """an entry that is a boolean; false if there is none"""
    v = key(J, *ks)
    k = E.truth(st, ('cmp', '==', ('discr', v), ONE))
    return None if k is None else ZERO if k == 0 else E.norm(st, ('fld', v, 1, 0))


def same_term(E, st, got, want, where, name):
    got = E.norm_deep(st, inner(E, st, E.norm_deep(st, got)))
    if want is None:
        raise Und('%s: "%s" is not looked at' % (where, name))
    want = E.norm_deep(st, want)
    if got == want:
        return
    if got[0] in ('app', 'fld', 'i', 'lin', 'not', 'cmp') or is_c(got):
        r = E.truth(st, ('cmp', '==', got, want))
        if r != 1:
            refute(E, st, '%s is %s, not the entry "%s"' % (where, show(got)[:100], name), 'value')
        return
    raise Und('%s is %s' % (where, show(got)[:100]))


def rule_graphql(ty, tab):
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        J = E.norm_deep(st, deref(E, st, the_input(R, 'json')))
        kind, got = outcome_value(E, st, o)
        if kind == 'panic':
            refute(E, st, 'reading panics (%s)' % o[2][0], 'panic')
        if kind == 'ok':
            compare(E, st, J, got, ty, tab, '')
            return
        # an error needs an entry that is not valid
        for x in leaves(tab):
            if x[0] == 'opt':
                if E.truth(st, ('cmp', '==', ('discr', key(J, *x[1][2])), I(STR))) == 1 and entry(E, st, J, x[1])[0] == 0:
                    return
            elif x[0] not in ('timing', 'token', 'flag') and entry(E, st, J, x)[0] == 0:
                return
        refute(E, st, 'is refused although every entry is valid', 'refused')
    return rule


def graphql_rules():
    """(entry point, rule, hooks): the parts of a value are entry points of their own, but for the value itself"""
    def hooks(ty):
        return ((lambda p: p.endswith('from_graphql_json') and ('::%s as' % ty) not in p, hook_sub),) + HOOKS
    return [(n, rule_graphql(ty, tab), hooks(ty)) for n, (ty, tab) in TABLES.items()]


def string_rules():
    """(entry point, rule, initial values)"""
    out = []
    for n, form in FORMS.items():
        out += [('s_' + n, rule_of_string(form), None), ('d_' + n, rule_to_string(form), None)]
    for n in ('ledger_hash', 'coinbase_hash', 'aux', 'pending_aux'):
        out.append(('v_' + n, rule_of_string(FORMS[n]), None))
    for n in range(TEXT_LEN + 4):
        out += [('memo_of', rule_memo(n, False), init_memo(n)), ('memo_back', rule_memo(n, True), init_memo(n))]
    out.append(('memo_text', rule_no_panic, None))
    return out
