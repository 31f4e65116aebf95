"""Wallet files (secrets/src): the ciphers are opaque functions, the parts of the JSON text are symbolic."""
from spec import *
from terms import *
from engine import *
import models
import nodespec
import textspec as X
from inputspec import deref, last
from treespec import result, definite

NAMES = ('box_primitive', 'pw_primitive', 'nonce', 'pwsalt', 'pwdiff', 'ciphertext')
KIND = 2


def hook_from_str(E, st, f, args, sp):
    """what is read from a JSON text: one value for each text, or an error"""
    v = E.norm_deep(st, deref(E, st, args[0]))
    return [('ret', a, Ok(('app', 'wallet', v)) if x else Err(('agg', '#json', 0, ()))) for x, a in E.split(st, ('pred', 'json', v))]


def hook_to_str(E, st, f, args, sp):
    return [('ret', st, Ok(('app', 'jsontext', E.norm_deep(st, deref(E, st, args[0])))))]


def hook_array(E, st, f, args, sp):
    return [('ret', st, ref_to(('agg', 'GenericArray', 0, (E.norm_deep(st, deref(E, st, args[0])),))))]


def hook_filled(E, st, f, args, sp):
    return [('ret', st, ref_to(E.norm_deep(st, deref(E, st, args[0]))))]


def hook_result(E, st, f, args, sp):
    """a function of its arguments that may fail"""
    n = last(f.get('rpath') or f.get('path'))
    t = ('app', n) + tuple(E.norm_deep(st, deref(E, st, a)) for a in args)
    err = Err(('agg', '#' + n, 0, ()))
    if n == 'opaque_argon2':
        out = []
        for x, a in E.split(st, ('pred', 'ok', t)):
            if not x:
                out.append(('ret', a, err))
                continue
            out += [('ret', b, Ok(Some(t) if y else NONE)) for y, b in E.split(a, ('pred', 'some', t))]
        return out
    return [('ret', a, Ok(t) if x else err) for x, a in E.split(st, ('pred', 'ok', t))]


at = X.at
HOOKS = ((lambda p: p.startswith('serde_json') and last(p) in ('from_str', 'from_slice'), hook_from_str),
         (lambda p: p.startswith('serde_json') and last(p) in ('to_string', 'to_string_pretty'), hook_to_str),
         (at('opaque_array'), hook_array), (at('opaque_filled'), hook_filled),
         (at('opaque_argon2', 'opaque_decrypt', 'opaque_keypair'), hook_result)) + tuple(
    h for h in X.HOOKS if h[1] in (X.hook_arg, X.hook_args, X.hook_format, X.hook_to_string, X.hook_b58e, X.hook_b58d, X.hook_hex))


class Wallet:
    """what the text of a wallet says, as terms, and what is required of it"""

    def __init__(self, R, o):
        E, st = self.E, self.st = R.E, o[1]
        got = {t[2] for t in st.facts if isinstance(t, tuple) and t[0] == 'pred' and t[1] == 'json'}
        if len(got) != 1:
            raise Und('the text is not read as one JSON text')
        self.text = got.pop()
        adts = [a for k, a in E.p.adts.items() if last(k) == 'SecretBoxJson']
        if len(adts) != 1:
            raise Und('there is no type SecretBoxJson')
        self.names = [f[0] for f in adts[0]['variants'][0]['fields']]
        if sorted(self.names) != sorted(NAMES):
            raise Und('the fields of a wallet are %s' % ', '.join(self.names))
        for i, n in enumerate(self.names):
            setattr(self, n, ('fld', ('app', 'wallet', self.text), None, i))
        self.mem, self.ops = (('elem', self.pwdiff, I(i)) for i in (0, 1))
        self.salt, self.nonce_bytes, self.cipher = (('app', 'b58bytes', x) for x in (self.pwsalt, self.nonce, self.ciphertext))

    def form(self):
        """required of every wallet that is read"""
        yield 'it is a JSON text', ('pred', 'json', self.text)
        yield 'the cipher is xsalsa20poly1305', ('streq', self.box_primitive, ('s', 'xsalsa20poly1305'))
        yield 'the password hash is argon2i', ('streq', self.pw_primitive, ('s', 'argon2i'))
        for n in ('nonce', 'pwsalt', 'ciphertext'):
            x = getattr(self, n)
            yield n + ' is base58 with its checksum', ('pred', 'b58', x)
            yield '%s has the kind %d' % (n, KIND), ('cmp', '==', X.b58_kind(self.E, self.st, x), I(KIND))
        yield 'the salt has at least 3 bytes', ('cmp', '<=', I(3), ('len', self.salt))
        yield 'the salt has at most 48 bytes', ('cmp', '<=', ('len', self.salt), I(48))

    def use(self):
        """required of every wallet that is opened"""
        d = ('div', self.mem, I(1024))
        yield 'the nonce has 24 bytes', ('cmp', '==', ('len', self.nonce_bytes), I(24))
        yield 'the memory is at least 8 KiB', ('cmp', '<=', I(8), d)
        yield 'the memory is at most 2^32-1 KiB', ('cmp', '<=', d, I((1 << 32) - 1))
        yield 'there is at least one pass', ('cmp', '<=', ONE, self.ops)
        yield 'there are at most 2^32-1 passes', ('cmp', '<=', self.ops, I((1 << 32) - 1))

    def key(self):
        return ('app', 'opaque_argon2', ONE, I(0x13), ('div', self.mem, I(1024)), self.ops, ONE, ('*', ('sym', 'password', 0, ())), self.salt)

    def plain(self):
        return ('app', 'opaque_decrypt', self.key(), self.nonce_bytes, self.cipher)

    def opening(self):
        yield 'there is a hash of the password', ('pred', 'ok', self.key())
        yield 'the hash of the password is not empty', ('pred', 'some', self.key())
        yield 'the text is authentic', ('pred', 'ok', self.plain())
        yield 'what is decrypted is not empty', ('cmp', '<=', ONE, ('len', self.plain()))


def worlds(E, st, conds):
    """(state, the first condition that does not hold or None)"""
    for i, (name, c) in enumerate(conds):
        for x, a in E.split(st, c):
            if not x:
                yield a, name
        st = next((a for x, a in E.split(st, c) if x), None)
        if st is None:
            return
    yield st, None


def is_ok(lab, v):
    if v[0] != 'agg' or not v[1].endswith('Result'):
        raise Und('%s: %s' % (lab, show(v)[:120]))
    return v[2] == 0


def check(R, o, lab, must, may, same):
    """an error where one of `must` fails, a value where all hold and all of `may` hold"""
    definite(R, lab)
    v = result(o, lab)
    W = Wallet(R, o)
    good = is_ok(lab, v)
    for st, why in worlds(R.E, o[1], list(must(W))):
        if why is not None:
            if good:
                raise Bad('%s: accepted although not: %s' % (lab, why))
            continue
        if good:
            same(W, st, v[3][0])
            continue
        for a, why in worlds(R.E, st, list(may(W))):
            if why is None:
                raise Bad('%s: refused although nothing is wrong with it' % lab)


def bytes_are(E, st, lab, v, src, rev):
    """v is src without its first byte, reversed if so asked"""
    v, n = E.norm_deep(st, v), sub(('len', src), ONE)
    if E.norm(st, sub(seq_len(v), n)) != ZERO:
        raise Bad('%s: not as many bytes as were decrypted behind the first: %s' % (lab, show(v)[:160]))
    k = ('sym', 'i', 0, ())
    st = next((a for x, a in E.split(st, ('cmp', '<=', ZERO, k)) if x), None)
    st = next((a for x, a in E.split(st, ('cmp', '<', k, n)) if x), None)
    for i in (k, ZERO):
        got = E.norm_deep(st, seq_get(v, i))
        want = ('elem', src, E.norm(st, sub(n, i) if rev else add(i, ONE)))
        if got != want and E.norm(st, got) != E.norm(st, want):
            if got[:2] != ('elem', src):
                raise Und('%s: byte %s' % (lab, show(got)[:120]))
            raise Bad('%s: byte %s is %s, not %s' % (lab, show(i), show(got)[:200], show(want)[:200]))


def rule_open(R, o):
    def same(W, st, v):
        bytes_are(W.E, st, 'private key', v, W.plain(), False)
    check(R, o, 'opening a wallet', lambda W: [*W.form(), *W.use(), *W.opening()], lambda W: (), same)


def rule_keypair(R, o):
    lab = 'key pair of a wallet'

    def same(W, st, v):
        v = W.E.norm_deep(st, v)
        k = v[3][0] if v[0] == 'agg' and len(v[3]) == 1 else v
        if not (k[0] == 'app' and k[1] == 'opaque_keypair'):
            raise Und('%s: %s' % (lab, show(v)[:120]))
        if not (k[2][0] == 'app' and k[2][1] == 'hexs'):
            raise Und('%s: text %s' % (lab, show(k[2])[:120]))
        bytes_are(W.E, st, lab, k[2][2], W.plain(), True)

    def read(W):
        """an error for a text that is not a key; which text it is shows where it is one"""
        for t in list(W.st.facts):
            if isinstance(t, tuple) and t[:2] == ('pred', 'ok') and t[2][1] == 'opaque_keypair':
                yield 'it is a private key', t
    check(R, o, lab, lambda W: [*W.form(), *W.use(), *W.opening()], read, same)


def rule_parse(R, o):
    check(R, o, 'reading a wallet', Wallet.form, Wallet.use, lambda W, st, v: None)


def rule_rewrite(R, o):
    lab = 'writing a wallet that was read'

    def same(W, st, v):
        E = W.E
        v = E.norm_deep(st, v)
        if not (v[0] == 'app' and v[1] == 'jsontext'):
            raise Und('%s: %s' % (lab, show(v)[:120]))
        got = v[2]
        if got[0] != 'agg' or last(got[1]) != 'SecretBoxJson':
            raise Und('%s: the text of %s' % (lab, show(got)[:120]))
        for n, g in zip(W.names, got[3]):
            x = getattr(W, n)
            if n == 'pwdiff':
                if g[0] != 'agg' or len(g[3]) != 2:
                    raise Und('%s: %s is %s' % (lab, n, show(g)[:120]))
                pairs = list(zip(g[3], (W.mem, W.ops)))
            elif n.endswith('primitive'):
                pairs = [(g, x)]
            else:
                pairs = [(g, ('app', 'b58', ('app', 'b58bytes', x), Some(I(KIND))))]
            for a, b in pairs:
                if a != b and E.norm_deep(st, a) != E.norm_deep(st, b):
                    raise Bad('%s: %s is %s, not %s' % (lab, n, show(a)[:160], show(b)[:160]))
    check(R, o, lab, Wallet.form, Wallet.use, same)


RULES = (('parse', rule_parse), ('open', rule_open), ('keypair', rule_keypair), ('rewrite', rule_rewrite))
