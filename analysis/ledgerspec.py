"""Hashes of the ledger's Merkle tree (merger_poseidon.rs, hasher_poseidon.rs, prefixes.rs) and Merkle paths (path.rs)."""
from spec import *
from terms import *
from engine import *
import nodespec
import textspec as X
from treespec import result, definite, elements, UNROLL

HOOKS = tuple(h for h in X.HOOKS if h[1] in (X.hook_arg, X.hook_args, X.hook_format, X.hook_to_string)) + nodespec.HOOKS

# hash of the empty account in the OCaml node
EMPTY = (0x204a10dde313dedb9a8a568d92ad6df0eecaff98ed379ae50896824fa1dbcc70,
         0x152a1d70fdf6fab070ed15dbca812cb8e1ceedc033b7f788ef032d2fd1bce027)
VARIANTS = ('legacy', 'kimchi')


def read(E, st, v):
    """a field element as the specification writes it"""
    v = E.norm_deep(st, v)
    if v[0] == 'agg' and v[1].endswith('Fp') and len(v[3]) == 1:
        return read(E, st, v[3][0])
    if v[0] == 'app' and v[1] == 'opaque_field':
        l = v[2]
        if l[0] == 'agg' and l[1] == 'array' and all(is_c(x) for x in l[3]):
            return ('constant', sum(x[1] << (64 * k) for k, x in enumerate(l[3])))
    if v[0] == 'app' and v[1] == 'opaque_poseidon':
        var, dom, roi = v[2:5]
        if not is_c(var):
            raise Und('which hash function: ' + show(var)[:80])
        if dom[0] == 'agg' and dom[1] == OPT:
            dom = text(E, st, dom[3][0]) if dom[2] == 1 else None
        else:
            raise Und('domain ' + show(dom)[:80])
        if roi[0] != 'agg':
            raise Und('input ' + show(roi)[:80])
        return ('hash', VARIANTS[var[1]], dom, tuple(read(E, st, x) for x in elements(E, st, roi[3][0])))
    if v[0] in ('sym', 'proj', 'elem'):
        return ('given', strip(v))
    raise Und('a field element that is not interpreted: ' + show(v)[:140])


def strip(v):
    s = show(v).split('#')[0]
    return s[:-2] if s.endswith('.0') else s


def text(E, st, v):
    v = E.norm_deep(st, v)
    if v[0] == 's':
        return v[1]
    if v[0] == 'app' and v[1] == 'text' and all(p[0] == 's' for p in v[2]):
        return ''.join(p[1] for p in v[2])
    if v[0] == 'vec' and all(s[0] == 'one' and is_c(s[1]) for s in v[1]):
        return ''.join(chr(s[1][1]) for s in v[1])
    raise Und('a text: ' + show(v)[:140])


def empty(var, h):
    if h == 0:
        return ('constant', EMPTY[VARIANTS.index(var)])
    e = empty(var, h - 1)
    return above(var, e, e, h)


def above(var, l, r, h):
    return ('hash', var, 'CodaMklTree%03d' % (h - 1), (l, r))


def pic(t, d=2):
    if t[0] == 'constant':
        return hex(t[1])[:12]
    if t[0] == 'given':
        return t[1]
    return '%s[%s](%s)' % (t[1], t[2], ', '.join(pic(x, d - 1) for x in t[3]) if d else '..')


def expect(lab, got, want):
    if got != want:
        raise Bad('%s: it is %s, not %s' % (lab, pic(got), pic(want)))


def given(name):
    return ('sym', name, None, ())


def rule_merge(var, l, r, h, lab):
    want = above(var, *(('given', n) if x else empty(var, h - 1) for n, x in (('l', l), ('r', r))), h)

    def rule(R, o):
        definite(R, lab)
        v = result(o, lab)
        if v[0] == 'agg' and v[1] == OPT and v[2] == 0:
            raise Bad('%s: there is no hash' % lab)
        if not (v[0] == 'agg' and v[1] == OPT):
            raise Und('%s: %s' % (lab, show(v)[:100]))
        expect(lab, read(R.E, o[1], v[3][0]), want)
    return rule


def rule_both(l, r, h, lab):
    def rule(R, o):
        definite(R, lab)
        v = result(o, lab)
        for k, (var, x) in enumerate(zip(('legacy', 'kimchi', 'legacy'), v[3])):
            rule_merge(var, l, r, h, '%s, after %d others' % (lab, k))(R, ('ret', o[1], x))
    return rule


def rule_leaf(var, lab):
    def rule(R, o):
        definite(R, lab)
        expect(lab, read(R.E, o[1], result(o, lab)), ('hash', var, 'item', (('given', 'a'), ('given', 'b'))))
    return rule


def rule_path(sides, lab):
    n = len(sides)
    ok = 0 < n < 64 and set(sides) <= {'l', 'r'}
    row = sum(1 << k for k, s in enumerate(sides) if s == 'r')

    def rule(R, o):
        definite(R, lab)
        E, st, v = R.E, o[1], result(o, lab)
        if not (v[0] == 'agg' and v[1] == OPT):
            raise Und('%s: %s' % (lab, show(v)[:100]))
        if not ok:
            if v[2]:
                raise Bad('%s: it is taken for a path' % lab)
            return
        if not v[2]:
            raise Bad('%s: the path is refused' % lab)
        idx, item, ids, hs = v[3][0][3]
        idx, item = E.norm_deep(st, idx), E.norm_deep(st, item)
        ids, hs = elements(E, st, ids), elements(E, st, hs)
        if not all(is_c(i) for i in ids + [idx]):
            raise Und('%s: positions' % lab)
        if idx[1] != (1 << n) - 1 + row:
            raise Bad('%s: the item is put at %d, not %d' % (lab, idx[1], (1 << n) - 1 + row))
        if item != given('item'):
            raise Bad('%s: another item: %s' % (lab, show(item)[:60]))
        want = [(1 << (n - k)) - 1 + ((row >> k) ^ 1) for k in range(n)]
        if [i[1] for i in ids] != want:
            raise Bad('%s: the siblings are put at %s, not %s' % (lab, [i[1] for i in ids], want))
        if len(hs) != n:
            raise Bad('%s: %d hashes' % (lab, len(hs)))
        for k, x in enumerate(hs):
            if not (x[0] == 'agg' and x[1] == OPT):
                raise Und('%s: %s' % (lab, show(x)[:100]))
            if x[2] == 0:
                raise Bad('%s: no hash for the sibling at %d' % (lab, want[k]))
            expect('%s, sibling at %d' % (lab, want[k]), read(E, st, x[3][0]), ('given', 'h%d' % k))
    return rule


def node(k, s):
    h = Some(given('h%d' % k))
    return tup(h if s in 'lb' else NONE, h if s in 'rb' else NONE)


def cases(thorough=False):
    """(witness, init, rule, tag)"""
    import itertools
    for var in VARIANTS:
        for h in range(1, 10 if thorough else 7):
            for l in (0, 1):
                for r in (0, 1):
                    for index, height in ((0, h), (3, h + 2), (2, h + 1)):
                        lab = '%s, node %d of a tree of height %d with %s' % (
                            var, index, height, ('no child', 'right child', 'left child', 'both children')[2 * l + r])
                        yield 'merge_' + var, lambda E, st, a, l=l, r=r, i=index, t=height: [
                            Some(given('l')) if l else NONE, Some(given('r')) if r else NONE, I(i), I(t)], rule_merge(var, l, r, h, lab), lab
        for index, height in ((0, 0), (1, 1), (8, 3), (14, 3)):
            lab = '%s, leaf %d of a tree of height %d' % (var, index, height)
            yield 'leaf_' + var, lambda E, st, a, i=index, t=height: [given('a'), given('b'), I(i), I(t)], rule_leaf(var, lab), lab
    for h in (1, 2, 3):
        for l, r in ((0, 0), (1, 0), (0, 1)):
            lab = 'both kinds of tree, height %d with %s' % (h, ('no child', 'right child', 'left child')[2 * l + r])
            yield 'merge_both', lambda E, st, a, l=l, r=r, h=h: [
                Some(given('l')) if l else NONE, Some(given('r')) if r else NONE, I(0), I(h)], rule_both(l, r, h, lab), lab
    paths = [''.join(p) for n in range(0, 7 if thorough else 6) for p in itertools.product('lr', repeat=n)]
    paths += ['b', 'n', 'lb', 'bl', 'rn', 'nr', 'lbr', 'lrn', 'nlrl', 'lrlb', 'l' * 20, 'rl' * 10, 'l' * 35, 'r' * 34 + 'l',
              'l' * 63, 'r' * 63, 'l' * 64, 'r' * 64, 'lr' * 40]
    for p in paths:
        lab = 'the path ' + (p if len(p) < 12 else '%s.. of %d nodes' % (p[:6], len(p))) if p else 'an empty path'
        yield 'path', lambda E, st, a, p=p: [mk_vec(tuple(('one', node(k, s)) for k, s in enumerate(p))), given('item')], rule_path(p, lab), 'path ' + p
