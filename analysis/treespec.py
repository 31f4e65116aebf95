"""Merkle trees (merkle/src/tree_impl.rs): what a tree of so many items is asked for, against the tree it stands for.

The items are symbolic and the mergers opaque, so a tree's root is a term; what is concrete is how many items there are,
how they arrive in batches, whether the root is asked for in between and, for trees of fixed height, the height."""
from spec import *
from terms import *
from engine import *
from run import show_outcome
from nodespec import HOOKS

UNROLL = ('mina_merkle', 'witness_node')


def items(ns):
    return [mk_vec(tuple(('one', ('sym', '%s%d' % (p, i), None, ())) for i in range(n))) for n, p in zip(ns, 'abc')]


def syms(ns):
    return [('sym', '%s%d' % (p, i), None, ()) for n, p in zip(ns, 'abc') for i in range(n)]


def start(ns, ask, height=None, at=None):
    def f(E, st, args):
        return ([] if height is None else [I(height)]) + items(ns) + [I(ask)] + ([] if at is None else [I(at)])
    return f


def levels(n):
    return (n - 1).bit_length() if n else 0


def node(l, r, h):
    """the hash above two subtrees; without items below it, it is the one a merger has for an empty subtree"""
    return None if l is None and r is None else ('node', l, r, h)


def tree(xs, h):
    """the rows of the tree of height h over these items, leaves first"""
    row = [('leaf', x) for x in xs] + [None] * ((1 << h) - len(xs))
    rows = [row]
    for k in range(1, h + 1):
        row = [node(row[i], row[i + 1], k) for i in range(0, len(row), 2)]
        rows.append(row)
    return rows


def hashed(E, st, v):
    """the tree a hash stands for"""
    v = E.norm_deep(st, v)
    if v[0] == 'app' and v[1] == 'opaque_item':
        return ('leaf', v[2])
    if v[0] == 'app' and v[1] == 'opaque_node':
        if not is_c(v[4]):
            raise Und('the height of a node is not known: ' + show(v[4])[:80])
        return node(optional(E, st, v[2]), optional(E, st, v[3]), v[4][1])
    raise Und('a hash that is not one of an item or of a node: ' + show(v)[:120])


def optional(E, st, v):
    if v[0] == 'agg' and v[1] == OPT:
        return hashed(E, st, v[3][0]) if v[2] == 1 else None
    raise Und('it is not known whether there is a hash: ' + show(v)[:120])


def pic(t):
    if t is None:
        return '-'
    if t[0] == 'leaf':
        return strip_sym(t[1])
    return '(%s %s)%d' % (pic(t[1]), pic(t[2]), t[3])


def strip_sym(v):
    return v[1] if v[0] == 'sym' else show(v)


def same(what, got, want):
    if got != want:
        raise Bad('%s is %s, not %s' % (what, pic(got), pic(want)))


def result(o, label):
    if o[0] == 'panic':
        raise Bad('%s: the program stops: %s' % (label, str(o[2])[:140]), 'panic')
    if o[0] != 'ret':
        raise Und('%s: %s' % (label, str(o[2])[:160]))
    return o[2]


def definite(R, label):
    """several paths because of an operation that is not modelled: not all of them need to be possible"""
    if R.E.stats['unmodelled'] and len(R.outs) > 1:
        raise Und('%s: depends on %s' % (label, ', '.join(sorted(R.E.stats['unmodelled']))[:120]))


def label(ns, ask, height):
    return '%s items%s%s' % ('+'.join(map(str, ns)), ', root asked for in between' if ask else '', '' if height is None else ', fixed height %d' % height)


def rule_roots(ns, ask, height=None):
    xs, lab = syms(ns), label(ns, ask, height)

    def rule(R, o):
        definite(R, lab)
        E, st, v = R.E, o[1], result(o, lab)
        f = v[3]
        for k, upto in ((0, ns[0]), (1, ns[0] + ns[1]), (2, sum(ns))):
            if k < 2 and not ask:
                continue
            h = levels(upto) if height is None else height
            same('%s: the root of the first %d' % (lab, upto), optional(E, st, f[k]), tree(xs[:upto], h)[-1][0])
        n, h = E.norm_deep(st, f[3]), E.norm_deep(st, f[4])
        if not (is_c(n) and is_c(h)):
            raise Und('count or height is not known: %s %s' % (show(n)[:60], show(h)[:60]))
        if n[1] != sum(ns):
            raise Bad('%s: the number of items is said to be %d' % (lab, n[1]))
        if h[1] != (levels(sum(ns)) if height is None else height):
            raise Bad('%s: the height is said to be %d' % (lab, h[1]))
    return rule


def elements(E, st, v):
    v = E.norm_deep(st, v)
    if v[0] == 'vec' and all(s[0] == 'one' for s in v[1]):
        return [s[1] for s in v[1]]
    raise Und('a list of unknown length: ' + show(v)[:120])


def rule_proof(ns, ask, at, height=None):
    xs = syms(ns)
    lab = label(ns, ask, height) + ', the proof of item %d' % at
    h = levels(len(xs)) if height is None else height
    rows = tree(xs, h)

    def rule(R, o):
        definite(R, lab)
        E, st, v = R.E, o[1], result(o, lab)
        if not (v[0] == 'agg' and v[1] == OPT):
            raise Und('%s: %s' % (lab, show(v)[:120]))
        if h == 0:
            if v[2] == 1:
                raise Bad('%s: a proof without siblings' % lab)
            return
        if v[2] == 0:
            raise Bad('%s: there is no proof' % lab)
        idx, item, ids, hs = v[3][0][3]
        idx = E.norm_deep(st, idx)
        if not is_c(idx):
            raise Und('%s: index %s' % (lab, show(idx)[:80]))
        if idx[1] != (1 << h) - 1 + at:
            raise Bad('%s: its position is said to be %d, not %d' % (lab, idx[1], (1 << h) - 1 + at))
        if E.norm_deep(st, item) != xs[at]:
            raise Bad('%s: it is of %s' % (lab, show(item)[:80]))
        ids = elements(E, st, ids)
        hs = elements(E, st, hs)
        if not all(is_c(i) for i in ids):
            raise Und('%s: positions %s' % (lab, ' '.join(show(i)[:40] for i in ids)))
        want, wanth, p = [], [], at
        for k in range(h):
            want.append((1 << (h - k)) - 1 + (p ^ 1))
            wanth.append(rows[k][p ^ 1])
            p >>= 1
        if [i[1] for i in ids] != want:
            raise Bad('%s: the siblings named are %s, not %s' % (lab, [i[1] for i in ids], want))
        if len(hs) != len(want):
            raise Bad('%s: %d hashes for %d siblings' % (lab, len(hs), len(want)))
        for k in range(h):
            same('%s: the hash of sibling %d' % (lab, want[k]), optional(E, st, hs[k]), wanth[k])
    return rule


def cases(thorough=False):
    """(witness, init, rule, tag)"""
    top = 13 if thorough else 9
    for m in ('total', 'partial'):
        def roots(ns, ask, height=None):
            return ('var_' if height is None else 'fix_') + m, start(ns, ask, height), rule_roots(ns, ask, height), label(ns, ask, height)

        def proof(ns, ask, at, height=None):
            return ('proof_var_' if height is None else 'proof_fix_') + m, start(ns, ask, height, at), \
                rule_proof(ns, ask, at, height), '%s, item %d' % (label(ns, ask, height), at)
        for n in range(0, top + 1):
            for a in range(n + 1) if thorough else sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))):
                for c in (0, 1, 2) if thorough else (0, 1):
                    for ask in (0, 1):
                        yield roots((a, n - a, c), ask)
        for ns in ((3, 3, 2), (6, 0, 1), (2, 2, 2), (9, 3, 2), (12, 3, 1), (9, 1, 6), (16, 1, 0), (17, 1, 1), (33, 1, 0)):
            yield roots(ns, 1)
        for h in range(0, 6 if thorough else 5):
            for n in range(0, min(1 << h, top) + 1):
                for a in sorted({0, 1, n - 1, n} & set(range(n + 1))):
                    yield roots((a, n - a, 0), 1, h)
        for n in range(1, top + 1):
            for at in range(n):
                yield proof((n, 0), 0, at)
            for a in sorted({n - 1, n // 2} - {n}):
                for at in range(n) if thorough else sorted({0, a, n - 1}):
                    yield proof((a, n - a), 1, at)
        for h in range(0, 6 if thorough else 5):
            for n in range(1, min(1 << h, top if thorough else 6) + 1):
                for at in range(n):
                    yield proof((n, 0), 0, at, h)
