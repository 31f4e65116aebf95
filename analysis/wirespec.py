"""Wire messages (serialization-types, type-checked against stand-in dependencies): what every type writes and reads, one type at
a time with the values nested in it left abstract, composed along the types and compared with the OCaml layouts."""
import json
import os
import re
from spec import *
from terms import *
from engine import *
import models
from models import Ok, Err, find_stream, wterm
from loosespec import VECTORS

RAW32 = {'Snark_params.Tick', 'Zexe_backend.Zexe_backend_common.Stable.Field', 'Snark_params.Make_inner_curve_scalar'}
MESSAGES = (('external_transition', 'external_transition.json'), ('protocol_state', 'protocol_state.json'),
            ('snark_work', 'snark_work.json'), ('account_v0', None), ('account_v1', None))
LAYOUTS = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'protocol/layouts')
U8 = ('u8',)


def is_ser(p):
    return 'Serialize for ' in p and re.search(r'>::serialize(::<.*)?$', p) is not None and 'Serializer for' not in p


def is_de(p):
    return re.search(r'Deserialize<.*> for ', p) is not None and re.search(r'>::deserialize(::<.*)?$', p) is not None and '__Field' not in p


def strip_ref(P, t):
    while P.types[t]['k'] == 'ref':
        t = P.types[t]['e']
    return t


def hook_ser(E, st, f, args, sp):
    if len(args) != 2 or 'body' not in f:
        return None
    b = E.p.bodies[f['body']]
    if b is None:
        return None
    t = strip_ref(E.p, b['locals'][1])
    v = args[0]
    for _ in range(4):
        if v[0] == 'ref':
            v = models.val(E, st, v)
    s = wterm(E, st, args[1])
    x, y = st.fork(), st.fork()
    x.emit(('W', s[1], (('nested', t, v),)))
    y.emit(('Werr', s[1], 'probe'))
    return [('ret', x, Ok(UNIT)), ('ret', y, Err(('sym', 'probe-err', y.fresh(), y.ctx)))]


def hook_de(E, st, f, args, sp):
    if len(args) != 1 or 'body' not in f:
        return None
    b = E.p.bodies[f['body']]
    if b is None:
        return None
    T = E.p.types[b['locals'][0]]
    if T.get('path') != 'std::result::Result':
        return None
    try:
        s = find_stream(E, st, args[0])
    except Unk:
        return None
    x, y = st.fork(), st.fork()
    v = ('sym', 'nested', x.fresh(), x.ctx)
    x.emit(('R', s, (('nested', T['args'][0], v),)))
    y.emit(('Rerr', s, 'probe'))
    return [('ret', x, Ok(v)), ('ret', y, Err(('sym', 'probe-err', y.fresh(), y.ctx)))]


SER = ((is_ser, hook_ser),)
DE = ((is_de, hook_de),)
WHOLE = {'std::vec::Vec', 'std::option::Option', 'std::boxed::Box', 'std::string::String'}


class Wire:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.P = P = ctx.prog('witness_wire')
        self.ser, self.de = {}, {}
        for i, b in enumerate(P.bodies):
            if not b:
                continue
            p = b.get('path') or ''
            if is_ser(p) and b['argc'] == 2 and P.types[P.types[b['locals'][1]].get('e', 0)]['k'] != 'ref':
                self.ser.setdefault(self.name(strip_ref(P, b['locals'][1])), i)
            elif is_de(p) and b['argc'] == 1 and P.types[b['locals'][0]].get('path') == 'std::result::Result':
                self.de.setdefault(self.name(P.types[b['locals'][0]]['args'][0]), i)
        self.shapes, self.flats = {}, {}

    def name(self, t):
        return self.P.types[t]['s']

    def variants(self, t):
        T = self.P.types[t]
        if T['k'] != 'adt':
            raise Und('type ' + T['s'])
        a = self.P.adts.get(T['path'])
        if a is None:
            raise Und('no definition of ' + T['s'])
        return a['variants']

    # ------------------------------------------------------------ one type
    def shape(self, t):
        """variant -> (tag bytes, ((field, type), ...)) as written; checked on the way"""
        n = self.name(t)
        if n not in self.shapes:
            self.shapes[n] = None
            self.shapes[n] = self.written(t, n)
            if self.shapes[n] is not None and n in self.de:
                self.read(t, n)
        return self.shapes[n]

    def written(self, t, n):
        rep = self.rep
        if n not in self.ser:
            raise Und('no writer of ' + n)
        R = self.ctx.run('witness_wire', 'write ' + n, 'write', hooks=SER, bid=self.ser[n])
        vs = self.variants(t)
        me = R.args[0]
        me = ('*', me[1][1]) if me[0] == 'ref' else ('*', me)
        out = {}
        for o in R.outs:
            def rule(R, o):
                E, st = R.E, o[1]
                if o[0] in ('unk', 'cut'):
                    raise Und(str(o[2])[:200])
                if o[0] == 'panic':
                    if not feasible(E, st):
                        raise Und('not shown reachable')
                    raise Bad('panics (%s) at %s while a value is written' % (o[2][0], o[2][1]), 'panic')
                kind = result_kind(o[2])[0]
                if kind != 'ok':
                    if not any(e[0] == 'Werr' for e in st.ev) and kind == 'err' and feasible(E, st):
                        raise Bad('a value of the type is refused although the writer took every byte', 'refuse')
                    return
                vi = [i for i in range(len(vs)) if len(vs) == 1 or E.refine(st.fork(), ('discr', me), ((vs[i]['discr'],) * 2,))]
                tag, parts = [], []
                for e in st.ev:
                    if e[0] != 'W':
                        if e[0] in ('loop', 'Wpart'):
                            raise Und('written in a loop')
                        continue
                    for s in e[2]:
                        if s[0] == 'nested':
                            parts.append((s[2], s[1]))
                        elif s[0] == 'one' and not parts:
                            r = E.iv(st, s[1])
                            if not r or r[0][0] != r[-1][1]:
                                raise Und('tag is not constant')
                            tag.append(r[0][0])
                        else:
                            raise Und('written by hand: %s' % str(s)[:80])
                for i in vi:
                    got = (tuple(tag), tuple((self.field(E, st, me, i, len(vs), vs[i], v), ty) for v, ty in parts))
                    had = out.setdefault(i, got)
                    if had[0] == got[0] and [x for _, x in had[1]] != [x for _, x in got[1]] and feasible(E, st):
                        raise Bad('%s is written in two forms that nothing tells apart: (%s) and (%s)' % (
                            vs[i]['name'], ', '.join(self.short(x) for _, x in had[1]), ', '.join(self.short(x) for _, x in got[1])), 'forms')
                    if had != got:
                        raise Und('more than one form of variant %s' % vs[i]['name'])
            rep.outcome(R, o, rule)
        missing = [v['name'] for i, v in enumerate(vs) if i not in out]
        if missing:
            rep.undetermined(R.name, 'no path writes variant ' + ', '.join(missing))
            return None
        return out

    def field(self, E, st, me, i, n, v, val):
        val = E.norm_deep(st, val)
        if val[0] == 'fld' and val[1] == me and val[2] in (None, i) and isinstance(val[3], int):
            return val[3]
        for k, (_, ft) in enumerate(v['fields']):
            if self.P.types[ft].get('s') == '()' and val == UNIT:
                return k
        raise Und('what is written is not a field: %s' % show(val)[:120])

    def read(self, t, n):
        rep, W = self.rep, self.shapes[n]
        R = self.ctx.run('witness_wire', 'read ' + n, 'read', hooks=DE, bid=self.de[n])
        vs = self.variants(t)
        path = self.P.types[t]['path']
        got = set()
        for o in R.outs:
            def rule(R, o):
                E, st = R.E, o[1]
                if o[0] in ('unk', 'cut'):
                    raise Und(str(o[2])[:200])
                if o[0] == 'panic':
                    if not feasible(E, st):
                        raise Und('not shown reachable')
                    raise Bad('panics (%s) at %s while a value is read' % (o[2][0], o[2][1]), 'panic')
                kind, v = result_kind(o[2])[:2]
                bs, parts = [], []
                for e in st.ev:
                    if e[0] in ('loop', 'Rpart', 'Rall'):
                        raise Und('read in a loop')
                    if e[0] == 'R':
                        for s in e[2]:
                            if s[0] == 'nested':
                                parts.append((s[2], s[1]))
                            elif s[0] == 'one' and not parts:
                                bs.append(s[1])
                            else:
                                raise Und('read by hand: %s' % str(s)[:80])
                if kind != 'ok':
                    if any(e[0] == 'Rerr' for e in st.ev):
                        return
                    for i, (tag, fs) in W.items():
                        if len(tag) == len(bs) and admits(E, st, bs, tag) and len(parts) == len(fs):
                            raise Bad('what is written for %s is rejected' % vs[i]['name'], 'reject')
                    return
                v = E.norm_deep(st, v)
                if v[0] != 'agg' or v[1] != path:
                    raise Und('value read: %s' % show(v)[:120])
                i = v[2] or 0
                tag, fs = W[i]
                hit = [j for j, (tg, _) in W.items() if len(tg) == len(bs) and admits(E, st, bs, tg)]
                if not hit:
                    if not vs or len(bs) == len(tag):
                        return     # no value is written like that
                    raise Bad('%d bytes are read before the fields of %s, %d are written' % (len(bs), vs[i]['name'], len(tag)), 'shape')
                for j in hit:
                    if j != i:
                        raise Bad('what is written for %s is read as %s' % (vs[j]['name'], vs[i]['name']), 'variant')
                got.add(i)
                if [ty for _, ty in parts] != [ty for _, ty in fs]:
                    raise Bad('%s is written as (%s) but read as (%s)' % (
                        vs[i]['name'], ', '.join(self.short(ty) for _, ty in fs), ', '.join(self.short(ty) for _, ty in parts)), 'shape')
                for (x, ty), (k, _) in zip(parts, fs):
                    if k >= len(v[3]) or v[3][k] != x:
                        if self.name(ty) == '()' and k < len(v[3]) and v[3][k] == UNIT:
                            continue
                        if k < len(v[3]) and v[3][k][:2] != ('sym', 'nested'):
                            raise Und('field %s of the value read: %s' % (vs[i]['fields'][k][0], show(v[3][k])[:80]))
                        raise Bad('the value written from field %s of %s is not read into it' % (vs[i]['fields'][k][0], vs[i]['name']), 'field')
                for k in set(range(len(v[3]))) - {k for k, _ in fs}:
                    raise Bad('field %s of %s is not written' % (vs[i]['fields'][k][0], vs[i]['name']), 'field')
            rep.outcome(R, o, rule)
        for i in W:
            if i not in got:
                rep.undetermined(R.name, 'no path reads variant %s' % vs[i]['name'])

    def short(self, t):
        return re.sub(r'\w+::', '', self.name(t))

    # ------------------------------------------------------------ a type on the wire
    def flat(self, t):
        """(atoms, records): what is on the wire, structure flattened; records are (start, end, ((name, start), ...))"""
        n = self.name(t)
        if n in self.flats:
            r = self.flats[n]
            if r is None:
                raise Und('recursive type ' + n)
            return r
        self.flats[n] = None
        try:
            self.flats[n] = self._flat(t)
        except Und:
            del self.flats[n]
            raise
        return self.flats[n]

    def _flat(self, t):
        T = self.P.types[t]
        k, s = T['k'], T['s']
        if s == 'u8':
            return [U8], []
        if k == 'int':
            return [('int', T['w'], None, s)], []
        if k == 'bool':
            return [('sum', ((0, ([], [])), (1, ([], []))))], []
        if k == 'tuple' and not T['ts']:
            return [('sum', ((0, ([], [])),))], []
        if k == 'tuple':
            return self.seq([(None, x) for x in T['ts']])
        if k == 'array':
            a, r = self.flat(T['e'])
            if T['n'] is None:
                raise Und('array ' + s)
            return a * T['n'], []
        if k == 'adt' and T['path'] == 'std::boxed::Box':
            return self.flat(T['args'][0])
        if k == 'adt' and T['path'] == 'std::vec::Vec':
            return [('list', self.flat(T['args'][0]))], []
        if k == 'adt' and T['path'] == 'std::string::String':
            return [('list', ([U8], []))], []
        if k == 'adt' and T['path'] == 'std::option::Option':
            return [('sum', ((0, ([], [])), (1, self.flat(T['args'][0]))))], []
        if k != 'adt':
            raise Und('type ' + s)
        W = self.shape(t)
        if W is None:
            raise Und('form of ' + s)
        vs = self.variants(t)
        alts = []
        for i, (tag, fs) in sorted(W.items()):
            a, r = self.seq([(vs[i]['fields'][f][0], ty) for f, ty in fs])
            alts.append((tag, (a, r), vs[i]['name']))
        if len(alts) == 1 and not alts[0][0]:
            a, r = alts[0][1]
            if T['path'] == 'versioned::Versioned' and a and a[0][0] == 'int':
                a = [('int', a[0][1], int(T['args'][1]), a[0][3])] + a[1:]
            return a, r
        if all(len(tag) == 1 for tag, _, _ in alts):
            return [('sum', tuple((tag[0], x) for tag, x, _ in alts), tuple((tag[0], m) for tag, _, m in alts))], []
        if all(len(tag) == 4 for tag, _, _ in alts):
            w = [(sum(b << (8 * i) for i, b in enumerate(tag)), x) for tag, x, _ in alts]
            return [('poly', tuple(w))], []
        raise Und('tags of ' + s)

    def seq(self, parts):
        atoms, recs, starts = [], [], []
        for n, t in parts:
            a, r = self.flat(t)
            starts.append((n, len(atoms)))
            recs += [(s + len(atoms), e + len(atoms), tuple((m, p + len(atoms)) for m, p in ns)) for s, e, ns in r]
            atoms = atoms + a
        if len(parts) > 1 and all(n and not n.isdigit() for n, _ in parts):
            recs.append((0, len(atoms), tuple(starts)))
        return atoms, recs


def admits(E, st, bs, tag):
    """the path is taken when the bytes read are those of the tag"""
    env = dict(zip(bs, tag))

    def pick(t):
        raise CantEval
    for t, f in st.facts.items():
        if f[0] != 'iv' or not isinstance(t, tuple):
            continue
        try:
            x = ev(t, env, pick)
        except CantEval:
            continue
        if not any(lo <= x <= hi for lo, hi in f[1]):
            return False
    return True


# ---------------------------------------------------------------- layouts
class Layout:
    def __init__(self):
        self.memo = {}

    def rule(self, r, path=None):
        k = r[0]
        if k == 'Reference':
            if r[1][0] != 'Resolved':
                raise Und('reference ' + r[1][0])
            return self.rule(r[1][1]['ref_rule'], r[1][1].get('source_module_path'))
        if k == 'Record':
            return self.seq([(f['field_name'], f['field_rule']) for f in r[1]])
        if k == 'Tuple':
            return self.seq([(None, x) for x in r[1]])
        if k == 'Int':
            return [('int', 16, None, k)], []
        if k in ('Int32', 'Int64'):
            return [('int', int(k[3:]), None, k)], []
        if k == 'Bool':
            return [('sum', ((0, ([], [])), (1, ([], []))))], []
        if k == 'Unit':
            return [('sum', ((0, ([], [])),))], []
        if k == 'Char':
            return [U8], []
        if k == 'String':
            return [('list', ([U8], []))], []
        if k == 'Option':
            return [('sum', ((0, ([], [])), (1, self.rule(r[1]))))], []
        if k in ('List', 'Array'):
            return [('list', self.rule(r[1]))], []
        if k == 'Sum':
            return [('sum', tuple((s['index'], self.seq([(None, x) for x in s['ctor_args']])) for s in r[1]),
                     tuple((s['index'], s['ctor_name']) for s in r[1]))], []
        if k == 'Polyvar':
            out = []
            for v in r[1]:
                if v[0] != 'Tagged':
                    raise Und('polyvar ' + v[0])
                out.append(((2 * v[1]['hash'] + 1) & 0xffffffff, self.seq([(None, x) for x in v[1]['polyvar_args']])))
            return [('poly', tuple(out))], []
        if k == 'Custom':
            if path in RAW32:
                return [U8] * 32, []
            if path in VECTORS:
                a, rs = self.seq([(None, r[1][0])] * VECTORS[path])
                return a + [('sum', ((0, ([], [])),))], rs
            raise Und('custom rule of %s' % path)
        raise Und('rule ' + k)

    def seq(self, parts):
        atoms, recs, starts = [], [], []
        for i, (n, x) in enumerate(parts):
            a, r = self.rule(x)
            if i == 0 and n == 'version' and len(parts) == 2 and parts[1][0] == 't' and a and a[0][0] == 'int':
                m = re.search(r'Stable\.V(\d+)$', module(parts[1][1]) or '')
                if m:
                    a = [('int', a[0][1], int(m.group(1)), a[0][3])]
            starts.append((n, len(atoms)))
            recs += [(s + len(atoms), e + len(atoms), tuple((m, p + len(atoms)) for m, p in ns)) for s, e, ns in r]
            atoms = atoms + a
        if len(parts) > 1 and all(n for n, _ in parts):
            recs.append((0, len(atoms), tuple(starts)))
        return atoms, recs


def module(r):
    return r[1][1].get('source_module_path') if r[0] == 'Reference' and r[1][0] == 'Resolved' else None


def show_atom(a):
    if a[0] == 'int':
        return 'an integer (%s)' % a[3]
    return {'u8': 'a byte', 'list': 'a list', 'poly': 'a polymorphic variant'}.get(a[0]) or 'one of the tags %s' % ', '.join(str(t) for t, _ in a[1])


def where_(recs, k):
    """name of the innermost record field at position k"""
    best = None
    for s, e, ns in recs:
        if s <= k < e and [n for n, _ in ns] != ['version', 't'] and (best is None or e - s <= best[0]):
            best = (e - s, [n for n, p in ns if p <= k][-1])
    return best[1] if best else '#%d' % k


def compare(a, b, path, out, stats):
    """a: written by Rust, b: described by the layout"""
    (xa, ra), (xb, rb) = a, b
    for k in range(min(len(xa), len(xb))):
        p, q = xa[k], xb[k]
        at = path + (where_(ra, k),)
        stats['atoms'] += 1
        if p[0] != q[0]:
            out.append((at, '%s is written where the layout has %s (%s)' % (show_atom(p), show_atom(q), where_(rb, k)), 'kind'))
            return
        if p[0] == 'int':
            if p[1] < q[1]:
                out.append((at, 'integer type %s cannot hold every %s of the layout' % (p[3], q[3]), 'width'))
            if p[2] is not None and q[2] is not None and p[2] != q[2]:
                out.append((at, 'version %d where the layout has version %d' % (p[2], q[2]), 'version'))
        elif p[0] == 'list':
            compare(p[1], q[1], at + ('[]',), out, stats)
        elif p[0] in ('sum', 'poly'):
            d = dict(q[1])
            for tag, x in p[1]:
                if tag not in d:
                    out.append((at, 'tag %d is written, which the layout does not know' % tag, 'tag'))
                else:
                    compare(x, d[tag], at + ('<%d>' % tag,), out, stats)
            for tag in d:
                if tag not in dict(p[1]):
                    stats['absent'].add((at[-1], tag))
            if len(p) > 2 and len(q) > 2:
                names = {canon(m): t for t, m in q[2]}
                for t, m in p[2]:
                    if canon(m) in names and names[canon(m)] != t:
                        out.append((at, 'variant %s has tag %d, in the layout %d' % (m, t, names[canon(m)]), 'order'))
    if len(xa) != len(xb):
        k = min(len(xa), len(xb))
        more = 'more' if len(xa) > len(xb) else 'less'
        out.append((path + (where_(ra if len(xa) > len(xb) else rb, k),), '%s is written than the layout has' % more, 'length'))
        return
    lay = {}
    for s, e, ns in rb:
        lay.setdefault((s, e, tuple(p for _, p in ns)), []).append([n for n, _ in ns])
    for s, e, ns in ra:
        for names in lay.get((s, e, tuple(p for _, p in ns)), ()):
            mine = [n for n, _ in ns]
            stats['records'] += 1
            cn = [canon(n) for n in names]
            for x, y in zip(mine, names):
                if canon(x) != canon(y) and canon(x) in cn:
                    out.append((path + (x,), 'field %s is at the place of %s in the layout' % (x, y), 'order'))


def canon(n):
    return n.replace('_', '').lower()


def sums(r, out):
    if isinstance(r, dict):
        r = list(r.values())
    if isinstance(r, list):
        if len(r) == 2 and r[0] == 'Sum' and isinstance(r[1], list):
            out.add(tuple(sorted((s['index'], canon(s['ctor_name'])) for s in r[1])))
        for x in r:
            sums(x, out)


def enums(w, rep, known):
    """an enum whose variants are all those of a sum in the layouts has its tags"""
    by = {}
    for s in known:
        by.setdefault(frozenset(n for _, n in s), []).append(s)
    for n, W in sorted(w.shapes.items()):
        if not W or len(W) < 2 or any(len(tag) != 1 for tag, _ in W.values()):
            continue
        t = next(i for i, T in enumerate(w.P.types) if T['s'] == n)
        vs = w.variants(t)
        mine = tuple(sorted((W[i][0][0], canon(vs[i]['name'])) for i in W))
        alike = by.get(frozenset(m for _, m in mine))
        if alike and mine not in alike:
            x = next(a for a, b in zip(mine, alike[0]) if a != b)
            rep.violation('%s|order|' % n, '%s: variant %s is written with tag %d, the layout has %d' % (
                n, x[1], x[0], dict((m, i) for i, m in alike[0])[x[1]]), [n], '', (n, 'order', {}))
        else:
            rep.ok()


def wire(ctx, rep):
    w = Wire(ctx, rep)
    P = w.P
    known = set()
    for name, lay in MESSAGES:
        body = P.bodies[P.find('witness_wire::w_' + name)]
        t = strip_ref(P, body['locals'][2])
        try:
            f = w.flat(t)
        except Und as e:
            rep.undetermined(name, str(e))
            continue
        if lay is None:
            continue
        try:
            d = json.load(open(os.path.join(LAYOUTS, lay)))
        except (OSError, ValueError) as e:
            rep.undetermined(name, 'layout: %s' % e)
            continue
        sums(d['bin_prot_rule'], known)
        stats = {'atoms': 0, 'records': 0, 'absent': set()}
        out = []
        try:
            compare(f, Layout().rule(d['bin_prot_rule']), (name,), out, stats)
        except Und as e:
            rep.undetermined(name, str(e))
            continue
        for at, msg, kind in sorted(set(out)):
            rep.violation('%s|%s|%s' % (name, kind, '/'.join(at)), '%s: %s' % ('/'.join(at), msg),
                          ['protocol/serialization-types/src', 'protocol/layouts/' + lay], '', ('/'.join(at), kind, {}))
        for _ in range(stats['atoms'] - len(out)):
            rep.ok()
        rep.ok('%s: %d positions and %d records agree with %s; variants the types do not have: %s' % (
            name, stats['atoms'], stats['records'], lay, sorted(stats['absent'])))
    enums(w, rep, known)
