"""The command line tools: stand-ins for what main() talks to, and the rule on the verdict it gives."""
import os
from engine import *
from models import val, wterm, rterm, deep_loc, ret, is_seq, do_write, wres, ioerr, strip_refs, sym, m_read_to_end, Call, mk_vec, segs_of
from spec import *
from terms import *
from loosespec import is_value_de, is_any, Names

ERR = 'anyhow'


def both(st, name, okv, sp, *what):
    """an operation the environment may let succeed or fail"""
    a, b = st.fork(), st.fork()
    a.emit(('op', name, okv) + what + (sp,))
    e = ('sym', 'failure', b.fresh(), b.ctx)
    b.emit(('failed', name) + what + (sp,))
    return [('ret', a, Ok(okv)), ('ret', b, Err(e))]


def base(p):
    """the path without generic arguments (what an impl path is about is kept)"""
    if p.startswith('<'):
        d = 0
        for i, ch in enumerate(p):
            d += ch == '<'
            d -= ch == '>' and p[i - 1] != '-'
            if d == 0:
                break
        head, p = p[:i + 1], p[i + 1:]
    else:
        head = ''
    out, d = [], 0
    i = 0
    while i < len(p):
        if p[i] == '<' and (p[i - 2:i] == '::' or d) and not p.startswith('<impl', i):
            d += 1
        elif p[i] == '<' and p.startswith('<impl', i):
            j, e = i, 0
            while True:
                e += p[j] == '<'
                e -= p[j] == '>' and p[j - 1] != '-'
                j += 1
                if e == 0:
                    break
            if not d:
                out.append(p[i:j])
            i = j
            continue
        elif p[i] == '>' and d and p[i - 1] != '-':
            d -= 1
            i += 1
            continue
        if not d:
            out.append(p[i])
        i += 1
    return head + ''.join(out).replace('::::', '::').rstrip(':')


def h_args(E, st, f, args, sp):
    return [('ret', st, ('sym', 'opt', 0, ()))]


def path_of(E, st, a):
    v = val(E, st, a)
    for _ in range(6):
        if v[0] == 'app' and v[1] in ('path',):
            v = val(E, st, v[2][0])
        elif v[0] == '*':
            v = v[1]   # a path buffer and the path it holds
    return v


def h_open(E, st, f, args, sp):
    p = path_of(E, st, args[0])
    return both(st, 'open', ('app', 'infile', (p,), 0), sp)


def h_create(E, st, f, args, sp):
    p = path_of(E, st, args[0])
    return both(st, 'create', ('app', 'outfile', (p,), 0), sp)


def h_path(E, st, f, args, sp):
    return [('ret', st, path_of(E, st, args[0]))]


def h_fsread(text):
    def h(E, st, f, args, sp):
        out = []
        for o in h_open(E, st, f, args, sp):
            s, r = o[1], o[2]
            if r[2] == 1:
                out.append(o)
                continue
            a, b = s.fork(), s.fork()
            n = sym(a, 'got')
            E.rng[n] = (0, (1 << 63) - 1)
            k = ('k', ('rd', a.fresh(), a.ctx))
            seg = ('c', n, k, ('rb', a.n, k, a.ctx))
            b.fresh(); b.fresh()
            a.emit(('Rall', r[3][0], seg, None, sp))
            b.emit(('failed', 'read', sp))
            v = mk_vec((seg,))
            out += [('ret', a, Ok(('utf8', v) if text else v)), ('ret', b, Err(('sym', 'failure', b.fresh(), b.ctx)))]
        return out
    return h


def h_fswrite(E, st, f, args, sp):
    out = []
    for o in h_create(E, st, f, args, sp):
        if o[2][2] == 1:
            out.append(o)
            continue
        v = val(E, o[1], args[1])
        seg = tuple(segs_of(v)) if is_seq(v) else (('all', v),)
        out += wres(do_write(E, o[1], o[2][3][0], seg, sp), UNIT)
    return out


def h_hex(E, st, f, args, sp):
    x = val(E, st, args[0])
    a, b = st.fork(), st.fork()
    v = ('vec', (('all', ('app', 'unhex', (x,), 0)),))
    a.emit(('hex', True, x))
    b.emit(('hex', False, x))
    return [('ret', a, Ok(v)), ('ret', b, Err(('sym', 'not-hex', b.fresh(), b.ctx)))]


def is_result(v):
    return v[0] == 'agg' and len(v) > 3 and v[1] == RES


def h_context(E, st, f, args, sp):
    v = args[0]
    if v[0] == 'agg' and v[1] == RES:
        return [('ret', st, v if v[2] == 0 else Err(('app', ERR, (v[3][0],), 0)))]
    if v[0] == 'agg' and v[1] == OPT:
        return [('ret', st, Ok(v[3][0]) if v[2] == 1 else Err(('app', ERR, (), 0)))]
    out = []
    d = ('discr', v)
    rt = (f.get('targs') or [None])
    for k in (0, 1):
        s = st.fork()
        if E.refine(s, d, ((k, k),)):
            out.append(('ret', s, Ok(('fld', v, 0, 0)) if k == 0 else Err(('app', ERR, (('fld', v, 1, 0),), 0))))
    return out


def h_error(E, st, f, args, sp):
    return [('ret', st, ('app', ERR, (), 0))]


def h_nop(E, st, f, args, sp):
    return [('ret', st, UNIT)]


def h_opaque(E, st, f, args, sp):
    return [('ret', st, ('sym', 'ignored', st.fresh(), st.ctx))]


def h_false(E, st, f, args, sp):
    return [('ret', st, FALSE)]


# ---- the layout file
def h_json_new(E, st, f, args, sp):
    return [('ret', st, ('agg', '$json', 0, (args[0], FALSE)))]


def h_json_unlimit(E, st, f, args, sp):
    loc, v = deep_loc(E, st, args[0])
    if v[0] != 'agg' or v[1] != '$json':
        return None
    E.write(st, loc, ('agg', '$json', 0, (v[3][0], TRUE)))
    return [('ret', st, UNIT)]


def h_stacker(E, st, f, args, sp):
    return [('ret', st, ('agg', '$stacker', 0, (args[0],)))]


def chase(E, st, v, seen=(), d=0):
    """every value reachable from v"""
    if d > 24:
        return
    yield v
    if v[0] == 'ref':
        loc = (v[1], v[2])
        if loc in seen:
            return
        w = E.read(st, loc)
        yield from chase(E, st, w, seen + (loc,), d + 1)
    elif v[0] == 'agg':
        for x in v[3]:
            yield from chase(E, st, x, seen, d + 1)
    elif v[0] == 'vec':
        for s in v[1]:
            if s[0] == 'one':
                yield from chase(E, st, s[1], seen, d + 1)


def h_layout(E, st, f, args, sp):
    if any('bin_prot::Layout' in x or 'value::layout::Layout' in x for x in E.stack):
        return None
    vs = list(chase(E, st, args[0]))
    js = [v for v in vs if v[0] == 'agg' and v[1] == '$json']
    src = [v for v in vs if (v[0] == 'app' and v[1] == 'infile')]
    n = tuple(repr(v) for v in vs if is_seq(v) or v[0] == 'utf8')
    deep = bool(js) and js[0][3][1] == TRUE
    stk = any(v[0] == 'agg' and v[1] == '$stacker' for v in vs)
    x = ('sym', 'layout', st.n + 1, st.ctx)
    return both(st, 'layout', x, sp, tuple(src), n, (deep, stk) if js else None)


def h_json_from(E, st, f, args, sp):
    """serde_json::from_reader and friends: only ever for the layout"""
    ts = ' '.join(t for t in E.tynames(f)) if hasattr(E, 'tynames') else ''
    vs = list(chase(E, st, args[0]))
    src = [v for v in vs if (v[0] == 'app' and v[1] == 'infile')]
    n = tuple(repr(v) for v in vs if is_seq(v) or v[0] == 'utf8')
    x = ('sym', 'layout', st.n + 1, st.ctx)
    return both(st, 'layout', x, sp, tuple(src), n, (False, False))


# ---- the value
def h_decode(E, st, f, args, sp):
    if any(is_value_de(x) or is_any(x) for x in E.stack):
        return None
    vs = list(chase(E, st, args[0]))
    seqs = [v for v in vs if is_seq(v) and not any(s[0] == 'one' and s[1][0] in ('ref', 'fld') for s in (v[1] if v[0] == 'vec' else ()))]
    x = ('sym', 'decoded', st.n + 1, st.ctx)
    src = tuple(v for v in vs if v[0] == 'app' and v[1] == 'infile')
    return both(st, 'decode', x, sp, tuple(vs), src)


def h_encode(E, st, f, args, sp):
    if any('serde::Serialize for bin_prot::Value' in x for x in E.stack):
        return None
    v = val(E, st, args[0])
    s = wterm(E, st, args[1])
    a, b = st.fork(), st.fork()
    enc = ('all', ('app', 'encoding', (v,), 0))
    a.emit(('op', 'encode', v, sp))
    b.emit(('failed', 'encode', sp))
    e = ('sym', 'failure', b.fresh(), b.ctx)
    out = [('ret', b, Err(e))]
    for o in do_write(E, a, args[1], (enc,), sp):
        out.append(('ret', o[1], Ok(UNIT)) if o[0] == 'ok' else ('ret', o[1], Err(o[2])))
    return out


# ---- output
def text(E, st, a):
    return strip_refs(E, st, a)


def h_print(E, st, f, args, sp):
    st.emit(('W', ('sym', 'stdout', 0, ()), (('all', text(E, st, args[0])),), sp))
    return [('ret', st, UNIT)]


def h_write_fmt(E, st, f, args, sp):
    return wres(do_write(E, st, args[0], (('all', text(E, st, args[1])),), sp), UNIT)


def h_stdout(E, st, f, args, sp):
    return [('ret', st, ('sym', 'stdout', 0, ()))]


def h_stdin(E, st, f, args, sp):
    return [('ret', st, ('sym', 'stdin', 0, ()))]


def h_same(E, st, f, args, sp):
    return [('ret', st, val(E, st, args[0]))]


def h_exit(E, st, f, args, sp):
    return [('panic', st, ('exit', sp, args[0]))]


def h_affix(E, st, f, args, sp):
    return [('ret', st, ('pred', base(f.get('rpath') or f.get('path') or '').split('::')[-1], val(E, st, args[0]), val(E, st, args[1])))]


def ends(*names):
    return lambda p: base(p).endswith(names)


HOOKS = (
    (ends('StructOpt::from_args', '::from_args'), h_args),
    (lambda p: base(p) in ('std::fs::File::open',), h_open),
    (lambda p: base(p) in ('std::fs::File::create',), h_create),
    (lambda p: base(p) == 'std::fs::read', h_fsread(False)),
    (lambda p: base(p) == 'std::fs::write', h_fswrite),
    (lambda p: base(p) == 'std::fs::read_to_string', h_fsread(True)),
    (lambda p: base(p) in ('std::path::PathBuf::as_path', 'std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::Path::to_owned')
     or ('std::path::Path' in p and base(p).endswith(('::clone', '::as_ref', '::deref', '::borrow', '::to_owned', '::into', '::from'))), h_path),
    (lambda p: base(p).startswith('hex::') and base(p).endswith(('::decode', '::from_hex')) or ('FromHex' in p and base(p).endswith('::from_hex')), h_hex),
    (lambda p: 'anyhow::' in p and base(p).endswith(('::context', '::with_context')), h_context),
    (lambda p: 'anyhow::' in p, h_error),
    (lambda p: p.startswith('env_logger::') or '<env_logger::' in p, h_opaque),
    (lambda p: p.startswith('<log::Level as'), h_false),
    (lambda p: p.startswith('log::') or '::private_api_log' in p, h_opaque),
    (lambda p: p.startswith('serde_json::') and base(p).endswith(('::from_reader', '::from_slice', '::from_str')) and 'Deserializer' in p, h_json_new),
    (lambda p: p.startswith('serde_json::') and base(p).endswith('::disable_recursion_limit'), h_json_unlimit),
    (lambda p: base(p) in ('serde_json::from_reader', 'serde_json::from_slice', 'serde_json::from_str', 'serde_json::de::from_reader',
                           'serde_json::de::from_slice', 'serde_json::de::from_str'), h_json_from),
    (lambda p: p.startswith('serde_stacker::Deserializer') and base(p).endswith('::new'), h_stacker),
    (lambda p: 'Deserialize' in p and 'Layout' in p.split(' as ')[-1 if ' for ' in p else 0] and base(p).endswith('::deserialize'), h_layout),
    (lambda p: is_value_de(p) or is_any(p), h_decode),
    (lambda p: ('serde::Serialize for bin_prot::Value' in p or '<bin_prot::Value as serde::Serialize>' in p or p.startswith('bin_prot::value::ser::<impl serde::Serialize')) and base(p).endswith('::serialize'), h_encode),
    (lambda p: base(p) == 'std::io::_print', h_print),
    (lambda p: base(p) == 'std::io::_eprint', h_nop),
    (lambda p: base(p).endswith('Write::write_fmt'), h_write_fmt),
    (lambda p: base(p) in ('std::io::stdout',), h_stdout),
    (lambda p: base(p) in ('std::io::stdin',), h_stdin),
    (lambda p: base(p) in ('std::io::Stdout::lock', 'std::io::Stdin::lock'), h_same),
    (lambda p: base(p) == 'std::process::exit', h_exit),
    (lambda p: base(p) in ('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with'), h_affix),
)


# ---------------------------------------------------------------- the layout reader
OPT_ARG = ('sym', 'opt', 0, ())


def option_fields(P, *names):
    """positions of the command line options in the struct that holds them"""
    for a in P.adts.values():
        vs = a.get('variants') or []
        if len(vs) == 1:
            fs = [f[0] for f in vs[0]['fields']]
            if all(n in fs for n in names):
                return {n: ('fld', OPT_ARG, None, fs.index(n)) for n in names}
    raise Und('command line options')


def only_known(st, known):
    for t, f in st.facts.items():
        if not isinstance(t, tuple) or f[0] != 'iv' or t[0] == 'k':
            continue
        b = t[1] if t[0] == 'discr' else t
        if (t[0] in ('peq', 'pred', 'streq') and not has_opaque(t)) or b in known or (t[0] in ('cmp', 'lin') and not has_opaque(t)):
            continue
        if t[0] in ('len', 'sym') and not has_opaque(t):
            continue
        raise Und('depends on ' + show(t)[:120])


def has_opaque(t):
    return isinstance(t, tuple) and ((len(t) > 0 and t[0] == 'app' and t[1] not in ('infile', 'outfile', 'unhex', 'encoding', 'fmt'))
                                     or any(has_opaque(x) for x in t))


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t))


def fact(st, t):
    f = st.facts.get(t)
    return f[1] if f and f[0] == 'iv' else None


def verdict(st, o):
    """'ok' | 'error' """
    if o[0] == 'panic':
        if o[2][0] == 'exit':
            a = o[2][2]
            if a[0] == 'i':
                return 'ok' if a[1] == 0 else 'error'
            raise Und('exit status')
        return 'error'
    if o[2] == UNIT:
        return 'ok'
    rk, _ = result_kind(o[2])
    if rk is None:
        raise Und('result ' + show(o[2])[:100])
    return 'ok' if rk == 'ok' else 'error'


def trace_of(o):
    st = o[1]
    if o[0] in ('unk', 'cut'):
        raise Und('%s %s' % (o[0], str(o[2])[:200]))
    for e in st.ev:
        if e[0] == 'unknown':
            raise Und('unmodelled ' + str(e[1]))
        if e[0] in ('loop', 'Wpart', 'Rpart'):
            raise Und('piecewise ' + e[0])
    if st.taint:
        raise Und('tainted')
    return list(st.ev)


def reader(P):
    F = option_fields(P, 'layout', 'binary', 'roundtrip', 'output')

    def rule(R, o):
        E, st = R.E, o[1]
        ev = trace_of(o)
        only_known(st, list(F.values()))
        failed = [e for e in ev if e[0] in ('failed', 'Rerr', 'Werr')]
        v = verdict(st, o)
        lays = [e for e in ev if e[0] == 'op' and e[1] == 'layout']
        decs = [e for e in ev if e[0] == 'op' and e[1] == 'decode']
        encs = [e for e in ev if e[0] == 'op' and e[1] == 'encode']
        alls = [e for e in ev if e[0] == 'Rall']
        hexs = [e for e in ev if e[0] == 'hex']

        if failed and v == 'ok':
            raise Bad('%s failed, yet success is reported' % (failed[0][1] if isinstance(failed[0][1], str) else show(failed[0][1])), 'verdict')
        if v == 'ok' and any(e[0] == 'unflushed' for e in ev):
            raise Bad('buffered output is dropped without a flush, whose failure goes unnoticed', 'verdict')
        # what is read, and how
        for e in [e for e in ev if e[1:2] == ('layout',) and e[0] in ('op', 'failed')]:
            src, mem, deep = (e[3:6] if e[0] == 'op' else e[2:5])
            if deep is not None and deep != (True, True):
                raise Bad('the layout is read with a limit on its nesting', 'layout')
            if mem or not src:
                raise Und('layout text')
            if set(src) != {('app', 'infile', (F['layout'],), 0)}:
                raise Bad('the layout is read from %s' % show(src[0]), 'layout')
        seqs, rules = [], []
        for e in [e for e in ev if e[1:2] == ('decode',) and e[0] in ('op', 'failed')]:
            vs, src = (e[3:5] if e[0] == 'op' else e[2:4])
            if len(lays) != 1:
                raise Und('layout')
            lay = lays[0][2]
            if src:
                raise Und('decoded from the file itself')
            want = None
            if len(alls) != 1 or alls[0][1] != ('app', 'infile', (F['binary'],), 0):
                if len(alls) == 1 and alls[0][1][0] == 'app' and alls[0][1][1] == 'infile':
                    raise Bad('the value is read from %s' % show(alls[0][1]), 'input')
                raise Und('input')
            if alls[0][3] is not None:
                raise Bad('at most %s bytes of the binary file are read' % show(alls[0][3]), 'input')
            raw = mk_vec((alls[0][2],))
            mine = [h for h in hexs if h[2] == raw or h[2] == ('utf8', raw)]
            if len(hexs) != len(mine):
                if any(h[2][0] == 'slice' and h[2][1] == raw and not has_opaque(h[2]) for h in hexs):
                    raise Bad('only part of the input is tried as hex', 'input')
                raise Und('hex decoding of part of the input')
            if not mine:
                raise Bad('the input is not tried as hex', 'input')
            want = mk_vec((('all', ('app', 'unhex', (mine[-1][2],), 0)),)) if mine[-1][1] else raw
            got = [x for x in vs if is_seq(x) and x not in rules]
            P_rule = [x for x in vs if x[0] == 'fld' and x[1] == lay]
            pend = [x for x in got if x[0] == 'vec' and len(x[1]) == 1 and x[1][0][0] == 'one']
            got = [x for x in got if x not in pend]
            if not got:
                raise Und('input of the decoder')
            if any(mk_vec(segs_of(x)) != want for x in got):
                if any(has_opaque(x) for x in got):
                    raise Und('input of the decoder: ' + show(got[0])[:100])
                raise Bad('decodes %s instead of %s' % (show(got[0])[:80], show(want)[:80]), 'input')
            if len(pend) != 1:
                raise Und('rule of the decoder')
            r = pend[0][1][0][1]
            for _ in range(5):
                if r[0] == 'ref':
                    r = E.read(st, (r[1], r[2]))
            i = Names(P).field('Layout', 'bin_prot_rule')
            if r != ('fld', lay, None, i):
                raise Bad('decodes with %s instead of the rule of the layout' % show(r)[:80], 'rule')

        rt = fact(st, F['roundtrip'])
        peqs = [(t, f[1]) for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'peq' and f[0] == 'iv']
        if v == 'error':
            if failed:
                return
            if decs and encs and rt is not None and not covers(rt, 0):
                enc = mk_vec((('all', ('app', 'encoding', (decs[0][2],), 0)),))
                if any({mk_vec(segs_of(x)) for x in t[1:]} == {want, enc} and not covers(iv, 1) for t, iv in peqs):
                    return
                if any(enc in [mk_vec(segs_of(x)) for x in t[1:]] for t, iv in peqs):
                    raise Und('comparison with ' + show(peqs[0][0])[:100])
            raise Bad('reports an error although nothing failed', 'verdict')

        # success
        if len(decs) != 1:
            raise Bad('reports success without having decoded the input', 'verdict')
        dec = decs[0][2]
        if rt is None or covers(rt, 1):
            enc = mk_vec((('all', ('app', 'encoding', (dec,), 0)),))
            if not any({mk_vec(segs_of(x)) for x in t[1:]} == {want, enc} and not covers(iv, 0) for t, iv in peqs):
                if any(mentions(t, ('app', 'encoding', (dec,), 0)) and enc not in [mk_vec(segs_of(x)) for x in t[1:]] and has_opaque(t) for t, iv in peqs):
                    raise Und('comparison')
                raise Bad('with --roundtrip, success does not depend on the re-encoded bytes being those of the input', 'roundtrip')
        out = [e for e in ev if e[0] == 'W' and any(mentions(s, dec) for s in e[2])]
        dest = fact(st, ('discr', F['output']))
        if dest is None:
            raise Bad('the output option has no effect', 'output')
        to = ('app', 'outfile', (('fld', F['output'], 1, 0),), 0) if not covers(dest, 0) else ('sym', 'stdout', 0, ())
        if not any(e[1] == to for e in out):
            raise Bad('the decoded value is not written to %s' % show(to), 'output')
    return rule


def covers(iv, n):
    return any(lo <= n <= hi for lo, hi in iv)


# ---------------------------------------------------------------- the checker
def h_from_reader(E, st, f, args, sp):
    ty = [t['s'] for t in Call(f, args, sp, None, E).tyargs()]
    vs = list(chase(E, st, args[0]))
    x = ('sym', 'decoded', st.n + 1, st.ctx)
    src = tuple(v for v in vs if (v[0] == 'app' and v[1] == 'infile') or v == ('sym', 'stdin', 0, ()))
    src += tuple(v for v in vs if v[0] == 'agg' and v[1] == '$take')
    E.decoders = getattr(E, 'decoders', {})
    if 'body' in f:
        E.decoders.setdefault(ty[-1] if ty else None, f['body'])
    out = both(st, 'decode', x, sp, src, ty[-1] if ty else None, base(f.get('rpath') or f.get('path') or '').endswith('strict'))
    return out


def h_position(E, st, f, args, sp):
    return both(st, 'position', ('sym', 'position', st.n + 1, st.ctx), sp)


CHECKER_HOOKS = (
    (lambda p: base(p).startswith('bin_prot::') and base(p).endswith(('::from_reader', '::from_reader_strict')) and 'Deserializer' not in p.split('::<')[0], h_from_reader),
    (lambda p: base(p).endswith(('::stream_position', 'Seek::seek')), h_position),
) + HOOKS

NAMES = {'nat0': 'Nat0', 'bool': 'Bool', 'int': 'Int', 'int32': 'Int32', 'int64': 'Int64', 'enum': 'Enum', 'record': 'Record', 'variant': 'Variant'}
TYPES = {'Nat0': 'std::vec::Vec<()>', 'Bool': 'bool', 'Int': 'i32', 'Int32': 'i32', 'Int64': 'i64'}


def test_bytes(p, P, N):
    """[(discriminant facts, items)] of the encoding of the payload p of a test"""
    EN, SN, VN = (payload(P, N, x) for x in ('Enum', 'Record', 'Variant'))
    enum = lambda x: [([(('discr', x), ((N.variant(EN, n), N.variant(EN, n)),))], [('b', I(i))]) for i, n in enumerate('ABC')]
    one = lambda *items: [([], list(items))]
    f = lambda x, n: ('fld', x, None, N.field(SN, n))
    rec = [(c, [('int', f(p, 'a')), ('b', f(p, 'b'))] + its) for c, its in enum(f(p, 'c'))]
    vs = [N.variant(VN, n) for n in 'ABC']
    pl = [('fld', p, i, 0) for i in vs]
    at = lambda k: (('discr', p), ((vs[k], vs[k]),))
    var = [([at(0)], [('b', ZERO), ('int', pl[0])]), ([at(1)], [('b', ONE), ('b', pl[1])])] + \
          [([at(2)] + c, [('b', I(2))] + its) for c, its in enum(pl[2])]
    return {'Nat0': one(('nat0', ('len', p)), ('loop', ('len', p), lambda K: [('b', ZERO)])),
            'Bool': one(('b', p)), 'Int': one(('int', p)), 'Int32': one(('int', p)), 'Int64': one(('int', p)),
            'Enum': enum(p), 'Record': rec, 'Variant': var}


def test_readers(P, N, ty):
    """how a value of one of the test types is read"""
    from typedspec import READ, agg
    EN, SN, VN = (payload(P, N, x) for x in ('Enum', 'Record', 'Variant'))

    def rd_e(c):
        return bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [
            (((i, i),), lambda c, k=N.variant(EN, n): [(c, VAL(('agg', N.adt(EN), k, ())))]) for i, n in enumerate('ABC')]))

    def rd_s(c):
        order = [N.field(SN, n) for n in 'abc']
        put = lambda xs: ('agg', N.adt(SN), 0, tuple(xs[order.index(j)] for j in range(3)))
        return bind(READ['typed::de_i32'](c), lambda c, a: bind(READ['typed::de_bool'](c), lambda c, b: bind(
            rd_e(c), lambda c, e: [(c, VAL(put([a, b, e])))])))

    def rd_v(c):
        w = lambda n, r: (lambda c: bind(r(c), lambda c, x: [(c, VAL(('agg', N.adt(VN), N.variant(VN, n), (x,))))]))
        return bind(rd_bytes(c, 1), lambda c, bs: cases(c, bs[0], [
            (((0, 0),), w('A', READ['typed::de_i32'])), (((1, 1),), w('B', READ['typed::de_bool'])), (((2, 2),), w('C', rd_e))]))
    return {'i32': READ['typed::de_i32'], 'i64': READ['typed::de_i64'], 'bool': READ['typed::de_bool'],
            EN: rd_e, SN: rd_s, VN: rd_v}.get(ty)


def payload(P, N, name):
    """type of what the test holds"""
    t = N.adts[N.adt('Test')]['variants'][N.variant('Test', name)]['fields'][0][1]
    return P.types[t]['s']


def test_name(E, st, N, test):
    d = fact(st, ('discr', test))
    if not d or len(d) != 1 or d[0][0] != d[0][1]:
        return None
    return N.adts[N.adt('Test')]['variants'][d[0][0]]['name']


def checker(P):
    F = option_fields(P, 'cmd', 'test', 'path')
    N = Names(P)
    SER, DE = N.variant('Subcommand', 'Serialize'), N.variant('Subcommand', 'Deserialize')

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] in ('unk', 'cut'):
            raise Und('%s %s' % (o[0], str(o[2])[:200]))
        for e in st.ev:
            if e[0] == 'unknown':
                raise Und('unmodelled ' + str(e[1]))
        if st.taint:
            raise Und('tainted')
        if opaque_facts(st):
            raise Und('opaque')
        v = verdict(st, o)
        ev = list(st.ev)
        failed = [e for e in ev if e[0] in ('failed', 'Rerr', 'Werr')] + [e for e in ev if e[0] == 'loop' and v == 'error' and has_failure(e)]
        if v == 'error':
            if failed or not feasible(E, st):
                return
            raise Bad('ends with an error although nothing failed', 'verdict')
        if failed:
            raise Bad('%s failed, yet the exit status is that of success' % (show(failed[0][1]) if isinstance(failed[0][1], tuple) else failed[0][1],), 'verdict')
        if any(e[0] == 'unflushed' for e in ev):
            raise Bad('buffered output is dropped without a flush, whose failure goes unnoticed', 'verdict')
        cmd, dest = fact(st, ('discr', F['cmd'])), fact(st, ('discr', F['path']))
        if cmd is None or dest is None:
            raise Bad('the %s on the command line has no effect' % ('command' if cmd is None else 'path'), 'option')
        file = not covers(dest, 0)
        path = ('fld', F['path'], 1, 0)
        if not covers(cmd, DE):
            to = ('app', 'outfile', (path,), 0) if file else ('sym', 'stdout', 0, ())
            other = [e for e in ev if e[0] == 'W' and e[1] != to and not (file and e[1] == ('sym', 'stdout', 0, ()))]
            if other:
                raise Bad('writes to %s instead of %s' % (show(other[0][1]), show(to)), 'dest')
            if not file and any(e[0] == 'W' and any(g[0] == 'all' and g[1][:2] == ('app', 'fmt') for g in e[2]) for e in ev):
                raise Bad('text is printed between the bytes of the encoding', 'dest')
            s = st.fork()
            s.ev = tuple(e for e in ev if not (e[0] == 'W' and e[1] != to) and not (e[0] == 'op'))
            t = test_name(E, st, N, F['test'])

            def exp(E, s0):
                out = []
                for i, vr in enumerate(N.adts[N.adt('Test')]['variants']):
                    for conds, items in test_bytes(('fld', F['test'], i, 0), P, N)[vr['name']]:
                        s1 = s0.fork()
                        if all(E.refine(s1, c, iv) for c, iv in [(('discr', F['test']), ((i, i),))] + conds):
                            out.append((s1, items))
                return out
            check_write(E, ('ret', s, Ok(UNIT)), exp)
            return
        frm = ('app', 'infile', (path,), 0) if file else ('sym', 'stdin', 0, ())
        decs = [e for e in ev if e[0] == 'op' and e[1] == 'decode']
        if len(decs) != 1:
            if not decs and not any(e[0] in ('R', 'Rall', 'loop') for e in ev):
                raise Bad('reports success without having decoded anything', 'verdict')
            raise Und('decoding')
        x, src, ty = decs[0][2:5]
        if any(v[0] == 'agg' for v in src):
            raise Bad('decodes no more than a fixed number of bytes', 'source')
        if src != (frm,):
            if len(src) == 1:
                raise Bad('decodes %s instead of %s' % (show(src[0]), show(frm)), 'source')
            raise Und('source')
        t = test_name(E, st, N, F['test'])
        if t is None:
            raise Und('test')
        want = TYPES.get(t) or payload(P, N, t)
        if ty is None or ty.split('::')[-1] != want.split('::')[-1]:
            raise Bad('decodes a value of type %s for the test %s, which holds %s' % (ty, t, want), 'type')
        if not any(e[0] == 'W' and e[1] == ('sym', 'stdout', 0, ()) and any(mentions(s, x) for s in e[2]) for e in ev):
            if any(e[0] == 'W' and e[1] == ('sym', 'stdout', 0, ()) and any(has_opaque(s) or not const_text(s) for s in e[2]) for e in ev):
                if os.environ.get('VERIF_DEBUG'):
                    print([e[2] for e in ev if e[0] == 'W'])
                raise Und('what is printed')
            raise Bad('what was decoded is not printed', 'print')
    return rule


def const_text(s):
    """made of constants and of what was on the command line"""
    if not isinstance(s, tuple):
        return True
    if len(s) > 1 and s[0] == 'sym':
        return s[1] in ('const', 'opt')
    return all(const_text(x) for x in s)


def mentions_kind(t, k):
    return isinstance(t, tuple) and ((len(t) > 1 and t[0] == k) or any(mentions_kind(y, k) for y in t))


def has_failure(e):
    return mentions_kind(e, 'Werr') or mentions_kind(e, 'Rerr') or mentions_kind(e, 'failed')


def test_names(P):
    N = Names(P)

    def rule(R, o):
        E, st = R.E, o[1]
        if o[0] in ('unk', 'cut'):
            raise Und('%s %s' % (o[0], str(o[2])[:200]))
        for e in st.ev:
            if e[0] == 'unknown':
                raise Und('unmodelled ' + str(e[1]))
        for t, f in st.facts.items():
            if isinstance(t, tuple) and f[0] == 'iv' and t[0] != 'streq':
                raise Und('depends on ' + show(t)[:100])
        yes = [t[2] for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'streq' and f[0] == 'iv' and not covers(f[1], 0)]
        no = [t[2] for t, f in st.facts.items() if isinstance(t, tuple) and t[0] == 'streq' and f[0] == 'iv' and not covers(f[1], 1)]
        name = lambda x: x[1] if x[0] == 's' else None
        yes, no = [name(x) for x in yes], [name(x) for x in no]
        if None in yes + no or len(yes) > 1:
            raise Und('comparison')
        cand = yes or [n for n in NAMES if n not in no] + ['']
        ok = o[0] == 'ret' and result_kind(o[2])[0] == 'ok'
        for n in cand:
            want = NAMES.get(n)
            if not ok:
                if want:
                    raise Bad('the test %r is refused' % n, 'name')
                continue
            pl = result_kind(o[2])[1]
            if pl[0] != 'agg':
                raise Und('test')
            got = N.adts[N.adt('Test')]['variants'][pl[2]]['name']
            if want is None:
                if n == '':
                    raise Bad('any other name is taken for the test %s' % got, 'name')
                continue
            if got != want:
                raise Bad('the test %r is %s instead of %s' % (n, got, want), 'name')
    return rule
