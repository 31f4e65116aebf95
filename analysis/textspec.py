"""Text forms: what text a value is written as, what a text is read as, and that reading inverts writing."""
import re
from spec import *
from terms import *
from engine import *
import models
from nodespec import Dead, explore, contradictory, possible, refute
from inputspec import deref, last, good, BASE_HOOKS
from models import ret, Some, NONE, ref_to, val


def const_bytes(v):
    if v[0] == 'bs':
        return v[1]
    return None


# ---------------------------------------------------------------- formatted text
# ('app', 'text', pieces): a piece is ('s', literal), ('disp', v), ('hex', v) or ('pad', piece, side, width, fill)
def text(pieces):
    out = []
    for p in pieces:
        q = (p,)
        if p[0] == 'disp' and p[1][0] == 's':
            q = (p[1],)
        elif p[0] == 'disp' and p[1][0] == 'app' and p[1][1] == 'text':
            q = p[1][2]
        elif p[0] == 'disp' and p[1][0] == 'i':
            q = (('s', str(p[1][1])),)
        for x in q:
            if x[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
            elif x != ('s', ''):
                out.append(x)
    if not out:
        return ('s', '')
    if len(out) == 1 and out[0][0] == 's':
        return out[0]
    if len(out) == 1 and out[0][0] == 'disp' and is_text(out[0][1]):
        return out[0][1]
    return ('app', 'text', tuple(out))


def is_text(v):
    return v[0] in ('s', 'utf8') or v[0] == 'app' and v[1] in ('text', 'part', 'rest', 'trim', 'b58', 'b64', 'hexs', 'addr') or v[0] == 'sym' and v[1] == 's'


def typed(E, st, v, f):
    """what is formatted has the range of its type"""
    T = E.T[next((a for a in f.get('args', []) if isinstance(a, int)), 0)]
    while T.get('k') == 'ref':
        T = E.T[T['e']]
    if T.get('k') == 'int' and not is_c(v):
        E.refine(st, v, (trange(T['w'], T['sg']),))


def hook_arg(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    if n not in ('new_display', 'new_lower_hex'):
        return None
    v = E.norm_deep(st, deref(E, st, args[0]))
    typed(E, st, v, f)
    return [('ret', st, ('app', 'farg', 'disp' if n == 'new_display' else 'hex', v))]


def hook_args(E, st, f, args, sp):
    """std::fmt's template: see library/core/src/fmt/mod.rs"""
    n = last(f.get('rpath') or f.get('path'))
    a0 = deref(E, st, args[0])
    if n in ('from_str', 'from_str_nonconst', 'new_const') and a0[0] == 's':
        return [('ret', st, text((a0,)))]
    b = const_bytes(a0)
    if n != 'new' or b is None or len(args) != 2:
        return None
    av = E.norm_deep(st, deref(E, st, args[1]))
    xs = [deref(E, st, x) for x in av[3]] if av[0] == 'agg' else None
    if xs is None:
        return None
    out, i, k = [], 0, 0
    while i < len(b) and b[i]:
        if b[i] < 0x80:
            out.append(('s', b[i + 1:i + 1 + b[i]].decode()))
            i += 1 + b[i]
            continue
        if b[i] == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(('s', b[i + 3:i + 3 + n].decode()))
            i += 3 + n
            continue
        h, i = b[i], i + 1
        flags = width = None
        if h & 1:
            flags, i = int.from_bytes(b[i:i + 4], 'little'), i + 4
        if h & 2:
            width, i = int.from_bytes(b[i:i + 2], 'little'), i + 2
        if h & 4 or h & 0x30:
            return None
        if h & 8:
            k, i = int.from_bytes(b[i:i + 2], 'little'), i + 2
        x = xs[k] if k < len(xs) else None
        k += 1
        if x is None or x[0] != 'app' or x[1] != 'farg':
            return None
        p = (x[2], x[3])
        if width is not None:
            fl = flags or 0x20
            fill, align, zero = chr(fl & 0x1fffff), (fl >> 29) & 3, fl >> 24 & 1
            num = not is_text(x[3])
            side = 'l' if zero and num else {0: 'r', 1: 'l', 2: 'c', 3: 'l' if num else 'r'}[align]
            p = ('pad', p, side, width, '0' if zero and num else fill)
            if p[1][0] == 'disp' and p[1][1][0] in ('s', 'i'):
                p = ('s', piece_of(('pad', ('disp', ('s', str(p[1][1][1]))), side, width, p[4]), {}))
        out.append(p)
    return [('ret', st, text(out))]


def hook_format(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    return [('ret', st, v)] if is_text(v) else None


def hook_to_string(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    if is_text(v):
        return [('ret', st, v)]
    if v[0] in ('i', 'lin') or numeric(E, st, v, f):
        return [('ret', st, text((('disp', v),)))]
    return None


def numeric(E, st, v, f):
    tys = [E.T[a] for a in f.get('args', []) if isinstance(a, int)]
    return bool(tys) and tys[0].get('k') == 'int'


def hook_write(E, st, f, args, sp):
    """what is written to a formatter is appended to the text it holds"""
    n = last(f.get('rpath') or f.get('path'))
    k = 0 if n == 'fmt' else 1
    v = E.norm_deep(st, deref(E, st, args[k]))
    if n == 'fmt':
        tid = [a for a in f.get('args', []) if isinstance(a, int)]
        T = E.T[tid[0]] if tid else {}
        if T.get('k') != 'str' and not T.get('path', '').endswith('string::String'):
            return None
    elif n == 'write_fmt' and not is_text(v):
        return None
    st.mem[('TXT',)] = text((('disp', st.mem.get(('TXT',), ('s', ''))), ('disp', v)))
    return [('ret', st, Ok(UNIT))]


# ---------------------------------------------------------------- texts taken apart
def sep(E, st, v):
    v = deref(E, st, v)
    return chr(v[1]) if v[0] == 'i' and v[1] < 128 else v[1] if v[0] == 's' and len(v[1]) == 1 else None


def hook_split(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    s, c = E.norm_deep(st, deref(E, st, args[0])), sep(E, st, args[1])
    if c is None:
        return None
    if n == 'split':
        return [('ret', st, ('agg', '#split', 0, (s, ('s', c), ZERO)))]
    k = nparts(E, st, s, c)
    out = []
    for one, a in E.split(st, ('cmp', '==', k, ONE)):
        if one:
            out.append(('ret', a, NONE))
            continue
        for two, b in E.split(a, ('cmp', '==', k, I(2))):
            p = part(s, c, 1) if two else ('app', 'rest', s, c)
            out.append(('ret', b, Some(('agg', 'tuple', None, (ref_to(part(s, c, 0)), ref_to(p))))))
    return out


def nparts(E, st, s, c):
    k = ('app', 'nparts', s, c)
    E.refine(st, k, ((1, (1 << 63) - 1),))
    return k


def part(s, c, i):
    return ('app', 'part', s, c, i)


def hook_next(E, st, f, args, sp):
    loc = models.loc_of(args[0])
    v = E.read(st, loc)
    if v[0] != 'agg' or v[1] != '#split' or v[3][2][0] != 'i':
        return None
    s, c, i = v[3][0], v[3][1][1], v[3][2][1]
    out = []
    for more, a in E.split(st, ('cmp', '<', I(i), nparts(E, st, s, c))):
        if more:
            E.write(a, loc, ('agg', '#split', 0, (s, v[3][1], I(i + 1))))
        out.append(('ret', a, Some(ref_to(part(s, c, i))) if more else NONE))
    return out


def hook_parse(E, st, f, args, sp):
    s = E.norm_deep(st, deref(E, st, args[0]))
    tys = [E.T[a] for a in f.get('args', []) if isinstance(a, int)]
    T = tys[-1] if tys else {}
    if T.get('k') != 'int' or T.get('sg'):
        return None
    top = (1 << T['w']) - 1
    err = Err(('agg', 'ParseIntError', 0, ()))
    if s[0] == 's':
        ok = re.fullmatch(r'\+?[0-9]+', s[1]) and int(s[1]) <= top
        return [('ret', st, Ok(I(int(s[1]))) if ok else err)]
    if s[0] == 'app' and s[1] == 'text' and len(s[2]) == 1 and s[2][0][0] == 'disp':
        v, is_num = s[2][0][1], TRUE
    elif s[0] == 'app' and s[1] == 'rest':
        return [('ret', st, err)]          # holds the separator
    else:
        v, is_num = ('app', 'num', s), ('pred', 'uint', s)
        E.refine(st, v, ((0, INF),))
    out = []
    for x, a in E.split(st, is_num):
        if not x:
            out.append(('ret', a, err))
            continue
        for y, b in E.split(a, ('cmp', '<=', v, I(top))):
            out.append(('ret', b, Ok(v) if y else err))
    return out


def hook_div_rem(E, st, f, args, sp):
    a, b = (deref(E, st, x) for x in args)
    t = E.T[[x for x in f.get('args', []) if isinstance(x, int)][0]] if f.get('args') else {}
    tid = [x for x in f.get('args', []) if isinstance(x, int)]
    if not is_c(b) or b == ZERO or not tid:
        return None
    return [('ret', st, ('agg', 'tuple', None, (E.binop(st, 'Div', a, b, tid[0]), E.binop(st, 'Rem', a, b, tid[0]))))]


def hook_digit(E, st, f, args, sp):
    v = E.norm(st, deref(E, st, args[0]))
    return [('ret', b, I(1 if x and y else 0)) for x, a in E.split(st, ('cmp', '<=', I(48), v))
            for y, b in (E.split(a, ('cmp', '<=', v, I(57))) if x else [(0, a)])]


# ---------------------------------------------------------------- encodings of bytes as text
def hook_b58e(E, st, f, args, sp):
    v, k = E.norm_deep(st, deref(E, st, args[0])), E.norm_deep(st, args[1])
    return [('ret', st, ('app', 'b58', v, k))]


def hook_b58d(E, st, f, args, sp):
    """with_check(Some(k)): valid characters and checksum, and the kind byte is k; it is left in front of what is returned"""
    s, chk, k = (E.norm_deep(st, deref(E, st, x)) for x in args)
    err = Err(('agg', 'bs58::decode::Error', 0, ()))
    if chk != ONE or k[0] != 'agg':
        return None
    if s[0] == 'app' and s[1] == 'b58' and s[3][0] == 'agg':
        if s[3][2] == 1 and k[2] == 1 and s[3] != k:
            return [('ret', st, err)]
        if s[3][2] == 1:
            return [('ret', st, Ok(mk_vec((('one', s[3][3][0]),) + tuple(segs_of(s[2])))))]
        return None
    out = []
    for x, a in E.split(st, ('pred', 'b58', s)):
        if not x:
            out.append(('ret', a, err))
            continue
        kind = b58_kind(E, a, s)
        for y, b in E.split(a, ('cmp', '==', kind, k[3][0] if k[2] == 1 else I(256))):
            if k[2] == 1:
                out.append(('ret', b, Ok(mk_vec((('one', k[3][0]), ('all', ('app', 'b58bytes', s))))) if y else err))
            else:
                out.append(('ret', b, Ok(mk_vec(()) if y else mk_vec((('one', kind), ('all', ('app', 'b58bytes', s)))))))
    return out


def b58_kind(E, st, s):
    """the kind byte of a text, 256 if it holds nothing"""
    k = ('app', 'b58kind', s)
    E.refine(st, k, ((0, 256),))
    return k


def hook_b64(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    v = E.norm_deep(st, deref(E, st, args[0]))
    c = E.norm_deep(st, args[1])
    if n.endswith('encode'):
        return [('ret', st, ('app', 'b64', v, c))]
    c = b64_key(c)
    if v[0] == 'app' and v[1] == 'b64':
        return [('ret', st, Ok(v[2]))] if b64_key(v[3]) == c else None
    return [('ret', a, Ok(('app', 'b64bytes', v, c)) if x else Err(('agg', 'DecodeError', 0, ()))) for x, a in E.split(st, ('pred', 'b64', v, c))]


def b64_key(c):
    """what of a configuration matters in reading: padding may be there or not"""
    return I(c[1] & 2) if is_c(c) else c


def hook_hex(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    v = E.norm_deep(st, deref(E, st, args[0]))
    err = Err(('agg', 'hex::FromHexError', 0, ()))
    if n == 'encode':
        return [('ret', st, ('app', 'hexs', v))]
    if n not in ('decode', 'decode_to_slice'):
        return None
    x = None
    if v[0] in ('app', 'slice', 'bytes'):
        x = unhex(v)
    res = []
    if x is not None:
        res.append((st, x))
    elif v[0] == 's':
        res.append((st, ('bs', bytes.fromhex(v[1])) if re.fullmatch('([0-9a-fA-F]{2})*', v[1]) else None))
    else:
        for ok, a in E.split(st, ('pred', 'hex', v)):
            if ok:
                res.append((a, ('app', 'unhex', v)))
            else:
                res.append((a, None))
    out = []
    for a, x in res:
        if x is None or n == 'decode':
            out.append(('ret', a, err if x is None else Ok(x)))
            continue
        loc = models.loc_of(args[1])
        cur = E.read(a, loc)
        for same, b in E.split(a, ('cmp', '==', seq_len(x), seq_len(cur))):
            if same:
                E.write(b, loc, x)
            out.append(('ret', b, Ok(UNIT) if same else err))
    return out


def unhex(v):
    """the bytes a text made by hex::encode stands for"""
    if v[0] == 'bytes':
        v = v[1]
    if v[0] == 'app' and v[1] == 'hexs':
        return v[2]
    if v[0] == 'slice' and is_c(v[2]):
        b, k = v[1], v[2][1]
        if b[0] == 'bytes':
            b = b[1]
        if b[0] == 'app' and b[1] == 'text' and b[2][0][0] == 's' and len(b[2][0][1]) == k and len(b[2]) == 2 and v[3] == seq_len(v[1]):
            p = b[2][1]
            if p[0] == 'disp' and p[1][0] == 'app' and p[1][1] == 'hexs':
                return p[1][2]
    return None


def hook_addr(E, st, f, args, sp):
    """the address of a key, and the key of an address: inverse functions"""
    n = last(f.get('rpath') or f.get('path'))
    if n == 'opaque_address_encode':
        return [('ret', st, ('app', 'addr') + tuple(E.norm_deep(st, deref(E, st, a)) for a in args))]
    s = E.norm_deep(st, deref(E, st, args[0]))
    return None if s[0] != 'app' or s[1] != 'addr' else [('ret', st, Ok(('agg', '#key', 0, s[2:])))]


def hook_binprot(E, st, f, args, sp):
    """bin_prot, which has its own properties: a function of the value, and its inverse on complete input"""
    n = last(f.get('rpath') or f.get('path'))
    if n == 'to_writer':
        v = E.norm_deep(st, deref(E, st, args[1]))
        loc = models.loc_of(args[0])
        for _ in range(4):
            cur = E.read(st, loc)
            if cur[0] != 'ref':
                break
            loc = (cur[1], cur[2])
        b = st.fork()
        E.write(st, loc, mk_vec(tuple(segs_of(cur)) + (('all', ('app', 'bp', v)),)))
        b.mem[('BPERR',)] = ONE
        return [('ret', st, Ok(UNIT)), ('ret', b, Err(('agg', '#binprot', 0, ())))]
    v = E.norm_deep(st, deref(E, st, args[0]))
    v = whole(E, st, v)
    err = Err(('agg', '#binprot', 0, ()))
    if v[0] == 'app' and v[1] == 'bp':
        return [('ret', st, Ok(v[2]))]
    q = ('pred', 'strict' if n == 'from_reader_strict' else 'prefix', v)
    return [('ret', a, Ok(('app', 'unbp', v)) if x else err) for x, a in E.split(st, q)]


def whole(E, st, v):
    """a slice that is all of one part"""
    if v[0] == 'slice':
        lo, segs = E.norm(st, v[2]), segs_of(v[1])
        if is_c(lo) and E.norm(st, v[3]) == E.norm(st, seq_len(v[1])):
            n = lo[1]
            while n and segs and segs[0][0] == 'one':
                segs, n = segs[1:], n - 1
            if not n and len(segs) == 1 and segs[0][0] == 'all':
                return segs[0][1]
    elif v[0] == 'vec':
        segs = segs_of(v)
        if len(segs) == 1 and segs[0][0] == 'all':
            return segs[0][1]
    return v


# ---------------------------------------------------------------- JSON values
VALUE, STR, ARR, OBJ = 'serde_json::Value', 3, 4, 5


def hook_conv(E, st, f, args, sp):
    a = f.get('args') or []
    rp = f.get('rpath') or f.get('path') or ''
    if f.get('trait') != 'std::convert::From' or len(a) != 2 or a[0] == a[1] or 'JsonProxy' not in E.T[a[0]]['s'] + E.T[a[1]]['s']:
        return None
    return [('ret', st, ('app', 'conv', E.norm_deep(st, deref(E, st, args[0]))))]


def hook_to_value(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    tid = [a for a in f.get('args', []) if isinstance(a, int)]
    T = E.T[tid[0]] if tid else {}
    while T.get('k') == 'ref':
        T = E.T[T['e']]
    if T.get('path') == VALUE:
        return [('ret', st, Ok(v))]
    if T.get('path', '').endswith('String') or T.get('k') == 'str':
        return [('ret', st, Ok(('agg', VALUE, STR, (v,))))]
    if T.get('k') in ('slice', 'array') or str(T.get('path', '')).endswith('Vec'):
        e = T.get('e') if T.get('e') is not None else (T.get('args') or [None])[0]
        if e is not None and E.T[e].get('path') == VALUE:
            return [('ret', st, Ok(('agg', VALUE, ARR, (v,))))]
        return None
    if not str(T.get('s', '')).endswith('JsonProxy'):
        return None
    out = []
    for x, a in E.split(st, ('pred', 'tojson', v)):
        if x:
            j = ('app', 'json', v)
            # an externally tagged sum: a name, or an object of one entry
            E.refine(a, ('discr', j), ((STR, STR), (OBJ, OBJ)))
            E.refine(a, ('app', 'maplen', ('fld', j, OBJ, 0)), ((1, 1),))
        out.append(('ret', a, Ok(('app', 'json', v)) if x else Err(('agg', '#json', 0, ()))))
    return out


def is_kind(v, k):
    if v[0] == 'agg':
        return I(1 if v[2] == k else 0)
    return ('cmp', '==', ('discr', v), I(k))


def hook_value(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    v = E.norm_deep(st, deref(E, st, args[0]))
    kinds = {'string': STR, 'str': STR, 'array': ARR, 'object': OBJ}
    k = kinds.get(n.split('_', 1)[-1])
    if k is None or n.endswith('_mut'):
        return None
    out = []
    for x, a in E.split(st, is_kind(v, k)):
        if n.startswith('is_'):
            out.append(('ret', a, I(1 if x else 0)))
        else:
            out.append(('ret', a, Some(ref_to(v[3][0] if v[0] == 'agg' else E.norm(a, ('fld', v, k, 0)))) if x else NONE))
    return out


def hook_value_mut(E, st, f, args, sp):
    loc = models.loc_of(args[0])
    v = E.read(st, loc)
    if v[0] != 'agg' or v[1] != VALUE:
        return None
    k = {'as_array_mut': ARR, 'as_object_mut': OBJ}[last(f.get('rpath') or f.get('path'))]
    return [('ret', st, Some(('ref', loc[0], tuple(loc[1]) + (('f', k, 0),))) if v[2] == k else NONE)]


def hook_map(E, st, f, args, sp):
    n = last(f.get('rpath') or f.get('path'))
    if n in ('new', 'with_capacity'):
        return [('ret', st, ('agg', '#map', 0, ()))]
    if n == 'insert':
        loc = models.loc_of(args[0])
        m = E.read(st, loc)
        if m[0] != 'agg' or m[3]:
            return None
        E.write(st, loc, ('agg', '#map', 0, (E.norm_deep(st, args[1]), E.norm_deep(st, args[2]))))
        return [('ret', st, NONE)]
    m = E.norm_deep(st, deref(E, st, args[0]))
    if n == 'len':
        return [('ret', st, E.norm(st, ('app', 'maplen', m)))]
    if n in ('iter', 'into_iter'):
        return [('ret', st, ('agg', '#mapiter', 0, (m, ZERO)))]
    return None


def hook_map_next(E, st, f, args, sp):
    loc = models.loc_of(args[0])
    v = E.read(st, loc)
    if v[0] != 'agg' or v[1] != '#mapiter' or not is_c(v[3][1]):
        return None
    m, i = v[3][0], v[3][1][1]
    if E.norm(st, ('app', 'maplen', m)) != ONE and E.truth(st, ('cmp', '==', ('app', 'maplen', m), ONE)) != 1:
        return None
    if i:
        return [('ret', st, NONE)]
    E.write(st, loc, ('agg', '#mapiter', 0, (m, ONE)))
    return [('ret', st, Some(('agg', 'tuple', None, (ref_to(('app', 'mapkey', m)), ref_to(('app', 'mapval', m))))))]


def hook_from_value(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    tid = [a for a in f.get('args', []) if isinstance(a, int)]
    T = E.T[tid[0]] if tid else {}
    err = Err(('agg', '#json', 0, ()))
    if T.get('path', '').endswith('string::String'):
        if v[0] == 'agg':
            return [('ret', st, Ok(v[3][0]) if v[2] == STR else err)]
        return [('ret', a, Ok(E.norm(a, ('fld', v, STR, 0))) if x else err) for x, a in E.split(st, is_kind(v, STR))]
    if not str(T.get('s', '')).endswith('JsonProxy'):
        return None
    return [('ret', a, Ok(('app', 'unjson', v)) if x else err) for x, a in E.split(st, ('pred', 'json', v))]


def hook_value_de(E, st, f, args, sp):
    v = E.norm_deep(st, deref(E, st, args[0]))
    return [('ret', st, Ok(v[3][0]))] if v[0] == 'agg' and last(v[1]) == 'ValueDe' else None


def tyname(E, f):
    tid = [a for a in f.get('args', []) if isinstance(a, int)]
    T = E.T[tid[0]] if tid else {}
    while T.get('k') == 'ref':
        T = E.T[T['e']]
    return 'str' if T.get('k') == 'str' or T.get('path', '').endswith('string::String') else T.get('s', '')


def hook_json_text(E, st, f, args, sp):
    """a JSON text that is passed on from a string or to one: ('app', 'jsontext', the string)"""
    n, t = last(f.get('rpath') or f.get('path')), tyname(E, f)
    v = E.norm_deep(st, deref(E, st, args[0]))
    err = Err(('agg', '#json', 0, ()))
    if n == 'to_string':
        if t == 'str':
            return [('ret', st, Ok(('app', 'jsontext', v)))]
        return [('ret', a, Ok(('app', 'jsontext', ('app', 'written', t, v))) if x else err) for x, a in E.split(st, ('pred', 'writable', t, v))]
    if v[0] != 'app' or v[1] != 'jsontext':
        return None
    if t == 'str':
        return [('ret', st, Ok(v[2]))]
    if v[2] == ('s', ''):
        return [('ret', st, err)]          # no text form is empty
    return [('ret', a, Ok(('app', 'read', t, v[2])) if x else err) for x, a in E.split(st, ('pred', 'readable', t, v[2]))]


def at(*names):
    return lambda p: last(p) in names


HOOKS = (
    (lambda p: p.startswith('serde_json') and last(p) in ('to_string', 'from_str'), hook_json_text),
    (lambda p: 'fmt::' in p and last(p) in ('new_display', 'new_lower_hex'), hook_arg),
    (lambda p: 'Arguments' in p and last(p) in ('new', 'from_str', 'from_str_nonconst', 'new_const'), hook_args),
    (lambda p: p.endswith('fmt::format') or p.endswith('fmt::format::format_inner'), hook_format),
    (at('to_string'), hook_to_string), (lambda p: 'Formatter' in p and last(p) in ('write_fmt', 'write_str', 'pad') or 'Display' in p and last(p) == 'fmt', hook_write),
    (lambda p: 'str' in p and last(p) in ('split', 'split_once'), hook_split), (lambda p: 'Split' in p and last(p) == 'next', hook_next),
    (lambda p: 'str' in p and last(p) == 'parse', hook_parse), (at('div_rem', 'div_mod_floor'), hook_div_rem), (at('is_ascii_digit'), hook_digit),
    (at('opaque_base58_encode'), hook_b58e), (at('opaque_base58_decode'), hook_b58d),
    (at('opaque_base64_encode', 'opaque_base64_decode'), hook_b64), (lambda p: 'hex::' in p and last(p) in ('encode', 'decode', 'decode_to_slice'), hook_hex),
    (lambda p: 'bin_prot' in p and last(p) in ('to_writer', 'from_reader_strict', 'from_reader'), hook_binprot),
    (lambda p: 'From<' in p and p.endswith('::from'), hook_conv), (lambda p: p.endswith('serde_json::to_value'), hook_to_value),
    (lambda p: p.endswith('serde_json::from_value'), hook_from_value), (lambda p: 'serde_json::Value' in p and p.endswith('::deserialize'), hook_value_de),
    (lambda p: 'Value::as_' in p and p.endswith('_mut'), hook_value_mut), (lambda p: 'Value::' in p and re.match('(is|as)_', last(p)), hook_value),
    (lambda p: 'serde_json' in p and 'Map' in p and last(p) in ('new', 'with_capacity', 'insert', 'len', 'iter', 'into_iter'), hook_map),
    (lambda p: 'serde_json' in p and last(p) == 'next', hook_map_next),
    (at('opaque_address_encode', 'opaque_address_decode'), hook_addr),
) + BASE_HOOKS


# ================================================================ evaluation of derived terms, to construct counterexamples
class NoVal(Exception):
    pass


SETS = {'trim_end_matches': str.rstrip, 'trim_start_matches': str.lstrip, 'trim_matches': str.strip}


def value_of(t, env):
    """the value of a term for given inputs: an int, a str or bytes"""
    if t in env:
        return env[t]
    h = t[0]
    if h == 's':
        return t[1]
    if h == 'utf8':
        return as_bytes(value_of(t[1], env)).decode()
    if h == 'chars':
        return tuple(map(ord, as_str(value_of(t[1], env))))
    if h == 'agg' and t[1] == 'array':
        return tuple(value_of(x, env) for x in t[3])
    if h == 'bytes':
        return as_bytes(value_of(t[1], env))
    if h == 'len':
        return len(as_bytes(value_of(t[1], env)))
    if h == 'elem':
        b, i = as_bytes(value_of(t[1], env)), value_of(t[2], env)
        if not 0 <= i < len(b):
            raise NoVal
        return b[i]
    if h == 'slice':
        b = as_bytes(value_of(t[1], env))
        lo, hi = value_of(t[2], env), value_of(t[3], env)
        if not 0 <= lo <= hi <= len(b):
            raise NoVal
        return b[lo:hi]
    if h == 'strfn':
        a = [value_of(x, env) for x in t[2:]]
        a = [chr(x) if isinstance(x, int) else x for x in a]
        if isinstance(a[-1], tuple):        # any of some characters
            if t[1] not in SETS:
                raise NoVal
            return SETS[t[1]](a[0], ''.join(map(chr, a[-1])))
        return models.STR_FOLD[t[1]](*a)
    if h == 'pred' and t[1] == 'uint':
        return int(bool(re.fullmatch(r'\+?[0-9]+', as_str(value_of(t[2], env)), re.A)))
    if h == 'app':
        n = t[1]
        if n == 'num':
            x = as_str(value_of(t[2], env))
            if not re.fullmatch(r'\+?[0-9]+', x, re.A):
                raise NoVal
            return int(x)
        if n in ('part', 'nparts', 'rest'):
            xs = as_str(value_of(t[2], env)).split(t[3])
            if n == 'nparts':
                return len(xs)
            if n == 'rest':
                return t[3].join(xs[1:])
            if t[4] >= len(xs):
                raise NoVal
            return xs[t[4]]
        if n == 'text':
            return ''.join(piece_of(p, env) for p in t[2])
    if h in ARITH or h in ('cmp', 'not'):
        def pick(x):
            v = value_of(x, env)
            if not isinstance(v, int):
                raise NoVal
            return v
        try:
            return ev(t, {}, pick)
        except (CantEval, ZeroDivisionError):
            raise NoVal
    raise NoVal


def as_bytes(x):
    if isinstance(x, int):
        raise NoVal
    return x.encode() if isinstance(x, str) else x      # bytes, or a tuple of characters


def as_str(x):
    try:
        return x.decode() if isinstance(x, bytes) else x if isinstance(x, str) else str(x)
    except UnicodeDecodeError:
        raise NoVal


def piece_of(p, env):
    if p[0] == 's':
        return p[1]
    if p[0] == 'disp':
        return as_str(value_of(p[1], env))
    if p[0] == 'pad':
        x = piece_of(p[1], env)
        return x.rjust(p[3], p[4]) if p[2] == 'l' else x.ljust(p[3], p[4]) if p[2] == 'r' else x.center(p[3], p[4])
    raise NoVal


def covers(E, st, env):
    """does the path class hold this input?  None if a fact about it cannot be evaluated"""
    ks = sorted({t for f in list(st.facts) if isinstance(f, tuple) for t in indices(f)}, key=repr)
    for e in st.ev:
        if e[0] == 'loop':
            K = ('k', e[1])
            try:
                n = value_of(E.norm(st, e[2]), env)
            except NoVal:
                if K not in ks:
                    return None
                continue
            for i in range(n):
                env2 = dict(env)
                env2[K] = I(i)[1]
                if not any(all(holds(t, iv, env2) for t, iv in alt) for alt in e[6]):
                    return False
    if len(ks) > 2:
        return None
    return any_index(st, env, ks)


def indices(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] == 'k':
            out.add(t)
        else:
            for x in t:
                indices(x, out)
    return out


def any_index(st, env, ks):
    if ks:
        res = False
        for i in range(26):
            r = any_index(st, dict(env, **{}) | {ks[0]: i}, ks[1:])
            if r:
                return r
            res = None if r is None else res
        return res
    for t, f in st.facts.items():
        if f[0] != 'iv':
            return None
        if not isinstance(t, tuple) or t[0] == 'k' and t not in env:
            continue
        r = holds(t, f[1], env)
        if not r:
            return r
    return True


def holds(t, iv, env):
    try:
        v = value_of(t, env)
    except NoVal:
        # facts about a part that is not there do not hold
        return False if t[0] in ('elem', 'len', 'app', 'lin') else None
    if not isinstance(v, int):
        return None
    return any(lo <= v <= hi for lo, hi in iv)


# ================================================================ numbers
COIN = 10 ** 9
U64 = (1 << 64) - 1
INTS = ['0', '1', '9', '10', '007', '255', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '99999999999999999999999',
        '-1', '', ' 1', '1 ', 'a', '1a', '0x10', '1.0', '1_0', '\u0661']
FRACS = ['0', '1', '1.5', '0.000000001', '1.000000030', '1.00000003', '1.300000000', '0.1234567890', '0.1234567891', '1.9999999999', '1.2.3', '1.2.',
         '1.-5', '1.+5', '-1', '', '.5', 'a', '1.x', '1.5x', '1. 5', '18446744073.709551615', '18446744073.709551616', '18446744073.71', '18446744074',
         '18446744073', '18446744073709551615', '18446744073709551616', '99999999999.0', '0.18446744073709551615', '0.99999999999999999999999',
         '0000.1', '12345.6789', '10', '100.01', '0.0000000000']


def read_int(top):
    def f(s):
        return int(s) if re.fullmatch('[0-9]+', s, re.A) and int(s) <= top else None
    return f


def read_fixed(s):
    m = re.fullmatch(r'([0-9]+)(?:\.([0-9]{1,9}))?', s, re.A)
    if not m:
        return None
    v = int(m.group(1)) * COIN + int((m.group(2) or '0').ljust(9, '0'))
    return v if v <= U64 else None


def write_fixed(full):
    def f(v):
        s = '%d.%09d' % divmod(v, COIN)
        return s if full else s.rstrip('0').rstrip('.')
    return f


def the_input(R, name):
    E = R.E
    for n, pl in R.body.get('names', []):
        if len(pl) == 1 and n == name:
            v = R.args[pl[0] - 1]
            return v
    raise Und('no input ' + name)


def outcome_value(E, st, o):
    """(kind, payload)"""
    if o[0] == 'panic':
        return 'panic', None
    v = E.norm(st, o[2])
    if v[0] != 'agg':
        raise Und('result ' + show(v)[:100])
    return ('ok', E.norm_deep(st, v[3][0])) if v[2] == 0 else ('err', None)


def inner(E, st, v):
    while v[0] == 'agg' and len(v[3]) == 1 and not v[1].startswith('#'):
        v = v[3][0]
    return v


def by_example(E, st, o, S, pool, oracle):
    """an input of the path class for which its result is wrong"""
    kind, v = outcome_value(E, st, o)
    for s in pool:
        env = {S: s}
        if not covers(E, st, env):
            continue
        want = oracle(s)
        if kind == 'panic':
            return 'panics (%s) for "%s"' % (o[2][0], s), 'panic'
        if kind == 'err' and want is not None:
            return 'refuses "%s", which is %d' % (s, want), 'refused'
        if kind == 'ok':
            try:
                got = value_of(inner(E, st, v), env)
            except NoVal:
                continue
            if want is None:
                return 'reads "%s" as %s' % (s, got), 'accepted'
            if got != want:
                return 'reads "%s" as %s' % (s, got), 'value'
    return None


def decided(E, st, o, S, ok, pool, oracle):
    """ok: what the specification says about the path class, or None"""
    good(o)
    if ok:
        return
    bad = by_example(E, st, o, S, pool, oracle)
    if bad:
        raise Bad(bad[0], bad[1])
    if contradictory(E, st):
        return
    raise Und('path class not decided')


def string_of(E, st, R):
    v = the_input(R, 's')
    return E.norm_deep(st, deref(E, st, v))


def bounds(E, st, n):
    """the known range of a number read from a text, which is not that of any machine type"""
    f = st.facts.get(E.norm(st, n))
    return f[1] if f and f[0] == 'iv' else ((0, INF),)


def rule_int(top):
    def rule(R, o):
        E, st = R.E, o[1]
        good(o)
        S = string_of(E, st, R)
        kind, v = outcome_value(E, st, o)
        p, n = E.truth(st, ('pred', 'uint', S)), ('app', 'num', S)
        q = bounds(E, st, n)
        fits = 1 if q and q[-1][1] <= top else 0 if q and q[0][0] > top else None
        ok = kind == 'ok' and p == 1 and fits == 1 and inner(E, st, v) == n or kind == 'err' and (p == 0 or p == 1 and fits == 0)
        decided(E, st, o, S, ok, INTS, read_int(top))
    return rule


def digits(E, st, x):
    """is x made of digits only, as far as the path has looked"""
    b, c = ('bytes', x), ('chars', x)
    n = E.norm(st, ('len', x))
    if E.truth(st, ('cmp', '==', n, ZERO)) == 1:
        return 1
    for t, f in st.facts.items():
        if f[0] == 'iv' and isinstance(t, tuple) and t[0] == 'elem' and t[1] in (b, x, c) and not iv_meet(f[1], ((48, 57),)):
            return 0
    for e in st.ev:
        if e[0] == 'loop' and E.norm(st, e[2]) in (n, ('len', c)) and e[3] and e[6]:
            K = ('k', e[1])
            if all(any(t in (('elem', b, K), ('elem', x, K), ('elem', c, K)) and iv_sub(iv, ((48, 57),)) for t, iv in alt) for alt in e[6]):
                return 1
    return None


def rule_fixed(R, o):
    E, st = R.E, o[1]
    good(o)
    S = string_of(E, st, R)
    kind, v = outcome_value(E, st, o)
    k, P0, P1 = ('app', 'nparts', S, '.'), part(S, '.', 0), part(S, '.', 1)
    tr = lambda c: E.truth(st, c)
    pad = text((('pad', ('disp', P1), 'r', 9, '0'),))
    one, many = tr(('cmp', '==', k, ONE)), tr(('cmp', '<', I(2), k))
    frac = ZERO if one == 1 else ('app', 'num', pad)
    conds = [tr(('pred', 'uint', P0)), 1 if many == 0 else 0 if many == 1 else None]
    if one != 1:
        short, dig = tr(('cmp', '<=', ('len', P1), I(9))), digits(E, st, P1)
        if tr(('cmp', '<', I(1), k)) == 1:
            conds += [short, dig]
            if short == 1 and dig == 1:
                r = bounds(E, st, frac)
                if tr(('pred', 'uint', pad)) == 0 or r and r[0][0] >= COIN:
                    return              # nine digits are a number below 10^9
        else:
            conds.append(None)
    total = E.norm_deep(st, add(scale(('app', 'num', P0), COIN), frac))
    if kind == 'ok':
        ok = all(c == 1 for c in conds) and E.norm_deep(st, inner(E, st, v)) == total
    elif kind == 'err':
        q = E.iv(st, total)
        n = bounds(E, st, ('app', 'num', P0))
        ok = 0 in conds or conds[0] == 1 and (q and q[0][0] > U64 or n and n[0][0] * COIN > U64)
    else:
        ok = False
    decided(E, st, o, S, ok, FRACS, read_fixed)


VALUES = [0, 1, 9, 10, 255, 999999999, COIN, COIN + 1, COIN + 30, 1300000000, 10 * COIN, 100 * COIN + 5, 1234567891234, U64 // COIN * COIN, U64, U64 - 1, 4294967295]


def text_written(E, st):
    if ('TXT',) not in st.mem and any(e[0] == 'unknown' for e in st.ev):
        raise Und('nothing is known to be written')
    return st.mem.get(('TXT',), ('s', ''))


def written(E, st, o, R):
    good(o)
    if o[0] == 'panic':
        return 'panic', None
    v = E.norm(st, o[2])
    if v[0] == 'agg' and v[2] == 0 and v[3][0] == UNIT:
        return 'ok', text_written(E, st)
    return outcome_value(E, st, o)


def rule_number(want, oracle, top):
    """what a number is written as"""
    def rule(R, o):
        E, st = R.E, o[1]
        kind, got = written(E, st, o, R)
        X = E.norm(st, ('fld', deref(E, st, the_input(R, 'v')), None, 0))
        if kind == 'ok' and E.norm_deep(st, got) in [E.norm_deep(st, w) for w in forms(E, st, X, want)]:
            return
        for x in VALUES:
            if x > top or not covers(E, st, {X: x}):
                continue
            if kind != 'ok':
                raise Bad('writing %d %s' % (x, 'panics' if kind == 'panic' else 'fails'), kind)
            try:
                s = as_str(value_of(got, {X: x}))
            except NoVal:
                continue
            if s != oracle(x):
                raise Bad('%d is written as "%s" (%s)' % (x, s, oracle(x)), 'value')
        if contradictory(E, st):
            return
        raise Und('text %s' % (show(got)[:200] if got else kind))
    return rule


def forms(E, st, X, want):
    """the text, and what it is the same as on this path"""
    w = want(E, st, X)
    out = [w]
    if w[0] == 'strfn':
        r = E.truth(st, ('cmp', '==', ('rem', X, I(COIN)), ZERO))
        if r == 1:
            out.append(text((('disp', ('div', X, I(COIN))),)))
        if r == 0:
            out.append(w[2])            # the last digit left is not 0, and is not the point
    return out


def as_plain(E, st, X):
    return text((('disp', X),))


def as_fixed(full):
    def f(E, st, X):
        t = text((('disp', ('div', X, I(COIN))), ('s', '.'), ('pad', ('disp', ('rem', X, I(COIN))), 'l', 9, '0')))
        return t if full else ('strfn', 'trim_end_matches', ('strfn', 'trim_end_matches', t, I(48)), I(46))
    return f


# ================================================================ encoded bytes
def field0(E, st, R, i=0):
    v = deref(E, st, the_input(R, 'v'))
    return E.norm_deep(st, ('fld', v, None, i))


def some(n):
    return Some(I(n))


def bp(v):
    return ('app', 'bp', v)


def w_hash(ver):
    return lambda E, st, R: ('app', 'b58', bp(field0(E, st, R)), some(ver))


def w_raw58(ver):
    return lambda E, st, R: ('app', 'b58', field0(E, st, R), some(ver))


def w_vrf58(E, st, R):
    x = field0(E, st, R)
    return ('app', 'b58', mk_vec((('one', byte(seq_len(x), 0)), ('all', x))), some(0x15))


def w_field(E, st, R):
    return text((('s', '0x'), ('disp', ('app', 'hexs', field0(E, st, R)))))


def w_key(E, st, R):
    return ('app', 'addr', ('app', 'fe', field0(E, st, R)), field0(E, st, R, 1))


# name: (what it is written as, what it is read from)
HASHES = {'ledger_hash': 5, 'coinbase_hash': 0xc, 'epoch_seed': 0xd, 'state_hash': 0x10, 'body_hash': 0x11, 'stack_data': 0x17, 'stack_hash': 0x18,
          'vrf_hash': 0x15, 'signature': 0x9a}
RAW = {'aux': 0xe, 'pending_aux': 0xf, 'memo': 0x14}
URL_SAFE = I(2)


def same_value(E, st, a, b):
    a, b = E.norm_deep(st, inner(E, st, a)), E.norm_deep(st, inner(E, st, b))
    if a == b or whole(E, st, a) == whole(E, st, b):
        return 1
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and a[1] in ('b58', 'b64', 'text', 'addr', 'bp', 'hexs') and len(a) == len(b):
        r = 1
        for x, y in zip(a[2:], b[2:]):
            if a[1] == 'text':
                r = min(r, 1 if x == y else None or 0.5)
                continue
            q = same_value(E, st, x, y)
            if q == 0:
                return 0
            r = 0.5 if q is None else r
        return 1 if r == 1 else None
    if a[0] == 'i' and b[0] == 'i':
        return 0
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and len(a[3]) == len(b[3]):
        if a[2] != b[2]:
            return 0
        r = 1
        for x, y in zip(a[3], b[3]):
            q = same_value(E, st, x, y)
            if q == 0:
                return 0
            r = None if q is None else r
        return r
    if seqish(a) and seqish(b):
        return same_seq(E, st, a, b)
    if a[0] == 'app' and b[0] == 'app' and a[1] != b[1] and a[1] in ('b58', 'b64', 'addr') and b[1] in ('b58', 'b64', 'addr', 'text'):
        return 0
    return None


def seqish(v):
    return v[0] in ('vec', 'slice', 'elem', 'fld', 'bytes', 'utf8') or v[0] == 'app' and v[1] in ('b58bytes', 'b64bytes', 'unhex', 'bp')


def same_seq(E, st, a, b):
    la, lb = (E.norm_deep(st, seq_len(x)) for x in (a, b))
    d = E.iv(st, E.norm(st, sub(la, lb)))
    if d and (d[0][0] > 0 or d[-1][1] < 0):
        return 0
    if la != lb and not (d and d == ((0, 0),)):
        return None
    K = ('k', ('spec', 'seq'))
    x, y = (elem_at(E, st, v, K) for v in (a, b))
    if x == y:
        return 1
    n = E.iv(st, lb)
    if x[0] == 'elem' and y[0] == 'elem' and x[1] == y[1]:
        k = E.norm(st, sub(x[2], y[2]))
        if is_c(k) and k != ZERO and n and n[-1][1] >= 1:
            return 0                    # shifted
    return None


def elem_at(E, st, v, i):
    if v[0] == 'vec':
        segs = list(segs_of(v))
        if len(segs) == 1 and segs[0][0] == 'c':
            t = subst(segs[0][3], {segs[0][2]: i})
            if t[0] == 'elem':
                return elem_at(E, st, t[1], t[2])
            return E.norm_deep(st, t)
        c, d = lin_of(i)
        while c > 0 and segs and segs[0][0] == 'one':
            segs, c = segs[1:], c - 1
        if len(segs) == 1 and segs[0][0] == 'all':
            return elem_at(E, st, segs[0][1], mk_lin(c, d))
    if v[0] == 'slice':
        return elem_at(E, st, v[1], add(i, v[2]))
    return ('elem', v, i)


def foreign(E, st, S, *atoms):
    """facts about the text that are not among the questions of the specification"""
    for t, f in st.facts.items():
        if f[0] == 'iv' and isinstance(t, tuple) and has(t, S):
            if t[:2] == ('pred', 'b64') and t[2] == S:
                continue                # another alphabet: some texts are in one and not in the other, either way
            if t[:2] == ('pred', 'prefix'):
                t = ('pred', 'strict', t[2])    # weaker: holds for more texts
            u = t
            for a in atoms:
                u = subst(u, {a: ZERO})
            if has(u, S):
                return True
    return False


def rule_write(want, unsafe=False):
    def rule(R, o):
        E, st = R.E, o[1]
        kind, got = written(E, st, o, R)
        if kind == 'err' and st.mem.get(('BPERR',)):
            return
        if kind != 'ok':
            refute(E, st, 'writing panics (%s)' % o[2][0] if kind == 'panic' else 'writing fails', kind)
        r = same_value(E, st, got, want(E, st, R))
        if r == 0:
            refute(E, st, 'is written as %s, not as %s' % (show(got)[:160], show(want(E, st, R))[:160]), 'value')
        if r != 1:
            raise Und('%s against %s' % (show(got)[:200], show(want(E, st, R))[:200]))
    return rule


def rule_utf8(R, o):
    """text of any bytes; a string must be valid UTF-8"""
    E, st = R.E, o[1]
    kind, got = written(E, st, o, R)
    X = field0(E, st, R)
    if kind == 'err':
        bad = E.truth(st, ('pred', 'utf8', X))
        if bad == 0:
            return
        raise Und('refused')
    if kind == 'panic':
        refute(E, st, 'writing panics (%s)' % o[2][0], 'panic')
    if got[0] != 'utf8':
        raise Und(show(got)[:200])
    want = X if seqish(X) and X[0] != 'elem' and not is_char(R) else mk_vec((('one', X),))
    r = same_value(E, st, got[1], want)
    if r == 0:
        refute(E, st, 'is written as the bytes %s' % show(got[1])[:160], 'value')
    if r is None:
        raise Und(show(got)[:200])
    if any(e[0] == 'unsafe-utf8' for e in st.ev) and E.truth(st, ('pred', 'utf8', got[1])) != 1:
        if is_char(R):
            q = E.iv(st, X)
            if q and q[-1][1] < 128:
                return
        raise Bad('a byte above 0x7f makes a string that is not valid UTF-8', 'utf8')


def is_char(R):
    return R.name.endswith('w_char')


def impossible(E, st):
    """bytes that are one value and nothing else do start with a value"""
    for t, f in st.facts.items():
        if isinstance(t, tuple) and t[:2] == ('pred', 'prefix') and E.truth(st, t) == 0 and E.truth(st, ('pred', 'strict', t[2])) == 1:
            raise Dead


def plain(E, st, S):
    """the facts about the text are ones that hold or not independently of each other, for some text"""
    def free(t):
        return t[0] == 'pred' and t[1] in ('b58', 'b64') and t[2] == S or t == ('app', 'b58kind', S) or \
            (t[0] == 'len' or t[0] == 'pred' and t[1] in ('strict', 'prefix')) and t[-1][0] == 'app' and t[-1][1] in ('b58bytes', 'b64bytes') and t[-1][2] == S
    return all(free(t) for t, f in st.facts.items() if isinstance(t, tuple) and f[0] == 'iv' and has(t, S))


def rule_read(spec):
    """spec(t, S): the value, or None if the text is to be refused"""
    def rule(R, o):
        good(o)
        E = R.E
        S = string_of(E, o[1], R)

        def each(t):
            st = t.st
            atoms = []

            def ask(c):
                atoms.append(c)
                return t.test(c)
            kind, got = outcome_value(E, st, o)
            want = spec(E, st, ask, S, atoms)
            impossible(E, st)

            def bad(m, k):
                if foreign(E, st, S, *atoms):
                    raise Und(m + ': a text seen in another way')
                if plain(E, st, S):
                    raise Bad(m, k)
                refute(E, st, m, k)
            if kind == 'panic':
                if contradictory(E, st):
                    raise Dead
                bad( 'reading panics (%s) at %s' % (o[2][0], o[2][1]), 'panic')
            if kind == 'err':
                if want is not None:
                    bad('a valid text is refused', 'refused')
                return
            if want is None:
                bad('an invalid text is read as %s' % show(got)[:120], 'accepted')
            r = same_value(E, st, got, want)
            if r == 0:
                bad('is read as %s, not as %s' % (show(got)[:160], show(want)[:160]), 'value')
            if r is None:
                raise Und('%s against %s' % (show(got)[:200], show(want)[:200]))
        explore(E, o[1], each)
    return rule


def r_hash(ver):
    def spec(E, st, ask, S, atoms):
        if not ask(('pred', 'b58', S)):
            return None
        kind = b58_kind(E, st, S)
        atoms.append(kind)
        if not ask(('cmp', '==', kind, I(ver))):
            return None
        p = ('app', 'b58bytes', S)
        atoms.append(p)
        return ('app', 'unbp', p) if ask(('pred', 'strict', p)) else None
    return spec


def r_raw58(ver, skip=0):
    def spec(E, st, ask, S, atoms):
        if not ask(('pred', 'b58', S)):
            return None
        kind = b58_kind(E, st, S)
        atoms.append(kind)
        if not ask(('cmp', '==', kind, I(ver))):
            return None
        p = ('app', 'b58bytes', S)
        atoms.append(p)
        if skip:
            if ask(('cmp', '<', seq_len(p), I(skip))):
                return mk_vec(())
            return ('slice', p, I(skip), seq_len(p))
        return p
    return spec


def r_64(E, st, ask, S, atoms):
    c = b64_key(URL_SAFE)
    atoms.append(('pred', 'b64', S, c))
    if not ask(('pred', 'b64', S, c)):
        return None
    p = ('app', 'b64bytes', S, c)
    atoms.append(p)
    return p


def r_proof(E, st, ask, S, atoms):
    p = r_64(E, st, ask, S, atoms)
    return ('app', 'unbp', p) if p is not None and ask(('pred', 'strict', p)) else None


def r_field(E, st, ask, S, atoms):
    n = E.norm(st, ('len', S))
    b = E.norm(st, ('bytes', S))
    x = S
    atoms += [n, ('elem', S, ZERO), ('elem', S, ONE), ('elem', b, ZERO), ('elem', b, ONE)]
    el = lambda i: E.norm(st, seq_get(S, I(i)))
    if ask(('cmp', '<', ONE, n)) and ask(('cmp', '==', el(1), I(120))) and (ask(('cmp', '==', el(0), I(48))) or ask(('cmp', '==', el(0), I(92)))):
        x = E.norm(st, ('slice', S, I(2), n))
    if not ask(('pred', 'hex', x)):
        return None
    v = ('app', 'unhex', x)
    atoms.append(v)
    return v if ask(('cmp', '==', seq_len(v), I(32))) else None


def r_char(E, st, ask, S, atoms):
    atoms += [('len', S)]
    return E.norm(st, seq_get(('bytes', S), ZERO)) if ask(('cmp', '==', ('len', S), ONE)) else None


def r_bytes(E, st, ask, S, atoms):
    return ('bytes', S)


def rule_back(R, o):
    """what was written is read back"""
    E, st = R.E, o[1]
    good(o)
    kind, got = outcome_value(E, st, o)
    if kind == 'err' and st.mem.get(('BPERR',)):
        return
    if kind != 'ok':
        refute(E, st, 'reading what was written %s' % ('panics (%s)' % o[2][0] if kind == 'panic' else 'fails'), 'back')
    v = deref(E, st, the_input(R, 'v'))
    n = len(got[3]) if got[0] == 'agg' else 1
    for i in range(n):
        w = E.norm_deep(st, ('fld', v, None, i))
        g = got[3][i] if got[0] == 'agg' else got
        if g == ('app', 'fe', w):
            continue
        r = same_value(E, st, g, w)
        if r == 0:
            refute(E, st, 'what was written is read back as %s' % show(g)[:160], 'back')
        if r is None:
            raise Und('%s against %s' % (show(g)[:200], show(w)[:200]))


# ================================================================ list tagged sums
NOT_EXPANDED = ('body', 'point', 'challenge')


def rule_listed_write(expand):
    def rule(R, o):
        good(o)
        E = R.E

        def each(t):
            st = t.st
            kind, got = outcome_value(E, st, o)
            if kind == 'panic':
                refute(E, st, 'writing panics (%s)' % o[2][0], 'panic')
            v = E.norm_deep(st, deref(E, st, the_input(R, 'v')))
            c = ('app', 'conv', v)
            if not t.test(('pred', 'tojson', c)):
                if kind == 'ok':
                    raise Und('no value')
                return
            if kind == 'err':
                refute(E, st, 'writing fails', 'err')
            j = ('app', 'json', c)
            if got[0] != 'app' or got[1] != 'opaque_as_value':
                raise Und(show(got)[:200])
            got = got[2]
            if t.test(('cmp', '==', ('discr', j), I(STR))):
                want = mk_vec((('one', j),))
            else:
                m = ('fld', j, OBJ, 0)
                k, x = ('agg', VALUE, STR, (('app', 'mapkey', m),)), ('app', 'mapval', m)
                if expand and t.test(('cmp', '==', ('discr', x), I(ARR))):
                    want = mk_vec((('one', k), ('all', ('fld', x, ARR, 0))))
                else:
                    want = mk_vec((('one', k), ('one', x)))
            if got[0] != 'agg' or got[1] != VALUE:
                raise Und(show(got)[:200])
            if got[2] != ARR:
                refute(E, st, 'is not written as a list', 'value')
            r = same_list(E, st, got[3][0], want)
            if E.norm_deep(st, got[3][0]) != want and list_payload(E, R) and t.test(('cmp', '==', ('discr', j), I(OBJ))) and t.test(('cmp', '==', ('discr', x), I(ARR))) \
                    and flat(E, st, got[3][0], k, x) in (0, 1) and flat(E, st, got[3][0], k, x) != expand:
                raise Bad('what a variant holds is %s the list' % ('put as one entry in' if expand else 'spread over'), 'value')
            if r == 0:
                refute(E, st, 'is written as %s, not as %s' % (show(got)[:200], show(want)[:200]), 'value')
            if r is None:
                raise Und('%s against %s' % (show(got)[:200], show(want)[:200]))
        explore(E, o[1], each)
    return rule


def list_payload(E, R):
    """has the sum a variant whose contents are a list in JSON"""
    T = E.T[R.body['locals'][1]]
    while T.get('k') == 'ref':
        T = E.T[T['e']]
    for v in E.p.adts.get(T.get('path'), {}).get('variants', ()):
        fs = v['fields']
        if fs and not fs[0][0].isdigit():
            continue
        if len(fs) >= 2:
            return True
        if len(fs) == 1:
            F = E.T[fs[0][1]]
            if F.get('k') in ('tuple', 'array') or F.get('path', '').endswith('Vec') or F.get('path', '').endswith(LISTED):
                return True
    return False


LISTED = ('::StakeDelegationJson', '::OneORTwoJson', '::SgnTypeJson', '::TransactionStatusJson', '::CoinBaseJson')


def flat(E, st, got, k, x):
    """is the list [k, x] (0), or k and the entries of x (1)"""
    ss = list(segs_of(E.norm_deep(st, got)))
    if len(ss) != 2 or ss[0] != ('one', k):
        return None
    if ss[1] == ('one', x):
        return 0
    if ss[1][0] == 'one':
        return None
    return same_seq(E, st, ss[1][1] if ss[1][0] == 'all' else mk_vec((ss[1],)), ('fld', x, ARR, 0)) or None


def same_list(E, st, a, b):
    a, b = E.norm_deep(st, a), E.norm_deep(st, b)
    if a == b:
        return 1
    sa, sb = list(segs_of(a)), list(segs_of(b))
    while sa and sb and sa[0][0] == 'one' and sb[0][0] == 'one':
        if sa[0] != sb[0]:
            return 0 if sa[0][1][0] in ('agg', 'app') and sb[0][1][0] in ('agg', 'app') else None
        sa, sb = sa[1:], sb[1:]
    if not sa and not sb:
        return 1
    if not sa or not sb:
        d = E.iv(st, seq_len(mk_vec(tuple(sa or sb))))
        return 0 if d and d[-1][1] > 0 else None
    if sa[0][0] == 'one' or sb[0][0] == 'one':
        return 0 if len(sa) == 1 and len(sb) == 1 else None
    x, y = (s[0][1] if len(s) == 1 and s[0][0] == 'all' else mk_vec(tuple(s)) for s in (sa, sb))
    return same_seq(E, st, x, y)


def rule_listed_read(R, o):
    good(o)
    E = R.E

    def each(t):
        st = t.st
        S = E.norm_deep(st, deref(E, st, the_input(R, 's')))
        kind, got = outcome_value(E, st, o)
        if kind == 'panic':
            if contradictory(E, st):
                raise Dead
            refute(E, st, 'reading panics (%s) at %s' % (o[2][0], o[2][1]), 'panic')
        want = None
        a = ('fld', S, ARR, 0)
        if t.test(('cmp', '==', ('discr', S), I(ARR))):
            n = seq_len(a)
            e0, e1 = E.norm(st, seq_get(a, ZERO)), E.norm(st, seq_get(a, ONE))
            if t.test(('cmp', '==', n, ZERO)):
                pass
            elif t.test(('cmp', '==', n, ONE)):
                want = e0
            elif t.test(('cmp', '==', ('discr', e0), I(STR))):
                x = e1 if t.test(('cmp', '==', n, I(2))) else ('agg', VALUE, ARR, (E.norm(st, ('slice', a, ONE, n)),))
                want = ('agg', VALUE, OBJ, (('agg', '#map', 0, (('fld', e0, STR, 0), x)),))
        if want is not None and not t.test(('pred', 'json', want)):
            want = None
        if kind == 'err':
            if want is not None:
                refute(E, st, 'a valid list is refused', 'refused')
            return
        if want is None:
            refute(E, st, 'an invalid value is read', 'accepted')
        if got[0] != 'app' or got[1] != 'conv' or got[2][0] != 'app' or got[2][1] != 'unjson':
            raise Und(show(got)[:200])
        if got[2][2] != want:
            refute(E, st, 'is read as %s, not as %s' % (show(got[2][2])[:200], show(want)[:200]), 'value')
    explore(E, o[1], each)


LISTED = ('one_or_two', 'sgn', 'command', 'body', 'delegation', 'status', 'coinbase', 'balance', 'shifted', 'point', 'challenge')


def rules():
    out = [('w_u32', rule_number(as_plain, str, (1 << 32) - 1)), ('w_u64', rule_number(as_plain, str, U64)), ('w_decimal', rule_number(as_fixed(False), write_fixed(False), U64)),
           ('fmt_amount', rule_number(as_fixed(True), write_fixed(True), U64)),
           ('r_u32', rule_int((1 << 32) - 1)), ('r_u64', rule_int(U64)), ('r_decimal', rule_fixed), ('parse_amount', rule_fixed),
           ('w_char', rule_utf8), ('w_bytes', rule_utf8), ('r_char', rule_read(r_char)), ('r_bytes', rule_read(r_bytes)), ('b_char', rule_back), ('b_bytes', rule_back)]
    for n, k in HASHES.items():
        out += [('w_' + n, rule_write(w_hash(k))), ('r_' + n, rule_read(r_hash(k))), ('b_' + n, rule_back)]
    for n, k in RAW.items():
        out += [('w_' + n, rule_write(w_raw58(k))), ('r_' + n, rule_read(r_raw58(k))), ('b_' + n, rule_back)]
    out += [('w_vrf58', rule_write(w_vrf58)), ('r_vrf58', rule_read(r_raw58(0x15, 1))), ('b_vrf58', rule_back),
            ('w_vrf64', rule_write(lambda E, st, R: ('app', 'b64', field0(E, st, R), URL_SAFE))), ('r_vrf64', rule_read(r_64)), ('b_vrf64', rule_back),
            ('w_proof', rule_write(lambda E, st, R: ('app', 'b64', bp(field0(E, st, R)), URL_SAFE))), ('r_proof', rule_read(r_proof)), ('b_proof', rule_back),
            ('w_field', rule_write(w_field)), ('r_field', rule_read(r_field)),
            ('w_key', rule_write(w_key)), ('b_key', rule_back)]
    for n in LISTED:
        out += [('wl_' + n, rule_listed_write(n not in NOT_EXPANDED)), ('rl_' + n, rule_listed_read)]
    return out
