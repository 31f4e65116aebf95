#!/usr/bin/env python3
"""Writes witness_conv/src/autofrom.rs and analysis/convtable.py: the family of types whose generated conversions C15 analyses.
kinds: X an element that is converted, u a part that stays as it is, V/O/B a Vec/Option/Box of X; q.. the same by a full path."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TY = {'X': '%s', 'u': 'u64', 'V': 'Vec<%s>', 'O': 'Option<%s>', 'B': 'Box<%s>', 'v': 'std::vec::Vec<%s>', 'o': 'std::option::Option<%s>',
      'b': '::std::boxed::Box<%s>', 'a': '[u64; 2]', 't': '(u64, u8)', 's': 'f64', 'W': 'Vec%s', 'P': 'plain::%s'}
KIND = {'X': 'X', 'u': 'u', 'V': 'V', 'O': 'O', 'B': 'X', 'v': 'V', 'o': 'O', 'b': 'X', 'a': 'u', 't': 'u', 's': 'u', 'W': 'X', 'P': 'X'}
L = 'abcdefghijklmnopqrstuvwxyz'
S = {}   # family -> (shape, fields)


def named(fam, kinds, names=None, **k):
    S[fam] = ('named', list(zip(names or L, kinds)), k)


def tup(fam, kinds, **k):
    S[fam] = ('tup', [(str(i), c) for i, c in enumerate(kinds)], k)


named('Named', 'XVOBXVOBvuu', targets=2)
for c in 'XuVOBWP':
    named('One' + ('Plain' if c == 'u' else c if c in 'XVOB' else 'Sub' + c), c)
    tup('Single' + ('Plain' if c == 'u' else c if c in 'XVOB' else 'Sub' + c), c)
named('Long', 'uXuXuXuXXuXuXuXVOBuX')
named('Vecs', 'VVVVV')
named('Options', 'OOOO')
named('Boxes', 'BBBBBBBBB')
named('Places', 'BuuXOuX', names=['item', 't', 'v1', 'v0', 'ident', 'r#type', 'from'])
named('Paths', 'vobatsP')
named('Back', 'uXBOV', names=['z', 'y', 'x', 'w', 'v'], targets=3)
tup('Tup', 'XVOBXVOBuu')
tup('TupLong', 'XuXuXuuuXXXuBVO')
tup('TupBoxes', 'BBBBBBBB')
tup('TupVecs', 'VVVV')
tup('TupOptions', 'OOOO')
tup('TupPaths', 'vobatsPW')
S['Enum'] = ('enum', {'U': '', 'T1': 'X', 'T2': 'XVOBX', 'T3': 'uu', 'S1': [('a', 'X')], 'S2': list(zip(L, 'XVOBXuu')), 'V': ''}, {})
big = {}
for n in range(1, 9):
    big['T%d' % n] = ('XuXuBXuX' * 2)[:n]
    big['S%d' % n] = list(zip(L, ('uXBuXXuX' * 2)[:n]))
    big['N%d' % n] = ''
for c in 'VOBXu':
    big['Only' + c] = c
    big['Field' + c] = [('f', c)]
    big['First' + c] = c + 'uX'
    big['Last' + c] = 'Xu' + c
    big['Mid' + c] = [('p', 'X'), ('q', c), ('r', 'u')]
big['Swap'] = [('v1', 'u'), ('v0', 'u'), ('item', 'X'), ('t', 'X'), ('r#type', 'B')]
big['Vec'] = 'uu'
big['Option'] = [('b', 'u'), ('a', 'u')]
big['Other'] = 'X'
big['Long'] = 'uXuXuXuXuXuXuu'
big['LongNamed'] = list(zip(L, 'uXuXuXuXuXuXuu'))
big['Paths'] = 'vobatsPW'
big['PathsNamed'] = list(zip(L, 'vobatsPW'))
S['Big'] = ('enum', big, {})
S['Units'] = ('enum', {n: '' for n in 'ABCDEFGHIJKL'}, {})
S['One'] = ('enum', {'Only': 'V'}, {'targets': 2})


def fields(fs, x):
    return ', '.join(('' if n.isdigit() else n + ': ') + (TY[c] % x if '%s' in TY[c] else TY[c]) for n, c in fs)


def pub(fs, x):
    return ', '.join('pub ' + f for f in fields(fs, x).split(', ')) if not any(c == 't' for _, c in fs) else ', '.join('pub ' + fields([f], x) for f in fs)


def body(fam, i, shape, fs, x, rev):
    name = '%s%d' % (fam, i)
    if shape == 'named':
        return 'pub struct %s { %s }' % (name, pub(fs[::-1] if rev else fs, x))
    if shape == 'tup':
        return 'pub struct %s(%s);' % (name, pub(fs, x))
    out = []
    for v, p in (list(fs.items())[::-1] if rev else fs.items()):
        if p == '':
            out.append(v)
        elif isinstance(p, str):
            out.append('%s(%s)' % (v, fields([(str(j), c) for j, c in enumerate(p)], x)))
        else:
            out.append('%s { %s }' % (v, fields(p[::-1] if rev else p, x)))
    return 'pub enum %s { %s }' % (name, ', '.join(out))


rs = ['''//! Types deriving `AutoFrom`: the generated conversions are the roots. Written by tools/gen_conv.py.
use mina_serialization_types_macros::AutoFrom;
use versioned::Versioned;

pub struct X(pub u64);
pub struct Y(pub u64);
impl From<X> for Y { fn from(x: X) -> Y { Y(x.0) } }
impl From<Y> for X { fn from(x: Y) -> X { X(x.0) } }
pub use X as VecX;
pub use Y as VecY;
pub mod plain { pub use super::{X, Y}; }
''']
roots = []
table = []
for fam, (shape, fs, k) in S.items():
    n = k.get('targets', 1)
    rs.append('#[derive(AutoFrom)]')
    for j in range(n):
        rs.append('#[auto_from(%s%d)]' % (fam, j + 2))
    rs.append(body(fam, 1, shape, fs, 'X', False))
    for j in range(n):
        # every second target keeps the elements as they are
        rs.append(body(fam, j + 2, shape, fs, 'Y' if j % 2 == 0 else 'X', j % 2 == 0))
        roots.append('roots!(%s%d %s1, %s%d);' % (fam.lower(), j + 2, fam, fam, j + 2))
        F = {v: tuple((f.replace('r#', ''), KIND[c]) for f, c in ([(str(i), c) for i, c in enumerate(p)] if isinstance(p, str) else p)) for v, p in fs.items()} if shape == 'enum' else tuple((f.replace('r#', ''), KIND[c]) for f, c in fs)
        table.append(('autofrom::%s%d' % (fam.lower(), j + 2), fam + '1', '%s%d' % (fam, j + 2), j % 2 == 0, F))
    rs.append('')
rs.append('''macro_rules! roots { ($m:ident $a:ty, $b:ty) => { pub mod $m {
    use super::*;
    pub fn to0(v: $a) -> $b { v.into() }
    pub fn of0(v: $b) -> $a { v.into() }
    pub fn to1<const A: u16>(v: $a) -> Versioned<$b, A> { v.into() }
    pub fn of1<const A: u16>(v: Versioned<$b, A>) -> $a { v.into() }
    pub fn to2<const A: u16, const B: u16>(v: $a) -> Versioned<Versioned<$b, A>, B> { v.into() }
    pub fn of2<const A: u16, const B: u16>(v: Versioned<Versioned<$b, A>, B>) -> $a { v.into() }
    pub fn to3<const A: u16, const B: u16, const C: u16>(v: $a) -> Versioned<Versioned<Versioned<$b, A>, B>, C> { v.into() }
    pub fn of3<const A: u16, const B: u16, const C: u16>(v: Versioned<Versioned<Versioned<$b, A>, B>, C>) -> $a { v.into() }
    pub fn to4<const A: u16, const B: u16, const C: u16, const D: u16>(v: $a) -> Versioned<Versioned<Versioned<Versioned<$b, A>, B>, C>, D> { v.into() }
    pub fn of4<const A: u16, const B: u16, const C: u16, const D: u16>(v: Versioned<Versioned<Versioned<Versioned<$b, A>, B>, C>, D>) -> $a { v.into() }
} } }''')
rs += roots
open(ROOT + '/witness_conv/src/autofrom.rs', 'w').write('\n'.join(rs) + '\n')
with open(ROOT + '/analysis/convtable.py', 'w') as f:
    f.write('"""Family of AutoFrom types, written by tools/gen_conv.py: (module, source, target, elements converted, fields)"""\nTABLE = [\n')
    for t in table:
        f.write('    %r,\n' % (t,))
    f.write(']\n')
