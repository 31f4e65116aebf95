//! Types deriving `AutoFrom`: the generated conversions are the roots. Written by tools/gen_conv.py.
use mina_serialization_types_macros::AutoFrom;
use versioned::Versioned;

pub struct X(pub u64);
pub struct Y(pub u64);
impl From<X> for Y { fn from(x: X) -> Y { Y(x.0) } }
impl From<Y> for X { fn from(x: Y) -> X { X(x.0) } }
pub use X as VecX;
pub use Y as VecY;
pub mod plain { pub use super::{X, Y}; }

#[derive(AutoFrom)]
#[auto_from(Named2)]
#[auto_from(Named3)]
pub struct Named1 { pub a: X, pub b: Vec<X>, pub c: Option<X>, pub d: Box<X>, pub e: X, pub f: Vec<X>, pub g: Option<X>, pub h: Box<X>, pub i: std::vec::Vec<X>, pub j: u64, pub k: u64 }
pub struct Named2 { pub k: u64, pub j: u64, pub i: std::vec::Vec<Y>, pub h: Box<Y>, pub g: Option<Y>, pub f: Vec<Y>, pub e: Y, pub d: Box<Y>, pub c: Option<Y>, pub b: Vec<Y>, pub a: Y }
pub struct Named3 { pub a: X, pub b: Vec<X>, pub c: Option<X>, pub d: Box<X>, pub e: X, pub f: Vec<X>, pub g: Option<X>, pub h: Box<X>, pub i: std::vec::Vec<X>, pub j: u64, pub k: u64 }

#[derive(AutoFrom)]
#[auto_from(OneX2)]
pub struct OneX1 { pub a: X }
pub struct OneX2 { pub a: Y }

#[derive(AutoFrom)]
#[auto_from(SingleX2)]
pub struct SingleX1(pub X);
pub struct SingleX2(pub Y);

#[derive(AutoFrom)]
#[auto_from(OnePlain2)]
pub struct OnePlain1 { pub a: u64 }
pub struct OnePlain2 { pub a: u64 }

#[derive(AutoFrom)]
#[auto_from(SinglePlain2)]
pub struct SinglePlain1(pub u64);
pub struct SinglePlain2(pub u64);

#[derive(AutoFrom)]
#[auto_from(OneV2)]
pub struct OneV1 { pub a: Vec<X> }
pub struct OneV2 { pub a: Vec<Y> }

#[derive(AutoFrom)]
#[auto_from(SingleV2)]
pub struct SingleV1(pub Vec<X>);
pub struct SingleV2(pub Vec<Y>);

#[derive(AutoFrom)]
#[auto_from(OneO2)]
pub struct OneO1 { pub a: Option<X> }
pub struct OneO2 { pub a: Option<Y> }

#[derive(AutoFrom)]
#[auto_from(SingleO2)]
pub struct SingleO1(pub Option<X>);
pub struct SingleO2(pub Option<Y>);

#[derive(AutoFrom)]
#[auto_from(OneB2)]
pub struct OneB1 { pub a: Box<X> }
pub struct OneB2 { pub a: Box<Y> }

#[derive(AutoFrom)]
#[auto_from(SingleB2)]
pub struct SingleB1(pub Box<X>);
pub struct SingleB2(pub Box<Y>);

#[derive(AutoFrom)]
#[auto_from(OneSubW2)]
pub struct OneSubW1 { pub a: VecX }
pub struct OneSubW2 { pub a: VecY }

#[derive(AutoFrom)]
#[auto_from(SingleSubW2)]
pub struct SingleSubW1(pub VecX);
pub struct SingleSubW2(pub VecY);

#[derive(AutoFrom)]
#[auto_from(OneSubP2)]
pub struct OneSubP1 { pub a: plain::X }
pub struct OneSubP2 { pub a: plain::Y }

#[derive(AutoFrom)]
#[auto_from(SingleSubP2)]
pub struct SingleSubP1(pub plain::X);
pub struct SingleSubP2(pub plain::Y);

#[derive(AutoFrom)]
#[auto_from(Long2)]
pub struct Long1 { pub a: u64, pub b: X, pub c: u64, pub d: X, pub e: u64, pub f: X, pub g: u64, pub h: X, pub i: X, pub j: u64, pub k: X, pub l: u64, pub m: X, pub n: u64, pub o: X, pub p: Vec<X>, pub q: Option<X>, pub r: Box<X>, pub s: u64, pub t: X }
pub struct Long2 { pub t: Y, pub s: u64, pub r: Box<Y>, pub q: Option<Y>, pub p: Vec<Y>, pub o: Y, pub n: u64, pub m: Y, pub l: u64, pub k: Y, pub j: u64, pub i: Y, pub h: Y, pub g: u64, pub f: Y, pub e: u64, pub d: Y, pub c: u64, pub b: Y, pub a: u64 }

#[derive(AutoFrom)]
#[auto_from(Vecs2)]
pub struct Vecs1 { pub a: Vec<X>, pub b: Vec<X>, pub c: Vec<X>, pub d: Vec<X>, pub e: Vec<X> }
pub struct Vecs2 { pub e: Vec<Y>, pub d: Vec<Y>, pub c: Vec<Y>, pub b: Vec<Y>, pub a: Vec<Y> }

#[derive(AutoFrom)]
#[auto_from(Options2)]
pub struct Options1 { pub a: Option<X>, pub b: Option<X>, pub c: Option<X>, pub d: Option<X> }
pub struct Options2 { pub d: Option<Y>, pub c: Option<Y>, pub b: Option<Y>, pub a: Option<Y> }

#[derive(AutoFrom)]
#[auto_from(Boxes2)]
pub struct Boxes1 { pub a: Box<X>, pub b: Box<X>, pub c: Box<X>, pub d: Box<X>, pub e: Box<X>, pub f: Box<X>, pub g: Box<X>, pub h: Box<X>, pub i: Box<X> }
pub struct Boxes2 { pub i: Box<Y>, pub h: Box<Y>, pub g: Box<Y>, pub f: Box<Y>, pub e: Box<Y>, pub d: Box<Y>, pub c: Box<Y>, pub b: Box<Y>, pub a: Box<Y> }

#[derive(AutoFrom)]
#[auto_from(Places2)]
pub struct Places1 { pub item: Box<X>, pub t: u64, pub v1: u64, pub v0: X, pub ident: Option<X>, pub r#type: u64, pub from: X }
pub struct Places2 { pub from: Y, pub r#type: u64, pub ident: Option<Y>, pub v0: Y, pub v1: u64, pub t: u64, pub item: Box<Y> }

#[derive(AutoFrom)]
#[auto_from(Paths2)]
pub struct Paths1 { pub a: std::vec::Vec<X>, pub b: std::option::Option<X>, pub c: ::std::boxed::Box<X>, pub d: [u64; 2], pub e: (u64, u8), pub f: f64, pub g: plain::X }
pub struct Paths2 { pub g: plain::Y, pub f: f64, pub e: (u64, u8), pub d: [u64; 2], pub c: ::std::boxed::Box<Y>, pub b: std::option::Option<Y>, pub a: std::vec::Vec<Y> }

#[derive(AutoFrom)]
#[auto_from(Back2)]
#[auto_from(Back3)]
#[auto_from(Back4)]
pub struct Back1 { pub z: u64, pub y: X, pub x: Box<X>, pub w: Option<X>, pub v: Vec<X> }
pub struct Back2 { pub v: Vec<Y>, pub w: Option<Y>, pub x: Box<Y>, pub y: Y, pub z: u64 }
pub struct Back3 { pub z: u64, pub y: X, pub x: Box<X>, pub w: Option<X>, pub v: Vec<X> }
pub struct Back4 { pub v: Vec<Y>, pub w: Option<Y>, pub x: Box<Y>, pub y: Y, pub z: u64 }

#[derive(AutoFrom)]
#[auto_from(Tup2)]
pub struct Tup1(pub X, pub Vec<X>, pub Option<X>, pub Box<X>, pub X, pub Vec<X>, pub Option<X>, pub Box<X>, pub u64, pub u64);
pub struct Tup2(pub Y, pub Vec<Y>, pub Option<Y>, pub Box<Y>, pub Y, pub Vec<Y>, pub Option<Y>, pub Box<Y>, pub u64, pub u64);

#[derive(AutoFrom)]
#[auto_from(TupLong2)]
pub struct TupLong1(pub X, pub u64, pub X, pub u64, pub X, pub u64, pub u64, pub u64, pub X, pub X, pub X, pub u64, pub Box<X>, pub Vec<X>, pub Option<X>);
pub struct TupLong2(pub Y, pub u64, pub Y, pub u64, pub Y, pub u64, pub u64, pub u64, pub Y, pub Y, pub Y, pub u64, pub Box<Y>, pub Vec<Y>, pub Option<Y>);

#[derive(AutoFrom)]
#[auto_from(TupBoxes2)]
pub struct TupBoxes1(pub Box<X>, pub Box<X>, pub Box<X>, pub Box<X>, pub Box<X>, pub Box<X>, pub Box<X>, pub Box<X>);
pub struct TupBoxes2(pub Box<Y>, pub Box<Y>, pub Box<Y>, pub Box<Y>, pub Box<Y>, pub Box<Y>, pub Box<Y>, pub Box<Y>);

#[derive(AutoFrom)]
#[auto_from(TupVecs2)]
pub struct TupVecs1(pub Vec<X>, pub Vec<X>, pub Vec<X>, pub Vec<X>);
pub struct TupVecs2(pub Vec<Y>, pub Vec<Y>, pub Vec<Y>, pub Vec<Y>);

#[derive(AutoFrom)]
#[auto_from(TupOptions2)]
pub struct TupOptions1(pub Option<X>, pub Option<X>, pub Option<X>, pub Option<X>);
pub struct TupOptions2(pub Option<Y>, pub Option<Y>, pub Option<Y>, pub Option<Y>);

#[derive(AutoFrom)]
#[auto_from(TupPaths2)]
pub struct TupPaths1(pub std::vec::Vec<X>, pub std::option::Option<X>, pub ::std::boxed::Box<X>, pub [u64; 2], pub (u64, u8), pub f64, pub plain::X, pub VecX);
pub struct TupPaths2(pub std::vec::Vec<Y>, pub std::option::Option<Y>, pub ::std::boxed::Box<Y>, pub [u64; 2], pub (u64, u8), pub f64, pub plain::Y, pub VecY);

#[derive(AutoFrom)]
#[auto_from(Enum2)]
pub enum Enum1 { U, T1(X), T2(X, Vec<X>, Option<X>, Box<X>, X), T3(u64, u64), S1 { a: X }, S2 { a: X, b: Vec<X>, c: Option<X>, d: Box<X>, e: X, f: u64, g: u64 }, V }
pub enum Enum2 { V, S2 { g: u64, f: u64, e: Y, d: Box<Y>, c: Option<Y>, b: Vec<Y>, a: Y }, S1 { a: Y }, T3(u64, u64), T2(Y, Vec<Y>, Option<Y>, Box<Y>, Y), T1(Y), U }

#[derive(AutoFrom)]
#[auto_from(Big2)]
pub enum Big1 { T1(X), S1 { a: u64 }, N1, T2(X, u64), S2 { a: u64, b: X }, N2, T3(X, u64, X), S3 { a: u64, b: X, c: Box<X> }, N3, T4(X, u64, X, u64), S4 { a: u64, b: X, c: Box<X>, d: u64 }, N4, T5(X, u64, X, u64, Box<X>), S5 { a: u64, b: X, c: Box<X>, d: u64, e: X }, N5, T6(X, u64, X, u64, Box<X>, X), S6 { a: u64, b: X, c: Box<X>, d: u64, e: X, f: X }, N6, T7(X, u64, X, u64, Box<X>, X, u64), S7 { a: u64, b: X, c: Box<X>, d: u64, e: X, f: X, g: u64 }, N7, T8(X, u64, X, u64, Box<X>, X, u64, X), S8 { a: u64, b: X, c: Box<X>, d: u64, e: X, f: X, g: u64, h: X }, N8, OnlyV(Vec<X>), FieldV { f: Vec<X> }, FirstV(Vec<X>, u64, X), LastV(X, u64, Vec<X>), MidV { p: X, q: Vec<X>, r: u64 }, OnlyO(Option<X>), FieldO { f: Option<X> }, FirstO(Option<X>, u64, X), LastO(X, u64, Option<X>), MidO { p: X, q: Option<X>, r: u64 }, OnlyB(Box<X>), FieldB { f: Box<X> }, FirstB(Box<X>, u64, X), LastB(X, u64, Box<X>), MidB { p: X, q: Box<X>, r: u64 }, OnlyX(X), FieldX { f: X }, FirstX(X, u64, X), LastX(X, u64, X), MidX { p: X, q: X, r: u64 }, Onlyu(u64), Fieldu { f: u64 }, Firstu(u64, u64, X), Lastu(X, u64, u64), Midu { p: X, q: u64, r: u64 }, Swap { v1: u64, v0: u64, item: X, t: X, r#type: Box<X> }, Vec(u64, u64), Option { b: u64, a: u64 }, Other(X), Long(u64, X, u64, X, u64, X, u64, X, u64, X, u64, X, u64, u64), LongNamed { a: u64, b: X, c: u64, d: X, e: u64, f: X, g: u64, h: X, i: u64, j: X, k: u64, l: X, m: u64, n: u64 }, Paths(std::vec::Vec<X>, std::option::Option<X>, ::std::boxed::Box<X>, [u64; 2], (u64, u8), f64, plain::X, VecX), PathsNamed { a: std::vec::Vec<X>, b: std::option::Option<X>, c: ::std::boxed::Box<X>, d: [u64; 2], e: (u64, u8), f: f64, g: plain::X, h: VecX } }
pub enum Big2 { PathsNamed { h: VecY, g: plain::Y, f: f64, e: (u64, u8), d: [u64; 2], c: ::std::boxed::Box<Y>, b: std::option::Option<Y>, a: std::vec::Vec<Y> }, Paths(std::vec::Vec<Y>, std::option::Option<Y>, ::std::boxed::Box<Y>, [u64; 2], (u64, u8), f64, plain::Y, VecY), LongNamed { n: u64, m: u64, l: Y, k: u64, j: Y, i: u64, h: Y, g: u64, f: Y, e: u64, d: Y, c: u64, b: Y, a: u64 }, Long(u64, Y, u64, Y, u64, Y, u64, Y, u64, Y, u64, Y, u64, u64), Other(Y), Option { a: u64, b: u64 }, Vec(u64, u64), Swap { r#type: Box<Y>, t: Y, item: Y, v0: u64, v1: u64 }, Midu { r: u64, q: u64, p: Y }, Lastu(Y, u64, u64), Firstu(u64, u64, Y), Fieldu { f: u64 }, Onlyu(u64), MidX { r: u64, q: Y, p: Y }, LastX(Y, u64, Y), FirstX(Y, u64, Y), FieldX { f: Y }, OnlyX(Y), MidB { r: u64, q: Box<Y>, p: Y }, LastB(Y, u64, Box<Y>), FirstB(Box<Y>, u64, Y), FieldB { f: Box<Y> }, OnlyB(Box<Y>), MidO { r: u64, q: Option<Y>, p: Y }, LastO(Y, u64, Option<Y>), FirstO(Option<Y>, u64, Y), FieldO { f: Option<Y> }, OnlyO(Option<Y>), MidV { r: u64, q: Vec<Y>, p: Y }, LastV(Y, u64, Vec<Y>), FirstV(Vec<Y>, u64, Y), FieldV { f: Vec<Y> }, OnlyV(Vec<Y>), N8, S8 { h: Y, g: u64, f: Y, e: Y, d: u64, c: Box<Y>, b: Y, a: u64 }, T8(Y, u64, Y, u64, Box<Y>, Y, u64, Y), N7, S7 { g: u64, f: Y, e: Y, d: u64, c: Box<Y>, b: Y, a: u64 }, T7(Y, u64, Y, u64, Box<Y>, Y, u64), N6, S6 { f: Y, e: Y, d: u64, c: Box<Y>, b: Y, a: u64 }, T6(Y, u64, Y, u64, Box<Y>, Y), N5, S5 { e: Y, d: u64, c: Box<Y>, b: Y, a: u64 }, T5(Y, u64, Y, u64, Box<Y>), N4, S4 { d: u64, c: Box<Y>, b: Y, a: u64 }, T4(Y, u64, Y, u64), N3, S3 { c: Box<Y>, b: Y, a: u64 }, T3(Y, u64, Y), N2, S2 { b: Y, a: u64 }, T2(Y, u64), N1, S1 { a: u64 }, T1(Y) }

#[derive(AutoFrom)]
#[auto_from(Units2)]
pub enum Units1 { A, B, C, D, E, F, G, H, I, J, K, L }
pub enum Units2 { L, K, J, I, H, G, F, E, D, C, B, A }

#[derive(AutoFrom)]
#[auto_from(One2)]
#[auto_from(One3)]
pub enum One1 { Only(Vec<X>) }
pub enum One2 { Only(Vec<Y>) }
pub enum One3 { Only(Vec<X>) }

macro_rules! roots { ($m:ident $a:ty, $b:ty) => { pub mod $m {
    use super::*;
    pub fn to0(v: $a) -> $b { v.into() }
    pub fn of0(v: $b) -> $a { v.into() }
    pub fn to1<const A: u16>(v: $a) -> Versioned<$b, A> { v.into() }
    pub fn of1<const A: u16>(v: Versioned<$b, A>) -> $a { v.into() }
    pub fn to2<const A: u16, const B: u16>(v: $a) -> Versioned<Versioned<$b, A>, B> { v.into() }
    pub fn of2<const A: u16, const B: u16>(v: Versioned<Versioned<$b, A>, B>) -> $a { v.into() }
    pub fn to3<const A: u16, const B: u16, const C: u16>(v: $a) -> Versioned<Versioned<Versioned<$b, A>, B>, C> { v.into() }
    pub fn of3<const A: u16, const B: u16, const C: u16>(v: Versioned<Versioned<Versioned<$b, A>, B>, C>) -> $a { v.into() }
    pub fn to4<const A: u16, const B: u16, const C: u16, const D: u16>(v: $a) -> Versioned<Versioned<Versioned<Versioned<$b, A>, B>, C>, D> { v.into() }
    pub fn of4<const A: u16, const B: u16, const C: u16, const D: u16>(v: Versioned<Versioned<Versioned<Versioned<$b, A>, B>, C>, D>) -> $a { v.into() }
} } }
roots!(named2 Named1, Named2);
roots!(named3 Named1, Named3);
roots!(onex2 OneX1, OneX2);
roots!(singlex2 SingleX1, SingleX2);
roots!(oneplain2 OnePlain1, OnePlain2);
roots!(singleplain2 SinglePlain1, SinglePlain2);
roots!(onev2 OneV1, OneV2);
roots!(singlev2 SingleV1, SingleV2);
roots!(oneo2 OneO1, OneO2);
roots!(singleo2 SingleO1, SingleO2);
roots!(oneb2 OneB1, OneB2);
roots!(singleb2 SingleB1, SingleB2);
roots!(onesubw2 OneSubW1, OneSubW2);
roots!(singlesubw2 SingleSubW1, SingleSubW2);
roots!(onesubp2 OneSubP1, OneSubP2);
roots!(singlesubp2 SingleSubP1, SingleSubP2);
roots!(long2 Long1, Long2);
roots!(vecs2 Vecs1, Vecs2);
roots!(options2 Options1, Options2);
roots!(boxes2 Boxes1, Boxes2);
roots!(places2 Places1, Places2);
roots!(paths2 Paths1, Paths2);
roots!(back2 Back1, Back2);
roots!(back3 Back1, Back3);
roots!(back4 Back1, Back4);
roots!(tup2 Tup1, Tup2);
roots!(tuplong2 TupLong1, TupLong2);
roots!(tupboxes2 TupBoxes1, TupBoxes2);
roots!(tupvecs2 TupVecs1, TupVecs2);
roots!(tupoptions2 TupOptions1, TupOptions2);
roots!(tuppaths2 TupPaths1, TupPaths2);
roots!(enum2 Enum1, Enum2);
roots!(big2 Big1, Big2);
roots!(units2 Units1, Units2);
roots!(one2 One1, One2);
roots!(one3 One1, One3);
