//! The catalogue of codec types explored by the value and input checks.
use crate::reflect::Reflect;
use crate::{renum, rpayload, rstruct, rtuple, runion};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

pub trait Visitor {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str);
    /// Types without length information in the default configuration.
    fn visit_noest<T: Reflect>(&mut self, _name: &'static str) {}
}

pub type F01 = RangedF64!(0.0, 1.0);
pub type FAll = RangedF64!(f64::NEG_INFINITY, f64::INFINITY);
pub type FNeg = RangedF64!(-1.5, -0.25);

rstruct!(P2 { x: u8, y: u16 });
rstruct!(P3 { a: Dynamic<u8, Bytes>, b: u32, c: Option<u16> });
rtuple!(T1(a: Bytes));
rtuple!(T3(a: i64, b: bool, c: N));
rstruct!(Nest { p: P2, q: T3, r: Dynamic<u16, P3> });
rstruct!(Tail { head: u16, rest: Sequence<P2> });
rstruct!(VTail { body: VPadded<Bytes, 3>, mark: u8, crc: u16 });
rstruct!(VInner { body: VPadded<Sequence<u16>, 1>, a: u8 });
rstruct!(VTail2 { body: VPadded<VInner, 2>, b: FixedBytes<2> });
rstruct!(OptTail { a: u8, o: Nullable<Dynamic<u8, String>> });
rtuple!(Ranges(a: RangedInt<u8, 10, 20>, b: RangedInt<i16, -300, 300>, c: u30, d: F01));
rstruct!(Wide { a: u8, b: u8, c: u16, d: u16, e: u32, f: i64, g: bool, h: FixedBytes<4>, i: i8, j: Option<bool> });
rtuple!(Empty());
// a body that reserves a long tail
rstruct!(VTail3 { body: VPadded<Bytes, 300>, tail: FixedBytes<300> });
// names that an expansion might use for itself
rstruct!(Names { buf: u8, p: u16, parser: u8, self_: i8, other: u32, inner: bool, val: u16, tmp: u8, len: Dynamic<u8, Bytes>, n: u8, _x: i16, r#type: u8, target: u8 });
rstruct!(Many { a0: u8, a1: u16, a2: u8, a3: i8, a4: u32, a5: bool, a6: u8, a7: u16, a8: u8, a9: i16, b0: u8, b1: u16, b2: u8, b3: i8, b4: u32, b5: bool, b6: u8, b7: u16, b8: u8, b9: i16,
    c0: u8, c1: u16, c2: u8, c3: i8, c4: u32, c5: bool, c6: u8, c7: u16, c8: u8, c9: i16, d0: u8, d1: u16, d2: u8, d3: i8 });
rtuple!(L1(a: u8, b: Dynamic<u8, Bytes>));
rtuple!(L2(a: L1, b: u8));
rtuple!(L3(a: u8, b: L2));
rtuple!(L4(a: L3, b: L3));
rstruct!(L5 { a: Option<L4>, b: u8, c: Dynamic<u8, L4> });

renum!(E8Many, u8, { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18,
    W0 = 63, W1 = 64, W2 = 65, W3 = 100, W4 = 127, W5 = 128, W6 = 129, W7 = 200, W8 = 254 });

renum!(E8, u8, { A = 0, B = 1, C = 7, D = 255 });
renum!(E16, u16, { A = 0, B = 1, C = 256, D = 0xff00, E = 0xffff });
renum!(E32, u32, { A = 0, B = 0x0100_0000, C = 0x3fff_ffff });

runion!(U8, u8, u8pay, {
    0 => Zero(),
    1 => One(u8),
    2 => Two(u16, Dynamic<u8, Bytes>),
    3 => Named { x: u32, y: Option<u8>, z: N },
    200 => Far(Dynamic<u30, Sequence<u16>>),
    255 => Last(bool, Z, FixedBytes<2>),
});
runion!(U16, u16, u16pay, {
    0 => Z0(),
    1 => Z1(E8),
    256 => Z256(i16),
    65535 => Zmax { s: Dynamic<u16, String> },
});
runion!(UTail, u8, utailpay, { 4 => Rest(Bytes), 5 => Items(Sequence<E8>), 6 => Maybe(Nullable<u32>) });
runion!(UNest, u8, unestpay, { 0 => In(U8), 9 => Pair { l: U16, r: U8 } });
/// Recursive, Micheline-like tree.
pub mod tree {
    use super::*;
    tedium::data! { Tree, u8, treepay, {
        0 => Leaf(pub Z),
        1 => Node(pub AutoBox<Tree>, pub AutoBox<Tree>),
        2 => List(pub Dynamic<u30, Sequence<Tree>>),
        3 => Text { pub tag: u8, pub s: Dynamic<u30, String> },
    } }
    fn sch() -> crate::Sch {
        use crate::Sch::*;
        Union {
            w: 1,
            vars: vec![
                (0, Prod(vec![Int])),
                (1, Prod(vec![Boxed(Box::new(Rec(sch))), Boxed(Box::new(Rec(sch)))])),
                (2, Prod(vec![Dyn { w: 4, max: 0x3fff_ffff, inner: Box::new(Seq(Box::new(Rec(sch)))) }])),
                (3, Prod(vec![U(1), Dyn { w: 4, max: 0x3fff_ffff, inner: Box::new(VarText) }])),
            ],
        }
    }
    impl Reflect for Tree {
        fn sch() -> crate::Sch {
            crate::Sch::Rec(sch)
        }
        fn val(&self) -> crate::Val {
            use crate::Val::*;
            match self {
                Tree::Leaf(p) => Tag(0, Box::new(Prod(vec![p.0.val()]))),
                Tree::Node(p) => Tag(1, Box::new(Prod(vec![p.0.val(), p.1.val()]))),
                Tree::List(p) => Tag(2, Box::new(Prod(vec![Seq(p.0.as_ref().as_slice().iter().map(|x| x.val()).collect())]))),
                Tree::Text(p) => Tag(3, Box::new(Prod(vec![p.tag.val(), p.s.val()]))),
            }
        }
        fn make(v: &crate::Val) -> Self {
            use crate::Val::*;
            match v {
                Tag(t, p) => match (t, &**p) {
                    (0, Prod(f)) => Tree::Leaf(treepay::Leaf(Z::make(&f[0]))),
                    (1, Prod(f)) => Tree::Node(treepay::Node(AutoBox::make(&f[0]), AutoBox::make(&f[1]))),
                    (2, Prod(f)) => match &f[0] {
                        Seq(xs) => Tree::List(treepay::List(Dynamic::new(Sequence::from_vec(xs.iter().map(Tree::make).collect())))),
                        _ => panic!("ill-typed"),
                    },
                    (3, Prod(f)) => Tree::Text(treepay::Text { tag: u8::make(&f[0]), s: Dynamic::make(&f[1]) }),
                    _ => panic!("ill-typed"),
                },
                _ => panic!("ill-typed"),
            }
        }
    }
}
pub use tree::Tree;

macro_rules! list {
    ($v:ident; $($t:ty),+ $(,)?) => { $( $v.visit::<$t>(stringify!($t)); )+ };
}

pub fn prims<V: Visitor>(v: &mut V) {
    list!(v; (), bool, u8, i8, u16, i16, u32, i32, u64, i64, f64, u30, i31,
        RangedInt<u8, 0, 100>, RangedInt<u8, 10, 20>, RangedInt<i8, -5, 5>, RangedInt<i8, 100, 227>,
        RangedInt<u16, 1, 1000>, RangedInt<u16, 300, 65835>, RangedInt<i16, -300, 300>, RangedInt<i16, -300, -20>,
        RangedInt<u32, 5, 0x3fff_ffff>, RangedInt<i32, -1, 1>, RangedInt<i32, 7, 0x3fff_ffff>, RangedInt<u8, 3, 3>,
        F01, FAll, FNeg,
        FixedBytes<0>, FixedBytes<1>, FixedBytes<2>, FixedBytes<20>, FixedBytes<32>, FixedBytes<33>, FixedBytes<64>, FixedBytes<65>, FixedBytes<256>, FixedBytes<1000>,
        FixedString<1>, FixedString<5>, FixedString<64>, FixedString<255>, Bytes, Vec<u8>, String, N, Z);
}
pub fn combs<V: Visitor>(v: &mut V) {
    list!(v;
        Dynamic<u8, Bytes>, Dynamic<u16, Bytes>, Dynamic<u30, Bytes>, Dynamic<u30, String>, Dynamic<u8, String>,
        Dynamic<u8, u8>, Dynamic<u16, u32>, Dynamic<u8, ()>, Dynamic<u30, bool>, Dynamic<u8, N>, Dynamic<u16, Z>,
        Dynamic<u8, Option<u16>>, Dynamic<u8, Nullable<u16>>, Dynamic<u8, Dynamic<u8, Bytes>>,
        Dynamic<u16, Dynamic<u30, Sequence<u8>>>, Dynamic<u8, Sequence<u16>>, Dynamic<u30, Sequence<Dynamic<u8, Bytes>>>,
        Dynamic<u8, LimSeq<u8, 3>>, Dynamic<u8, FixSeq<u16, 2>>,
        Option<u8>, Option<()>, Option<Option<u8>>, Option<Bytes>, Option<N>, Option<Dynamic<u8, Bytes>>,
        Nullable<u8>, Nullable<Bytes>, Nullable<Dynamic<u8, Bytes>>, Nullable<Option<u16>>,
        Sequence<u8>, Sequence<u16>, Sequence<bool>, Sequence<N>, Sequence<Z>, Sequence<Option<u8>>,
        Sequence<Dynamic<u8, Bytes>>, Sequence<RangedInt<u8, 10, 20>>, Sequence<FixedBytes<3>>,
        LimSeq<u8, 0>, LimSeq<u8, 3>, LimSeq<u16, 2>, LimSeq<N, 2>, LimSeq<Dynamic<u8, Bytes>, 2>, LimSeq<u8, 300>,
        FixSeq<u8, 0>, FixSeq<u8, 3>, FixSeq<u16, 2>, FixSeq<N, 2>, FixSeq<Dynamic<u8, Bytes>, 2>, FixSeq<Option<u8>, 3>, FixSeq<u8, 260>,
        Padded<u8, 0>, Padded<u8, 1>, Padded<u8, 3>, Padded<u32, 1>, Padded<FixedBytes<2>, 2>, Padded<(), 2>, Padded<bool, 40>,
        Dynamic<u8, Padded<u16, 2>>, Padded<Padded<u8, 1>, 2>,
        Padded<u8, 64>, Padded<u16, 256>, Padded<u8, 1000>,
        LimSeq<u16, 70>, LimSeq<u8, 1024>, FixSeq<u8, 1024>, FixSeq<u16, 65>, FixSeq<FixedBytes<20>, 33>,
        Sequence<u64>, Sequence<f64>, Sequence<i8>, Sequence<FixedBytes<32>>, Sequence<AutoBox<u16>>,
        Dynamic<u16, Sequence<u32>>, Dynamic<u30, Sequence<N>>, Dynamic<u30, FixedBytes<256>>, Dynamic<u16, FixSeq<u8, 260>>, Dynamic<u8, FixedBytes<255>>,
        Dynamic<u16, Dynamic<u16, Dynamic<u16, Dynamic<u8, Dynamic<u8, Bytes>>>>>, Option<Option<Option<Option<u8>>>>,
        Dynamic<u8, Dynamic<u8, Dynamic<u8, Dynamic<u8, Dynamic<u8, Dynamic<u8, Dynamic<u8, Dynamic<u8, u16>>>>>>>>,
        VPadded<Bytes, 0>, Dynamic<u8, VPadded<Bytes, 0>>,
        AutoBox<u8>, AutoBox<Bytes>, AutoBox<Option<N>>, AutoBox<AutoBox<u16>>,
        // no size in memory but an encoding, and the other way round
        Option<Padded<(), 2>>, Sequence<Padded<(), 2>>, FixSeq<Padded<(), 2>, 3>, LimSeq<Padded<(), 2>, 2>, Dynamic<u8, Padded<(), 2>>,
        Nullable<Padded<(), 1>>, AutoBox<Padded<(), 1>>, Option<FixedBytes<0>>, Option<FixSeq<u8, 0>>, Dynamic<u8, LimSeq<u8, 0>>,
        Dynamic<u16, FixSeq<u8, 0>>, Option<AutoBox<()>>,
        // values with spare bit patterns in memory
        Option<bool>, Option<Option<bool>>, Option<AutoBox<u8>>, Option<String>, Option<f64>, Nullable<bool>, Nullable<AutoBox<u16>>,
        Sequence<Option<bool>>, Option<F01>, Option<i31>,
        Sequence<i31>, Sequence<u30>, Sequence<F01>, Sequence<RangedInt<i16, -300, 300>>, Sequence<FixedString<5>>, Sequence<Dynamic<u16, String>>,
        Dynamic<u16, FixedString<5>>, Option<FixedString<5>>, Dynamic<u8, i31>, Dynamic<u8, Nullable<Dynamic<u8, Bytes>>>, Nullable<Sequence<u16>>,
        Dynamic<u8, AutoBox<Bytes>>);
}
pub fn users<V: Visitor>(v: &mut V) {
    list!(v; P2, P3, T1, T3, Nest, Tail, VTail, VTail2, OptTail, Ranges, Wide, Empty,
        VTail3, Names, Many, L4, L5, Dynamic<u16, VTail3>, Sequence<L1>, E8Many, Sequence<E8Many>,
        E8, E16, E32, U8, U16, UTail, UNest, Tree,
        Sequence<E8>, Sequence<U8>, Option<E16>, Dynamic<u16, U8>, Dynamic<u8, VTail>, Dynamic<u16, VTail2>, Dynamic<u8, Tail>,
        Sequence<P2>, FixSeq<P2, 2>, AutoBox<U16>, Dynamic<u30, Sequence<Tree>>, Option<Nest>, Padded<P2, 1>, Nullable<U16>,
        LimSeq<E16, 2>, Dynamic<u8, OptTail>, Option<Empty>, Option<E8>, Dynamic<u8, Empty>, Option<AutoBox<U8>>, Nullable<E8>);
    v.visit_noest::<Padded<Dynamic<u8, Bytes>, 2>>("Padded<Dynamic<u8, Bytes>, 2>");
    v.visit_noest::<Padded<N, 1>>("Padded<N, 1>");
    v.visit_noest::<Option<Padded<Option<u16>, 3>>>("Option<Padded<Option<u16>, 3>>");
}
pub fn all<V: Visitor>(v: &mut V) {
    prims(v);
    combs(v);
    users(v);
}
/// One or two types of every kind (for the checks that build many configurations).
pub fn brief<V: Visitor>(v: &mut V) {
    list!(v; (), bool, u8, i16, u64, f64, u30, i31, RangedInt<u8, 10, 20>, RangedInt<i16, -300, 300>, F01,
        FixedBytes<0>, FixedBytes<20>, FixedString<5>, Bytes, String, N, Z,
        Dynamic<u8, Bytes>, Dynamic<u30, String>, Dynamic<u8, LimSeq<u8, 3>>, Dynamic<u8, FixSeq<u16, 2>>,
        Option<u16>, Option<Dynamic<u8, Bytes>>, Nullable<u8>, Sequence<u16>, Sequence<N>,
        LimSeq<u8, 0>, LimSeq<u8, 3>, LimSeq<N, 2>, FixSeq<u8, 0>, FixSeq<u8, 3>, FixSeq<Dynamic<u8, Bytes>, 2>,
        Padded<u8, 1>, Padded<u32, 3>, Padded<(), 2>, Dynamic<u8, Padded<u16, 2>>, VPadded<Bytes, 0>, AutoBox<Option<N>>,
        Nest, VTail, VTail2, OptTail, E16, U8, UTail, Tree, Dynamic<u8, Tail>);
    v.visit_noest::<Padded<Dynamic<u8, Bytes>, 2>>("Padded<Dynamic<u8, Bytes>, 2>");
}
