//! Connects the library's types to the reference schemas and values.
use crate::schema::{Sch, Val};
use std::convert::TryFrom;
use tedium::conv::len::Estimable;
use tedium::dynamic::LenPref;
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

pub trait Reflect: Encode + Decode + Clone + Sized + 'static {
    fn sch() -> Sch;
    fn val(&self) -> Val;
    fn make(v: &Val) -> Self;
}

macro_rules! bad {
    ($v:expr) => {
        panic!("ill-typed {:?}", $v)
    };
}

impl Reflect for () {
    fn sch() -> Sch {
        Sch::Unit
    }
    fn val(&self) -> Val {
        Val::Unit
    }
    fn make(_: &Val) -> Self {}
}
impl Reflect for bool {
    fn sch() -> Sch {
        Sch::Bool
    }
    fn val(&self) -> Val {
        Val::Bool(*self)
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Bool(b) => *b,
            _ => bad!(v),
        }
    }
}
macro_rules! r_int {
    ($k:ident, $c:ident : $($t:ty => $w:expr),+) => {$(
        impl Reflect for $t {
            fn sch() -> Sch { Sch::$k($w) }
            fn val(&self) -> Val { Val::$k(*self as $c) }
            fn make(v: &Val) -> Self { match v { Val::$k(x) => *x as $t, _ => bad!(v) } }
        }
    )+};
}
r_int!(U, u64: u8 => 1, u16 => 2, u32 => 4, u64 => 8);
r_int!(I, i64: i8 => 1, i16 => 2, i32 => 4, i64 => 8);
impl Reflect for f64 {
    fn sch() -> Sch {
        Sch::F64
    }
    fn val(&self) -> Val {
        Val::F(self.to_bits())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::F(x) => f64::from_bits(*x),
            _ => bad!(v),
        }
    }
}
macro_rules! r_ranged {
    ($($t:ty => $w:expr, $s:expr);+) => {$(
        impl<const MIN: i32, const MAX: i32> Reflect for RangedInt<$t, MIN, MAX> {
            fn sch() -> Sch { Sch::RI { w: $w, signed: $s, min: MIN as i64, max: MAX as i64 } }
            fn val(&self) -> Val { Val::I(self.to_i32() as i64) }
            fn make(v: &Val) -> Self {
                match v { Val::I(x) => Self::try_from_i32(*x as i32).unwrap(), _ => bad!(v) }
            }
        }
    )+};
}
r_ranged!(u8 => 1, false; i8 => 1, true; u16 => 2, false; i16 => 2, true; u32 => 4, false; i32 => 4, true);
impl<const A: u64, const B: u64> Reflect for RangedFloat<A, B> {
    fn sch() -> Sch {
        Sch::RF { min: A, max: B }
    }
    fn val(&self) -> Val {
        Val::F(self.as_f64().to_bits())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::F(x) => Self::try_from_f64(f64::from_bits(*x)).unwrap(),
            _ => bad!(v),
        }
    }
}
fn by(v: &Val) -> &Vec<u8> {
    match v {
        Val::Bytes(b) => b,
        _ => bad!(v),
    }
}
impl<const K: usize> Reflect for FixedBytes<K> {
    fn sch() -> Sch {
        Sch::Fixed(K)
    }
    fn val(&self) -> Val {
        Val::Bytes(self.bytes().to_vec())
    }
    fn make(v: &Val) -> Self {
        let a: [u8; K] = <[u8; K]>::try_from(by(v).as_slice()).unwrap();
        Self::from_array(a)
    }
}
impl<const K: usize> Reflect for FixedString<K> {
    fn sch() -> Sch {
        Sch::FixedText(K)
    }
    fn val(&self) -> Val {
        Val::Bytes(unsafe { self.as_str_unchecked() }.as_bytes().to_vec())
    }
    fn make(v: &Val) -> Self {
        let a: [u8; K] = <[u8; K]>::try_from(by(v).as_slice()).unwrap();
        Self::from(a)
    }
}
impl Reflect for Vec<u8> {
    fn sch() -> Sch {
        Sch::VarBytes
    }
    fn val(&self) -> Val {
        Val::Bytes(self.clone())
    }
    fn make(v: &Val) -> Self {
        by(v).clone()
    }
}
impl Reflect for Bytes {
    fn sch() -> Sch {
        Sch::VarBytes
    }
    fn val(&self) -> Val {
        Val::Bytes(self.clone().into_vec())
    }
    fn make(v: &Val) -> Self {
        Bytes::from_vec(by(v).clone())
    }
}
impl Reflect for String {
    fn sch() -> Sch {
        Sch::VarText
    }
    fn val(&self) -> Val {
        Val::Bytes(self.as_bytes().to_vec())
    }
    fn make(v: &Val) -> Self {
        String::from_utf8(by(v).clone()).unwrap()
    }
}
impl<T: Reflect> Reflect for Option<T> {
    fn sch() -> Sch {
        Sch::Opt(Box::new(T::sch()))
    }
    fn val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.val())))
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::make(x)),
            _ => bad!(v),
        }
    }
}
impl<T: Reflect> Reflect for Nullable<T> {
    fn sch() -> Sch {
        Sch::Nullable(Box::new(T::sch()))
    }
    fn val(&self) -> Val {
        Val::Opt(self.as_inner().as_ref().map(|x| Box::new(x.val())))
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Opt(o) => Nullable::from(o.as_ref().map(|x| T::make(x))),
            _ => bad!(v),
        }
    }
}
fn sq(v: &Val) -> &Vec<Val> {
    match v {
        Val::Seq(b) => b,
        _ => bad!(v),
    }
}
impl<T: Reflect> Reflect for Sequence<T> {
    fn sch() -> Sch {
        Sch::Seq(Box::new(T::sch()))
    }
    fn val(&self) -> Val {
        Val::Seq(self.as_slice().iter().map(|x| x.val()).collect())
    }
    fn make(v: &Val) -> Self {
        Sequence::from_vec(sq(v).iter().map(T::make).collect())
    }
}
impl<T: Reflect, const K: usize> Reflect for LimSeq<T, K> {
    fn sch() -> Sch {
        Sch::Lim(Box::new(T::sch()), K)
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.val()).collect())
    }
    fn make(v: &Val) -> Self {
        let xs: Vec<T> = sq(v).iter().map(T::make).collect();
        match Self::try_from(xs) {
            Ok(x) => x,
            Err(_) => panic!("LimSeq::try_from refused a legal length"),
        }
    }
}
impl<T: Reflect, const K: usize> Reflect for FixSeq<T, K> {
    fn sch() -> Sch {
        Sch::Fix(Box::new(T::sch()), K)
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.val()).collect())
    }
    fn make(v: &Val) -> Self {
        let xs: Vec<T> = sq(v).iter().map(T::make).collect();
        match Self::try_from(xs) {
            Ok(x) => x,
            Err(_) => panic!("FixSeq::try_from refused a legal length"),
        }
    }
}
pub trait PrefInfo: LenPref + 'static {
    const W: usize;
    const MAXLEN: u64;
}
impl PrefInfo for u8 {
    const W: usize = 1;
    const MAXLEN: u64 = 255;
}
impl PrefInfo for u16 {
    const W: usize = 2;
    const MAXLEN: u64 = 65535;
}
impl PrefInfo for u30 {
    const W: usize = 4;
    const MAXLEN: u64 = 0x3fff_ffff;
}
impl<S: PrefInfo, T: Reflect + Estimable> Reflect for Dynamic<S, T> {
    fn sch() -> Sch {
        Sch::Dyn { w: S::W, max: S::MAXLEN, inner: Box::new(T::sch()) }
    }
    fn val(&self) -> Val {
        self.as_ref().val()
    }
    fn make(v: &Val) -> Self {
        Dynamic::new(T::make(v))
    }
}
impl<T: Reflect, const K: usize> Reflect for VPadded<T, K> {
    fn sch() -> Sch {
        Sch::VPad(Box::new(T::sch()), K)
    }
    fn val(&self) -> Val {
        self.clone().into_inner().val()
    }
    fn make(v: &Val) -> Self {
        VPadded::new(T::make(v))
    }
}
impl<T: Reflect, const K: usize> Reflect for Padded<T, K> {
    fn sch() -> Sch {
        Sch::Pad(Box::new(T::sch()), K)
    }
    fn val(&self) -> Val {
        self.as_inner().val()
    }
    fn make(v: &Val) -> Self {
        Padded::new(T::make(v))
    }
}
impl<T: Reflect> Reflect for AutoBox<T> {
    fn sch() -> Sch {
        Sch::Boxed(Box::new(T::sch()))
    }
    fn val(&self) -> Val {
        self.as_inner().val()
    }
    fn make(v: &Val) -> Self {
        AutoBox::new(T::make(v))
    }
}
impl Reflect for N {
    fn sch() -> Sch {
        Sch::Nat
    }
    fn val(&self) -> Val {
        Val::Nat(self.0.clone())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Nat(n) => N(n.clone()),
            _ => bad!(v),
        }
    }
}
impl Reflect for Z {
    fn sch() -> Sch {
        Sch::Int
    }
    fn val(&self) -> Val {
        Val::Int(self.0.clone())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Int(n) => Z(n.clone()),
            _ => bad!(v),
        }
    }
}

/// Struct with named fields and derived codecs.
#[macro_export]
macro_rules! rstruct {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)]
        pub struct $name { $(pub $f: $t),* }
        $crate::rstruct!(@refl $name { $($f : $t),* });
    };
    (@refl $name:ident { $($f:ident : $t:ty),* }) => {
        impl $crate::Reflect for $name {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![$(<$t as $crate::Reflect>::sch()),*]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![$($crate::Reflect::val(&self.$f)),*]) }
            #[allow(unused_mut, unused_variables)]
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $crate::Val::Prod(fs) => {
                        let mut it = fs.iter();
                        Self { $($f: <$t as $crate::Reflect>::make(it.next().unwrap())),* }
                    }
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
}
/// Struct with positional fields and derived codecs: rtuple!(Name(a: T, b: U)); the labels only
/// name temporaries.
#[macro_export]
macro_rules! rtuple {
    ($name:ident ( $($f:ident : $t:ty),* $(,)? )) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)]
        pub struct $name ( $(pub $t),* );
        $crate::rtuple!(@refl $name ( $($f : $t),* ));
    };
    (@refl $name:ident ( $($f:ident : $t:ty),* )) => {
        impl $crate::Reflect for $name {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![$(<$t as $crate::Reflect>::sch()),*]) }
            #[allow(unused_variables)]
            fn val(&self) -> $crate::Val {
                let $name($($f),*) = self;
                $crate::Val::Prod(vec![$($crate::Reflect::val($f)),*])
            }
            #[allow(unused_mut, unused_variables)]
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $crate::Val::Prod(fs) => {
                        let mut it = fs.iter();
                        $name ( $(<$t as $crate::Reflect>::make(it.next().unwrap())),* )
                    }
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
}
#[macro_export]
macro_rules! renum {
    ($name:ident, $b:ident, { $($v:ident = $d:expr),+ $(,)? }) => {
        tedium::cstyle!($name, $b, { $($v = $d),+ });
        impl $crate::Reflect for $name {
            fn sch() -> $crate::Sch {
                $crate::Sch::Enum { w: std::mem::size_of::<$b>(), tags: vec![$($d as u64),+] }
            }
            fn val(&self) -> $crate::Val {
                $crate::Val::U(match self { $($name::$v => $d as u64),+ })
            }
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $($crate::Val::U(x) if *x == $d as u64 => $name::$v,)+
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
}
/// Reflection of a variant payload declared by `tedium::data!`.
#[macro_export]
macro_rules! rpayload {
    ($m:ident, $v:ident, ()) => {
        impl $crate::Reflect for $m::$v {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![]) }
            fn make(_: &$crate::Val) -> Self { $m::$v }
        }
    };
    ($m:ident, $v:ident, ($t0:ty)) => {
        impl $crate::Reflect for $m::$v {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![<$t0 as $crate::Reflect>::sch()]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![$crate::Reflect::val(&self.0)]) }
            fn make(v: &$crate::Val) -> Self {
                match v { $crate::Val::Prod(f) => $m::$v(<$t0 as $crate::Reflect>::make(&f[0])), _ => panic!("ill-typed") }
            }
        }
    };
    ($m:ident, $v:ident, ($t0:ty, $t1:ty)) => {
        impl $crate::Reflect for $m::$v {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![<$t0 as $crate::Reflect>::sch(), <$t1 as $crate::Reflect>::sch()]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![$crate::Reflect::val(&self.0), $crate::Reflect::val(&self.1)]) }
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $crate::Val::Prod(f) => $m::$v(<$t0 as $crate::Reflect>::make(&f[0]), <$t1 as $crate::Reflect>::make(&f[1])),
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
    ($m:ident, $v:ident, ($t0:ty, $t1:ty, $t2:ty)) => {
        impl $crate::Reflect for $m::$v {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![<$t0 as $crate::Reflect>::sch(), <$t1 as $crate::Reflect>::sch(), <$t2 as $crate::Reflect>::sch()]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![$crate::Reflect::val(&self.0), $crate::Reflect::val(&self.1), $crate::Reflect::val(&self.2)]) }
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $crate::Val::Prod(f) => $m::$v(<$t0 as $crate::Reflect>::make(&f[0]), <$t1 as $crate::Reflect>::make(&f[1]), <$t2 as $crate::Reflect>::make(&f[2])),
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
    ($m:ident, $v:ident, { $($f:ident : $t:ty),+ }) => {
        impl $crate::Reflect for $m::$v {
            fn sch() -> $crate::Sch { $crate::Sch::Prod(vec![$(<$t as $crate::Reflect>::sch()),+]) }
            fn val(&self) -> $crate::Val { $crate::Val::Prod(vec![$($crate::Reflect::val(&self.$f)),+]) }
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $crate::Val::Prod(fs) => {
                        let mut it = fs.iter();
                        $m::$v { $($f: <$t as $crate::Reflect>::make(it.next().unwrap())),+ }
                    }
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
}
/// runion!(Name, u8, module, { 0 => A (u8), 1 => B { pub x: u16 }, 2 => C () })
/// (field visibilities are added by the macro).
#[macro_export]
macro_rules! runion {
    ($name:ident, $b:ident, $m:ident, { $($d:literal => $v:ident $spec:tt),+ $(,)? }) => {
        $crate::runion!(@data $name, $b, $m, [] $($d => $v $spec,)+);
        $($crate::rpayload!($m, $v, $spec);)+
        impl $crate::Reflect for $name {
            fn sch() -> $crate::Sch {
                $crate::Sch::Union {
                    w: std::mem::size_of::<$b>(),
                    vars: vec![$(($d as u64, <$m::$v as $crate::Reflect>::sch())),+],
                }
            }
            fn val(&self) -> $crate::Val {
                match self { $($name::$v(p) => $crate::Val::Tag($d as u64, Box::new($crate::Reflect::val(p)))),+ }
            }
            fn make(v: &$crate::Val) -> Self {
                match v {
                    $($crate::Val::Tag(t, p) if *t == $d as u64 => $name::$v(<$m::$v as $crate::Reflect>::make(p)),)+
                    _ => panic!("ill-typed"),
                }
            }
        }
    };
    (@data $name:ident, $b:ident, $m:ident, [$($acc:tt)*]) => {
        tedium::data!{ $name, $b, $m, { $($acc)* } }
    };
    (@data $name:ident, $b:ident, $m:ident, [$($acc:tt)*] $d:literal => $v:ident (), $($rest:tt)*) => {
        $crate::runion!(@data $name, $b, $m, [$($acc)* $d => $v (),] $($rest)*);
    };
    (@data $name:ident, $b:ident, $m:ident, [$($acc:tt)*] $d:literal => $v:ident ($($t:ty),+), $($rest:tt)*) => {
        $crate::runion!(@data $name, $b, $m, [$($acc)* $d => $v ($(pub $t),+),] $($rest)*);
    };
    (@data $name:ident, $b:ident, $m:ident, [$($acc:tt)*] $d:literal => $v:ident {$($f:ident : $t:ty),+}, $($rest:tt)*) => {
        $crate::runion!(@data $name, $b, $m, [$($acc)* $d => $v {$(pub $f : $t),+},] $($rest)*);
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PK {
    Byte,
    Memo,
    Slice,
}
pub const PKS: [PK; 3] = [PK::Byte, PK::Memo, PK::Slice];

/// Where in a buffer the decoder starts: `pre` bytes are consumed first, then (optionally) a
/// window of `win` bytes is opened.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct At {
    pub pre: usize,
    pub win: Option<usize>,
}
pub const START: At = At { pre: 0, win: None };

#[derive(Clone, PartialEq, Debug)]
pub struct Got {
    pub val: Val,
    /// bytes consumed, as counted by the parser's remaining count
    pub used: usize,
}

pub fn go<T: Reflect, P: Parser>(mut p: P, at: At) -> Option<Got> {
    if at.pre > 0 {
        p.consume(at.pre).expect("consume context");
    }
    if let Some(w) = at.win {
        p.set_fit(w).expect("open context window");
    }
    let before = p.remainder();
    match T::parse(&mut p) {
        Ok(v) => {
            let after = p.remainder();
            Some(Got { val: v.val(), used: before.wrapping_sub(after) })
        }
        Err(_) => None,
    }
}

/// Decodes a `T` at `at` in `buf` with the parser `k`.
pub fn decode_at<T: Reflect>(k: PK, buf: &[u8], at: At) -> Option<Got> {
    use tedium::parse::buffer::{SliceBuffer, VecBuffer};
    match k {
        PK::Byte => go::<T, _>(ByteParser::from_buffer(VecBuffer::from(buf)), at),
        PK::Memo => go::<T, _>(MemoParser::from_buffer(VecBuffer::from(buf)), at),
        PK::Slice => go::<T, _>(SliceParser::from_buffer(SliceBuffer::new(buf)), at),
    }
}
