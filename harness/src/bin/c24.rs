//! C24: derived codecs are the in-order concatenation of their fields.
use mcheck::catalog::{P2, U8};
use mcheck::inputs::*;
use mcheck::*;
use std::cell::RefCell;
use tedium::conv::len::FixedLength;
use tedium::seq::Sequence;
use tedium::*;

macro_rules! fstruct {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)]
        pub struct $name { $(pub $f: $t),* }
        rstruct!(@refl $name { $($f : $t),* });
    };
}
macro_rules! ftuple {
    ($name:ident ( $($f:ident : $t:ty),* $(,)? )) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)]
        pub struct $name ( $(pub $t),* );
        rtuple!(@refl $name ( $($f : $t),* ));
    };
}

/// The statically known length of a schema, from its fields alone.
fn known(s: &Sch) -> Option<usize> {
    Some(match s {
        Sch::Unit => 0,
        Sch::Bool => 1,
        Sch::U(w) | Sch::I(w) => *w,
        Sch::RI { w, .. } => *w,
        Sch::F64 | Sch::RF { .. } => 8,
        Sch::Fixed(n) | Sch::FixedText(n) => *n,
        Sch::Enum { w, .. } => *w,
        Sch::Prod(ss) => {
            let mut t = 0;
            for s in ss {
                t += known(s)?;
            }
            t
        }
        Sch::Boxed(i) => known(i)?,
        Sch::Opt(i) if known(i)? == 0 => 1,
        _ => return None,
    })
}

#[allow(non_snake_case, non_camel_case_types, dead_code)]
mod shapes {
    use super::*;
    include!("../gen/shapes.rs");
}

/// What is explored of one type, without the type (to keep the generated code small).
struct Ty {
    sch: Sch,
    known: Option<usize>,
    /// encoding by two routes with the reported count, estimate(), unknown(), and the value held
    enc: fn(&Val) -> (Vec<u8>, usize, Vec<u8>, usize, usize, Val),
    dec: fn(PK, &[u8], At) -> Option<Got>,
}
fn ty<T: Reflect + Estimable>() -> Ty {
    Ty {
        sch: T::sch(),
        known: T::KNOWN,
        enc: |v| {
            let t = T::make(v);
            let mut out = vec![];
            let n = t.write_to(&mut out);
            (out, n, t.encode::<StrictBuilder>().into(), t.estimate(), t.unknown(), t.val())
        },
        dec: decode_at::<T>,
    }
}
fn one(ck: &mut Ck, name: &'static str, tier: Tier, arity: usize, t: &Ty) {
    let s = &t.sch;
    let k = known(s);
    ck.case(
        || format!("KNOWN of {name}"),
        || if t.known == k { Ok(()) } else { Err(format!("{:?}, the fields give {k:?}", t.known)) },
    );
    let th = tier == Tier::Thorough;
    let cap = if th { 3000 } else { 150 };
    let vs = vals(s, Dom { lvl: 1, long: false, cap, depth: 2 });
    ck.st(vs.len() as u64);
    for v in &vs {
        if ck.stop() {
            return;
        }
        ck.tr(1);
        ck.case(
            || format!("{name}: {}", vshow(v)),
            || {
                let want = encv(s, v);
                let (out, n, b, est, unk, held) = (t.enc)(v);
                if out != want || n != want.len() {
                    return Err(format!("writes {} and reports {n}; the fields give {}", hexs(&out), hexs(&want)));
                }
                if b != want {
                    return Err(format!("the strict builder gives {}, the fields {}", hexs(&b), hexs(&want)));
                }
                if est != want.len() || unk != want.len() {
                    return Err(format!("estimate() = {est}, unknown() = {unk}, the fields give {}", want.len()));
                }
                if held != *v {
                    return Err(format!("holds {}", vshow(&held)));
                }
                Ok(())
            },
        );
    }
    let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(s, v)).collect();
    let bounds = InBounds {
        words: if th { 20000 } else { 400 },
        seeds: if th { 60 } else if arity <= 1 { 12 } else { 6 },
        positions: if th { 40 } else { 12 },
        full_bytes: th,
        two_bytes: false,
    };
    let ins = inputs(s, &bounds, &seeds);
    ck.st(ins.len() as u64);
    for b in &ins {
        let mut w = vec![0xff, 0];
        w.extend_from_slice(b);
        w.extend([1, 2, 3]);
        for (buf, at) in [(b.clone(), START), (w, At { pre: 2, win: Some(b.len()) })] {
            if ck.stop() {
                return;
            }
            ck.tr(3);
            ck.case(
                || format!("decode {name} from {} at {at:?}", hexs(&buf)),
                || {
                    let want = decv(s, b, PLAIN).map(|(val, used)| Got { val, used });
                    for k in PKS {
                        let g = (t.dec)(k, &buf, at);
                        if g != want {
                            return Err(format!("{k:?} parser: {g:?}, the fields give {want:?}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
fn add(v: &mut Vec<Section>, tier: Tier, arity: usize, name: &'static str, len: Option<usize>, ty: fn() -> Ty) {
    v.push(section(if len.is_some() { format!("FixedLength {name}") } else { name.to_string() }, move |ck| {
        let t = ty();
        if let Some(l) = len {
            let k = known(&t.sch);
            ck.case(|| format!("LEN of {name}"), || if Some(l) == k { Ok(()) } else { Err(format!("{l}, the fields give {k:?}")) });
        }
        one(ck, name, tier, arity, &t)
    }));
}
pub fn derived<T: Reflect + Estimable>(v: &mut Vec<Section>, tier: Tier, arity: usize, name: &'static str) {
    add(v, tier, arity, name, None, ty::<T>)
}
pub fn fixed<T: Reflect + FixedLength>(v: &mut Vec<Section>, tier: Tier, arity: usize, name: &'static str) {
    add(v, tier, arity, name, Some(T::LEN), ty::<T>)
}

// ---- which fields are visited, in which order, on which parser or target --------------------------
thread_local! {
    static LOG: RefCell<(Vec<(char, usize, usize)>, Option<usize>)> = RefCell::new((vec![], None));
}
/// The K-th field: takes K % 3 bytes, writes K % 3 bytes; reports every use; fails on demand.
#[derive(Clone, Debug, PartialEq)]
pub struct Q<const K: usize>;
impl<const K: usize> Encode for Q<K> {
    fn write_to<U: tedium::conv::target::Target>(&self, buf: &mut U) -> usize {
        LOG.with(|l| l.borrow_mut().0.push(('w', K, 0)));
        buf.push_all(&[K as u8; 2][..K % 3])
    }
}
impl<const K: usize> Decode for Q<K> {
    fn parse<P: Parser>(p: &mut P) -> tedium::parse::ParseResult<Self> {
        let rem = p.remainder();
        let fail = LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.0.push(('r', K, rem));
            l.1 == Some(K)
        });
        if fail {
            return Err(tedium::parse::error::ParseError::Token(tedium::parse::error::TokenError::InvalidBoolean(K as u8 + 1)));
        }
        p.consume(K % 3)?;
        Ok(Q)
    }
}
impl<const K: usize> Estimable for Q<K> {
    const KNOWN: Option<usize> = if K % 5 == 4 { None } else { Some(K % 3) };
    fn unknown(&self) -> usize {
        LOG.with(|l| l.borrow_mut().0.push(('u', K, 0)));
        K % 3
    }
}
macro_rules! probe {
    ($v:ident; $($name:ident : $($k:literal)*;)+) => {$(
        {
            #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug, PartialEq)]
            pub struct $name($(Q<$k>),*);
            let ks: Vec<usize> = vec![$($k),*];
            $v.push(section(format!("visits of {} fields (tuple)", ks.len()), move |ck| visits::<$name>(ck, $name($(Q::<$k>),*), &ks)));
        }
    )+};
}
macro_rules! nprobe {
    ($v:ident; $($name:ident : $($f:ident $k:literal)*;)+) => {$(
        {
            #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug, PartialEq)]
            pub struct $name { $($f: Q<$k>),* }
            let ks: Vec<usize> = vec![$($k),*];
            $v.push(section(format!("visits of {} fields (named)", ks.len()), move |ck| visits::<$name>(ck, $name { $($f: Q::<$k>),* }, &ks)));
        }
    )+};
}
fn visits<T: Encode + Decode + Estimable + PartialEq + std::fmt::Debug>(ck: &mut Ck, t: T, ks: &[usize]) {
    use tedium::parse::buffer::{SliceBuffer, VecBuffer};
    let want: Vec<u8> = ks.iter().flat_map(|k| vec![*k as u8; k % 3]).collect();
    let clear = |f| LOG.with(|l| *l.borrow_mut() = (vec![], f));
    let log = || LOG.with(|l| l.borrow().0.clone());
    ck.st(1);
    ck.case(
        || format!("writing {t:?}"),
        || {
            clear(None);
            let mut out = vec![];
            let n = t.write_to(&mut out);
            if out != want || n != want.len() {
                return Err(format!("writes {} ({n}), the fields give {}", hexs(&out), hexs(&want)));
            }
            let w: Vec<_> = ks.iter().map(|k| ('w', *k, 0)).collect();
            if log() != w {
                return Err(format!("the fields are written as {:?}", log()));
            }
            clear(None);
            let k: Option<usize> = if ks.iter().any(|k| k % 5 == 4) { None } else { Some(want.len()) };
            if T::KNOWN != k || t.unknown() != want.len() || t.estimate() != want.len() {
                return Err(format!("KNOWN {:?}, unknown {}, estimate {}; the fields give {k:?} and {}", T::KNOWN, t.unknown(), t.estimate(), want.len()));
            }
            Ok(())
        },
    );
    // every failing field, every truncation, with every parser
    let mut fails: Vec<Option<usize>> = vec![None];
    fails.extend(ks.iter().map(|k| Some(*k)));
    for f in fails {
        for cut in 0..=want.len() + 2 {
            let buf: Vec<u8> = (0..cut).map(|i| i as u8).collect();
            for k in PKS {
                ck.st(1);
                ck.tr(1);
                ck.case(
                    || format!("{k:?} parser decoding {t:?} from {cut} bytes, field {f:?} refusing"),
                    || {
                        clear(f);
                        fn run<T: Decode, P: Parser>(mut p: P) -> (Result<T, tedium::parse::error::ParseError>, usize) {
                            let r = T::parse(&mut p);
                            (r, p.remainder())
                        }
                        let (r, rem) = match k {
                            PK::Byte => run::<T, _>(ByteParser::from_buffer(VecBuffer::from(&buf[..]))),
                            PK::Memo => run::<T, _>(MemoParser::from_buffer(VecBuffer::from(&buf[..]))),
                            PK::Slice => run::<T, _>(SliceParser::from_buffer(SliceBuffer::new(&buf))),
                        };
                        // the reference visit
                        let (mut left, mut w, mut ok) = (cut, vec![], true);
                        for k in ks {
                            w.push(('r', *k, left));
                            if f == Some(*k) || left < k % 3 {
                                ok = false;
                                break;
                            }
                            left -= k % 3;
                        }
                        if log() != w {
                            return Err(format!("the fields are read as {:?}, expected {w:?}", log()));
                        }
                        if r.is_ok() != ok || rem != left {
                            return Err(format!("gives {r:?} with {rem} bytes left, expected success {ok} with {left}"));
                        }
                        if let (Some(f), Err(e)) = (f, &r) {
                            if w.last().map(|x| x.1) == Some(f) && !format!("{e:?}").contains("InvalidBoolean") {
                                return Err(format!("field {f}'s error came out as {e:?}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    clear(None);
}

// ---- declarations that are unlike the generated ones -------------------------------------------
mod written {
    use super::*;
    /// documented
    #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)]
    #[allow(dead_code)]
    pub(crate) struct Attrs {
        /// first
        #[allow(unused)]
        pub(crate) y: u16,
        #[doc = "second"]
        x: tedium::u30,
        pub z: ::tedium::Dynamic<u8, tedium::Bytes>,
    }
    rstruct!(@refl Attrs { y: u16, x: u30, z: Dynamic<u8, Bytes> });
    pub type Alias = Dynamic<u8, Sequence<Attrs>>;
    rtuple!(Nested(a: Attrs, b: Alias, c: Option<Attrs>));
    rstruct!(Deep { q: Nested, a: Option<Nested>, m: AutoBox<Attrs> });
    #[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)]
    pub struct Unit;
    impl Reflect for Unit {
        fn sch() -> Sch {
            Sch::Prod(vec![])
        }
        fn val(&self) -> Val {
            Val::Prod(vec![])
        }
        fn make(_: &Val) -> Self {
            Unit
        }
    }
    rstruct!(Units { a: Unit, b: u8, c: Unit, d: Option<Unit> });
    #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)]
    pub struct FUnit;
    impl Reflect for FUnit {
        fn sch() -> Sch {
            Sch::Prod(vec![])
        }
        fn val(&self) -> Val {
            Val::Prod(vec![])
        }
        fn make(_: &Val) -> Self {
            FUnit
        }
    }
    pub fn all(v: &mut Vec<Section>, tier: Tier) {
        derived::<Attrs>(v, tier, 3, "Attrs");
        derived::<Nested>(v, tier, 3, "Nested");
        derived::<Deep>(v, tier, 3, "Deep");
        derived::<Unit>(v, tier, 0, "Unit");
        derived::<Units>(v, tier, 3, "Units");
        fixed::<FUnit>(v, tier, 0, "FUnit");
        derived::<catalog::Nest>(v, tier, 3, "Nest");
        derived::<catalog::Wide>(v, tier, 9, "Wide");
        derived::<catalog::VTail>(v, tier, 3, "VTail");
        derived::<catalog::VTail2>(v, tier, 3, "VTail2");
    }
}

// ---- fields that only have a length: arrays, plain vectors and text -----------------------------
mod lengths {
    use super::*;
    /// A length known from the declaration alone, and the length of one value.
    pub trait Len: Sized + 'static {
        const K: Option<usize>;
        fn vals() -> Vec<Self>;
        fn of(&self) -> usize;
    }
    pub struct W2(#[allow(dead_code)] u16);
    impl FixedLength for W2 {
        const LEN: usize = 2;
    }
    macro_rules! plain {
        ($($t:ty, $n:expr, $v:expr);* $(;)?) => {$(
            impl Len for $t {
                const K: Option<usize> = Some($n);
                fn vals() -> Vec<Self> { vec![$v] }
                fn of(&self) -> usize { $n }
            }
        )*};
    }
    plain! { (), 0, (); bool, 1, true; u8, 1, 7; u16, 2, 7; i32, 4, -1; f64, 8, 0.5; W2, 2, W2(1) }
    impl<T: Len, const M: usize> Len for [T; M] {
        const K: Option<usize> = match T::K {
            Some(k) => Some(k * M),
            None => None,
        };
        fn vals() -> Vec<Self> {
            vec![std::array::from_fn(|_| T::vals().pop().unwrap())]
        }
        fn of(&self) -> usize {
            self.iter().map(Len::of).sum()
        }
    }
    impl<T: Len> Len for Vec<T> {
        const K: Option<usize> = None;
        fn vals() -> Vec<Self> {
            [0, 1, 3, 300].iter().map(|n| (0..*n).map(|_| T::vals().pop().unwrap()).collect()).collect()
        }
        fn of(&self) -> usize {
            self.iter().map(Len::of).sum()
        }
    }
    impl<T: Len> Len for Option<T> {
        const K: Option<usize> = match T::K {
            Some(0) => Some(1),
            _ => None,
        };
        fn vals() -> Vec<Self> {
            std::iter::once(None).chain(T::vals().into_iter().map(Some)).collect()
        }
        fn of(&self) -> usize {
            1 + self.as_ref().map_or(0, Len::of)
        }
    }
    impl Len for String {
        const K: Option<usize> = None;
        fn vals() -> Vec<Self> {
            ["", "a", "\u{e9}", "\u{1f600}bc"].map(String::from).to_vec()
        }
        fn of(&self) -> usize {
            self.as_bytes().len()
        }
    }
    impl Len for &'static str {
        const K: Option<usize> = None;
        fn vals() -> Vec<Self> {
            vec!["", "xyz", "\u{e9}"]
        }
        fn of(&self) -> usize {
            self.as_bytes().len()
        }
    }
    fn check<T: Estimable>(ck: &mut Ck, name: &str, k: Option<usize>, v: &T, want: usize) {
        ck.st(1);
        ck.tr(3);
        ck.case(
            || format!("lengths of {name} at a value of {want} bytes"),
            || {
                if T::KNOWN != k {
                    return Err(format!("KNOWN = {:?}, the fields give {k:?}", T::KNOWN));
                }
                if v.unknown() != want || v.estimate() != want {
                    return Err(format!("unknown() = {}, estimate() = {}, the fields give {want}", v.unknown(), v.estimate()));
                }
                Ok(())
            },
        );
    }
    /// One, two and three fields of these types, named and unnamed.
    macro_rules! shapes {
        ($v:ident; $($m:ident : { $($a:tt)* } { $($b:tt)* } { $($c:tt)* })*) => {$(
            $v.push(section(concat!("lengths over (", stringify!($($a)*), ", ", stringify!($($b)*), ", ", stringify!($($c)*), ")"), |ck| {
                #[derive(tedium::Estimable)] struct T1($($a)*);
                #[derive(tedium::Estimable)] struct S1 { x: $($a)* }
                #[derive(tedium::Estimable)] struct T2($($a)*, $($b)*);
                #[derive(tedium::Estimable)] struct S2 { y: $($a)*, x: $($b)* }
                #[derive(tedium::Estimable)] struct T3($($a)*, $($b)*, $($c)*);
                #[derive(tedium::Estimable)] struct S3 { z: $($a)*, y: $($b)*, x: $($c)* }
                type A = $($a)*; type B = $($b)*; type C = $($c)*;
                let sum = |ks: &[Option<usize>]| ks.iter().try_fold(0, |a, k| k.map(|k| a + k));
                for i in 0..<A as Len>::vals().len() {
                    let a = || <A as Len>::vals().swap_remove(i);
                    let la = a().of();
                    check(ck, "(A)", A::K, &T1(a()), la);
                    check(ck, "{A}", A::K, &S1 { x: a() }, la);
                    for j in 0..<B as Len>::vals().len() {
                        let b = || <B as Len>::vals().swap_remove(j);
                        let lb = b().of();
                        let k = sum(&[A::K, B::K]);
                        check(ck, "(A,B)", k, &T2(a(), b()), la + lb);
                        check(ck, "{A,B}", k, &S2 { y: a(), x: b() }, la + lb);
                        for h in 0..<C as Len>::vals().len() {
                            let c = || <C as Len>::vals().swap_remove(h);
                            let lc = c().of();
                            let k = sum(&[A::K, B::K, C::K]);
                            check(ck, "(A,B,C)", k, &T3(a(), b(), c()), la + lb + lc);
                            check(ck, "{A,B,C}", k, &S3 { z: a(), y: b(), x: c() }, la + lb + lc);
                        }
                    }
                }
            }));
        )*};
    }
    /// The same with the other derive, where every field has a fixed length.
    macro_rules! fixeds {
        ($v:ident; $({ $($a:tt)* } { $($b:tt)* } { $($c:tt)* })*) => {$(
            $v.push(section(concat!("fixed lengths over (", stringify!($($a)*), ", ", stringify!($($b)*), ", ", stringify!($($c)*), ")"), |ck| {
                #[derive(tedium::FixedLength)] struct T1($($a)*);
                #[derive(tedium::FixedLength)] struct S1 { x: $($a)* }
                #[derive(tedium::FixedLength)] struct T2($($a)*, $($b)*);
                #[derive(tedium::FixedLength)] struct S2 { y: $($a)*, x: $($b)* }
                #[derive(tedium::FixedLength)] struct T3($($a)*, $($b)*, $($c)*);
                #[derive(tedium::FixedLength)] struct S3 { z: $($a)*, y: $($b)*, x: $($c)* }
                type A = $($a)*; type B = $($b)*; type C = $($c)*;
                fn one<T: Len>() -> T { T::vals().pop().unwrap() }
                let (a, b, c) = (A::K.unwrap(), B::K.unwrap(), C::K.unwrap());
                let want = [a, a, a + b, a + b, a + b + c, a + b + c];
                let got = [T1::LEN, S1::LEN, T2::LEN, S2::LEN, T3::LEN, S3::LEN];
                ck.case(|| "LEN of the six shapes".into(), || if got == want { Ok(()) } else { Err(format!("{got:?}, the fields give {want:?}")) });
                check(ck, "(A)", Some(a), &T1(one::<A>()), a);
                check(ck, "{A}", Some(a), &S1 { x: one::<A>() }, a);
                check(ck, "(A,B)", Some(a + b), &T2(one::<A>(), one::<B>()), a + b);
                check(ck, "{A,B}", Some(a + b), &S2 { y: one::<A>(), x: one::<B>() }, a + b);
                check(ck, "(A,B,C)", Some(a + b + c), &T3(one::<A>(), one::<B>(), one::<C>()), a + b + c);
                check(ck, "{A,B,C}", Some(a + b + c), &S3 { z: one::<A>(), y: one::<B>(), x: one::<C>() }, a + b + c);
                // one value of a fixed length is one element of itself
                let t = T3(one::<A>(), one::<B>(), one::<C>());
                ck.case(|| "a fixed length as a scalar length".into(), || {
                    use tedium::conv::len::ScalarLength as L;
                    let got = (<T3 as L>::FIXED, <T3 as L>::PER_ELEM, L::n_elems(&t));
                    if got == (Some(a + b + c), a + b + c, 1) { Ok(()) } else { Err(format!("{got:?}, the fields give {}", a + b + c)) }
                });
                let vs = <Vec<[T3; 2]> as From<[[T3; 2]; 0]>>::from([]);
                check(ck, "an empty vector", None, &vs, 0);
                let mk = || T3(one::<A>(), one::<B>(), one::<C>());
                check(ck, "a vector of pairs", None, &vec![[mk(), mk()], [mk(), mk()], [mk(), mk()]], 6 * (a + b + c));
                check(ck, "a pair", Some(2 * (a + b + c)), &[mk(), mk()], 2 * (a + b + c));
                // borrowed slices have lengths, but no static one
                let three = vec![mk(), mk(), mk()];
                check(ck, "a slice", None, &three.as_slice(), 3 * (a + b + c));
            }));
        )*};
    }
    pub fn all(v: &mut Vec<Section>) {
        shapes! { v;
            l0: { [u8; 3] } { [u16; 2] } { [(); 4] }
            l1: { [u16; 3] } { u8 } { [W2; 3] }
            l2: { [W2; 3] } { [[u16; 2]; 3] } { f64 }
            l3: { [[u8; 4]; 3] } { W2 } { Vec<u16> }
            l4: { [bool; 0] } { [f64; 5] } { Option<[u16; 2]> }
            l5: { [(); 7] } { Option<[(); 7]> } { Option<[u8; 0]> }
            l6: { Vec<u8> } { String } { [i32; 2] }
            l7: { Vec<W2> } { [W2; 1] } { &'static str }
            l8: { Vec<[u16; 3]> } { Vec<()> } { Option<Vec<u16>> }
            l9: { String } { Option<String> } { [[[u8; 2]; 2]; 2] }
            l10: { &'static str } { Option<Option<()>> } { Option<W2> }
            l11: { Option<u8> } { [u8; 300] } { [u16; 0] }
            l12: { Option<()> } { [u8; 1] } { [W2; 70] }
            l13: { [i32; 64] } { [f64; 32] } { u16 }
        }
        fixeds! { v;
            { u8 } { u16 } { i32 }
            { () } { bool } { f64 }
            { [u8; 3] } { [u16; 3] } { [W2; 3] }
            { [[u16; 2]; 3] } { W2 } { [(); 3] }
            { [f64; 2] } { u8 } { [[[u8; 2]; 2]; 2] }
            { [u8; 0] } { [W2; 0] } { () }
            { [u8; 300] } { [u16; 200] } { W2 }
            { W2 } { [bool; 5] } { [i32; 1] }
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C24",
            explanation: "states = (struct shape, value) and (struct shape, input) pairs, plus (probe shape, failing field, input length); a transition = one derived encoding with its lengths, or one derived decoding by one of the three real parsers. Shapes: every sequence of up to two field types out of sixteen and of three out of five, as tuple and as named struct (with field names out of alphabetical order, raw identifiers and the identifiers the derive macros use themselves), larger ones up to 33 fields, unit and nested ones; all are compiled against the real derive macros. The oracle concatenates the fields' reference encodings and decodes them in order. Fields that only have a length (arrays, plain vectors, text, options of them) are derived alone, with both length derives. Probe fields record in which order they are visited and refuse on demand.",
            assumptions: &["field names that are path keywords or collide with the macros' generic parameter names as types are not declared"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = vec![];
            shapes::all(&mut v, tier);
            written::all(&mut v, tier);
            lengths::all(&mut v);
            probe!(v; Q0: ; Q1: 1; Q1b: 4; Q2: 2 1; Q2b: 1 4; Q3: 1 0 2; Q3b: 4 2 1; Q4: 1 2 0 5; Q5: 5 4 3 2 1; Q6: 2 1 8 7 5 10;
                Q7: 1 2 3 5 6 7 8; Q8: 8 7 6 5 4 3 2 1; Q12: 12 1 11 2 10 3 9 4 8 5 7 6; Q16: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16;);
            nprobe!(v; R0: ; R1: buf 1; R1b: p 4; R2: b 2 a 1; R2b: f 1 p 4; R3: c 1 a 0 b 2; R3b: buf 4 p 2 f 1; R4: d 1 b 2 a 0 c 5;
                R5: e 5 a 4 c 3 b 2 d 1; R6: p6 2 p5 1 p4 8 p3 7 p2 5 p1 10; R8: a 8 b 7 c 6 d 5 h 4 g 3 f 2 e 1;
                R12: l 12 k 1 j 11 i 2 h 10 g 3 f 9 e 4 d 8 c 5 b 7 a 6;);
            v
        },
    )
}
