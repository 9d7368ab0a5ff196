//! C26: equality, ordering, hashing, copying and borrowing agree with the represented value.
use mcheck::catalog::*;
use mcheck::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// The order of represented values: numbers by magnitude, bytes, sequences and records from left to
/// right, absent before present, unions by discriminant.
fn order(a: &Val, b: &Val) -> Option<Ordering> {
    use Val::*;
    fn lex(a: &[Val], b: &[Val]) -> Option<Ordering> {
        for (x, y) in a.iter().zip(b) {
            match order(x, y) {
                Some(Ordering::Equal) => {}
                o => return o,
            }
        }
        Some(a.len().cmp(&b.len()))
    }
    match (a, b) {
        (Unit, Unit) => Some(Ordering::Equal),
        (U(x), U(y)) => Some(x.cmp(y)),
        (I(x), I(y)) => Some(x.cmp(y)),
        (F(x), F(y)) => f64::from_bits(*x).partial_cmp(&f64::from_bits(*y)),
        (Bool(x), Bool(y)) => Some(x.cmp(y)),
        (Bytes(x), Bytes(y)) => Some(x.cmp(y)),
        (Opt(x), Opt(y)) => match (x, y) {
            (Some(x), Some(y)) => order(x, y),
            _ => Some(x.is_some().cmp(&y.is_some())),
        },
        (Seq(x), Seq(y)) | (Prod(x), Prod(y)) => lex(x, y),
        (Tag(t, x), Tag(u, y)) => {
            if t == u {
                order(x, y)
            } else {
                Some(t.cmp(u))
            }
        }
        (Nat(x), Nat(y)) => Some(x.cmp(y)),
        (Int(x), Int(y)) => Some(x.cmp(y)),
        _ => panic!("ill-typed"),
    }
}

/// What a pair of values of one type is observed to be; `None` where the type has no such relation.
#[derive(Clone, Copy, Default)]
struct Rel {
    eq: Option<bool>,
    ne: Option<bool>,
    part: Option<Option<Ordering>>,
    cmp: Option<Ordering>,
    ops: Option<[bool; 4]>,
    hash: Option<(u64, u64)>,
}
struct W<'a, T>(&'a T, &'a T);
macro_rules! opt {
    ($yes:ident, $no:ident, $f:ident, $r:ty, $($b:tt)+) => {
        trait $yes { fn $f(&self) -> Option<$r>; }
        trait $no { fn $f(&self) -> Option<$r> { None } }
        impl<T> $no for &W<'_, T> {}
        impl<T: $($b)+> $yes for W<'_, T> { fn $f(&self) -> Option<$r> { Some(rel::$f(self.0, self.1)) } }
    };
}
mod rel {
    use super::*;
    pub fn eq_<T: PartialEq>(a: &T, b: &T) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn part_<T: PartialOrd>(a: &T, b: &T) -> (Option<Ordering>, [bool; 4]) {
        (a.partial_cmp(b), [a < b, a <= b, a > b, a >= b])
    }
    pub fn cmp_<T: Ord>(a: &T, b: &T) -> Ordering {
        a.cmp(b)
    }
    pub fn hash_<T: Hash>(a: &T, b: &T) -> (u64, u64) {
        (h(a), h(b))
    }
}
opt!(HasEq, NoEq, eq_, (bool, bool), PartialEq);
opt!(HasPart, NoPart, part_, (Option<Ordering>, [bool; 4]), PartialOrd);
opt!(HasCmp, NoCmp, cmp_, Ordering, Ord);
opt!(HasHash, NoHash, hash_, (u64, u64), Hash);

fn judge(r: Rel, want: Option<Ordering>, same: bool) -> Result<(), String> {
    let eq = want == Some(Ordering::Equal);
    if let (Some(e), Some(n)) = (r.eq, r.ne) {
        if e != eq || n == e {
            return Err(format!("== gives {e}, != gives {n}, but the values are {}", if eq { "the same" } else { "different" }));
        }
    }
    if let Some(p) = r.part {
        if p != want {
            return Err(format!("partial_cmp gives {p:?}, expected {want:?}"));
        }
    }
    if let Some(o) = r.ops {
        let l = want == Some(Ordering::Less);
        let g = want == Some(Ordering::Greater);
        if o != [l, l || eq, g, g || eq] {
            return Err(format!("<, <=, >, >= give {o:?}, expected the order {want:?}"));
        }
    }
    if let Some(c) = r.cmp {
        if Some(c) != want {
            return Err(format!("cmp gives {c:?}, expected {want:?}"));
        }
    }
    if let Some((x, y)) = r.hash {
        if eq && x != y {
            return Err("equal values hash differently".into());
        }
        let _ = same;
    }
    Ok(())
}

fn add<T: Reflect + std::fmt::Debug>(out: &mut Vec<Section>, tier: Tier, name: &'static str, rel: fn(&T, &T) -> Rel) {
    let pieces = 4;
    for piece in 0..pieces {
        out.push(section(&format!("{name} {piece}/{pieces}"), move |ck| {
            let s = T::sch();
            let mut vs = vals(&s, Dom { lvl: 2, long: false, cap: 3000, depth: 3 });
            let most = if tier == Tier::Quick { 1500 } else { 5000 };
            if vs.len() > most {
                // evenly spread over the enumeration
                let step = (vs.len() + most - 1) / most;
                vs = vs.into_iter().step_by(step).collect();
            }
            let ts: Vec<T> = vs.iter().map(T::make).collect();
            let copies: Vec<T> = ts.iter().map(|t| t.clone()).collect();
            let encs: Vec<Vec<u8>> = ts.iter().map(|t| t.encode::<Vec<u8>>()).collect();
            ck.st(((ts.len() + pieces - 1) / pieces * ts.len()) as u64);
            if piece == 0 {
                // different values print differently
                let mut seen: std::collections::HashMap<String, usize> = Default::default();
                for i in 0..ts.len() {
                    if order(&vs[i], &vs[i]) != Some(Ordering::Equal) {
                        continue;
                    }
                    ck.tr(1);
                    let first = *seen.entry(quiet(|| format!("{:?}", ts[i])).unwrap_or_default()).or_insert(i);
                    ck.case(
                        || format!("{name}: printing {} and {}", vshow(&vs[first]), vshow(&vs[i])),
                        || {
                            if encs[first] != encs[i] {
                                return Err(format!("both are printed as {:?}", ts[i]));
                            }
                            Ok(())
                        },
                    );
                }
            }
            for i in (piece..ts.len()).step_by(pieces) {
                ck.vcase(
                    || format!("{name}: printing {}", vshow(&vs[i])),
                    || {
                        let (a, b, c) = (format!("{:?}", ts[i]), format!("{:#?}", ts[i]), format!("{:?}", copies[i]));
                        if a != c || b.is_empty() && !a.is_empty() {
                            return Verdict::Fail(format!("printed as {a} and its copy as {c}"));
                        }
                        Verdict::Pass
                    },
                );
                for j in 0..ts.len() {
                    if ck.stop() {
                        return;
                    }
                    ck.tr(1);
                    let want = order(&vs[i], &vs[j]);
                    ck.vcase(
                        || format!("{name}: {} against {}", vshow(&vs[i]), vshow(&vs[j])),
                        || {
                            // against the other value, and (for equal ones) against a copy
                            match judge(rel(&ts[i], &copies[j]), want, i == j) {
                                Ok(()) => {}
                                Err(e) => return Verdict::Fail(e),
                            }
                            if i == j && copies[j].val() != vs[i] {
                                return Verdict::Fail("the copy holds another value".into());
                            }
                            if (i + j) % 8 == 0 || ts.len() < 100 {
                                // copying onto an existing value; the source stays what it was
                                let mut onto = copies[j].clone();
                                onto.clone_from(&ts[i]);
                                if onto.val() != vs[i] || onto.encode::<Vec<u8>>() != encs[i] {
                                    return Verdict::Fail(format!("copied onto {}, it gives {onto:?}", vshow(&vs[j])));
                                }
                            }
                            // one value, one encoding (floats: bit patterns)
                            if (vs[i] == vs[j]) != (encs[i] == encs[j]) {
                                return Verdict::Fail(format!("encodings {} and {}", hexs(&encs[i]), hexs(&encs[j])));
                            }
                            Verdict::Pass
                        },
                    );
                }
            }
        }));
    }
}
macro_rules! list {
    ($o:ident, $tier:ident; $($t:ty),+ $(,)?) => { $(
        add::<$t>(&mut $o, $tier, stringify!($t), |a, b| {
            let w = W(a, b);
            let e = (&w).eq_();
            let p = (&w).part_();
            Rel { eq: e.map(|x| x.0), ne: e.map(|x| x.1), part: p.map(|x| x.0), ops: p.map(|x| x.1), cmp: (&w).cmp_(), hash: (&w).hash_() }
        });
    )+ };
}

/// Byte strings through the types that hold them: they compare, hash and borrow as the bytes do.
fn bytes_like(out: &mut Vec<Section>, tier: Tier) {
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    let alpha: &[u8] = &[0, 1, 0x41, 0x61, 0x7f, 0x80, 0xff];
    let top = if tier == Tier::Quick { 2 } else { 3 };
    let mut last = words.clone();
    for _ in 0..top {
        last = last.iter().flat_map(|w| alpha.iter().map(move |a| [&w[..], &[*a]].concat())).collect();
        words.extend(last.clone());
    }
    for l in [15usize, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000] {
        for e in [0usize, l / 2, l - 1] {
            let mut w = vec![0x55; l];
            words.push(w.clone());
            w[e] = 0x56;
            words.push(w);
        }
    }
    words.dedup();
    let words = std::sync::Arc::new(words);
    macro_rules! kind {
        ($name:expr, $mk:expr) => {{
            let words = words.clone();
            out.push(section($name, move |ck| {
                let n = words.len();
                ck.st((n * n) as u64);
                for i in 0..n {
                    for j in 0..n {
                        if ck.stop() {
                            return;
                        }
                        ck.tr(1);
                        ck.case(
                            || format!("{}: {} against {}", $name, hexs(&words[i]), hexs(&words[j])),
                            || {
                                let (a, b) = ($mk(&words[i]), $mk(&words[j]));
                                let mut onto = b.clone();
                                onto.clone_from(&a);
                                if onto != a {
                                    return Err("copying onto it gives something else".into());
                                }
                                let w = W(&a, &b);
                                let e = (&w).eq_();
                                let p = (&w).part_();
                                judge(
                                    Rel { eq: e.map(|x| x.0), ne: e.map(|x| x.1), part: p.map(|x| x.0), ops: p.map(|x| x.1), cmp: (&w).cmp_(), hash: (&w).hash_() },
                                    Some(words[i].cmp(&words[j])),
                                    i == j,
                                )
                            },
                        );
                    }
                }
            }));
        }};
    }
    fn hx(w: &Vec<u8>) -> HexString {
        HexString::from(w.clone())
    }
    fn vb(w: &Vec<u8>) -> VecBuffer {
        VecBuffer::from(w.clone())
    }
    fn sb<'a>(w: &'a Vec<u8>) -> SliceBuffer<'a> {
        SliceBuffer::new(w)
    }
    fn st(w: &Vec<u8>) -> StrictBuilder {
        let mut t = StrictBuilder::create();
        t.push_all(w);
        t
    }
    fn by(w: &Vec<u8>) -> Bytes {
        Bytes::from(w.clone())
    }
    kind!("HexString", hx);
    kind!("VecBuffer", vb);
    kind!("SliceBuffer", sb);
    kind!("StrictBuilder", st);
    kind!("Bytes, short and long", by);
}

/// Borrowed forms must compare and hash like their owner: lookups in sets by the borrowed form.
fn borrows(out: &mut Vec<Section>) {
    out.push(section("lookups by borrowed form", move |ck| {
        let alpha: &[u8] = &[0, 1, 0x7f, 0x80, 0xff];
        let words: Vec<[u8; 2]> = alpha.iter().flat_map(|a| alpha.iter().map(move |b| [*a, *b])).collect();
        ck.st((words.len() * 31) as u64);
        let mut sub = 0u32;
        // every set of up to two elements, and the full one
        let mut sets: Vec<Vec<[u8; 2]>> = vec![vec![], words.clone()];
        for a in &words {
            sets.push(vec![*a]);
            for b in &words {
                sets.push(vec![*a, *b]);
            }
        }
        for set in &sets {
            sub += 1;
            if ck.stop() {
                return;
            }
            ck.tr(words.len() as u64 * 8);
            ck.case(
                || format!("set {set:?} (number {sub})"),
                || {
                    let hf: HashSet<FixedBytes<2>> = set.iter().map(|w| FixedBytes::from(*w)).collect();
                    let bf: BTreeSet<FixedBytes<2>> = set.iter().map(|w| FixedBytes::from(*w)).collect();
                    let hd: HashSet<Dynamic<u8, Bytes>> = set.iter().map(|w| Dynamic::new(Bytes::from(w.to_vec()))).collect();
                    let bd: BTreeSet<Dynamic<u16, Bytes>> = set.iter().map(|w| Dynamic::new(Bytes::from(w.to_vec()))).collect();
                    let bb: BTreeSet<StrictBuilder> = set
                        .iter()
                        .map(|w| {
                            let mut t = StrictBuilder::create();
                            t.push_all(w);
                            t
                        })
                        .collect();
                    for w in &words {
                        let has = set.contains(w);
                        let b = Bytes::from(w.to_vec());
                        let f = FixedBytes::from(*w);
                        let got = [
                            ("hash set of FixedBytes, by slice", hf.contains(&w[..])),
                            ("hash set of FixedBytes, by array", hf.contains(w)),
                            ("hash set of FixedBytes, by value", hf.contains(&f)),
                            ("tree set of FixedBytes, by slice", bf.contains(&w[..])),
                            ("tree set of FixedBytes, by array", bf.contains(w)),
                            ("hash set of Dynamic, by payload", hd.contains::<Bytes>(&b)),
                            ("tree set of Dynamic, by payload", bd.contains::<Bytes>(&b)),
                            ("tree set of builders, by slice", bb.contains(&w[..])),
                        ];
                        for (n, g) in got {
                            if g != has {
                                return Err(format!("{n}: {} found: {g}", hexs(w)));
                            }
                        }
                        let d: Dynamic<u8, Bytes> = Dynamic::new(b.clone());
                        if <Dynamic<u8, Bytes> as Borrow<Bytes>>::borrow(&d) != &b || AsRef::<Bytes>::as_ref(&d) != &b || h(&d) != h(&b) {
                            return Err(format!("{}: the borrowed payload differs", hexs(w)));
                        }
                    }
                    Ok(())
                },
            );
        }
    }));
}

fn main() {
    run(
        Spec {
            prop: "C26",
            explanation: "states = ordered pairs of values of one type (up to 1500 per type in the quick tier, spread over the leaf-boundary domain; all byte strings of up to 2 bytes over 7 byte values and longer ones for the byte holders); a transition = one pair related by the real ==, !=, <, <=, >, >=, partial_cmp, cmp and hash (where the type has them) against an independent order on the represented values, together with copying, printing and comparing the encodings. Lookups by the borrowed form are tried in every set of up to two two-byte words over 5 byte values.",
            assumptions: &["relations of types outside the list are not examined"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v: Vec<Section> = vec![];
            list!(v, tier;
                u30, i31,
                RangedInt<u8, 0, 100>, RangedInt<u8, 10, 20>, RangedInt<i8, -5, 5>, RangedInt<i8, 100, 227>, RangedInt<u16, 300, 65835>,
                RangedInt<i16, -300, 300>, RangedInt<i16, -300, -20>, RangedInt<u32, 5, 0x3fff_ffff>, RangedInt<i32, -1, 1>, RangedInt<i32, 7, 0x3fff_ffff>,
                F01, FAll, FNeg,
                FixedBytes<0>, FixedBytes<1>, FixedBytes<2>, FixedBytes<20>, FixedBytes<64>,
                FixedString<1>, FixedString<5>, FixedString<64>, Bytes, N, Z,
                Dynamic<u8, Bytes>, Dynamic<u16, u32>, Dynamic<u30, String>, Dynamic<u8, N>, Dynamic<u8, Option<u16>>, Dynamic<u8, Dynamic<u8, Bytes>>,
                Dynamic<u16, Sequence<u16>>, Dynamic<u8, f64>, Dynamic<u8, F01>,
                Nullable<u8>, Nullable<Bytes>, Nullable<Option<u16>>,
                Sequence<u8>, Sequence<i16>, Sequence<N>, Sequence<Option<u8>>, Sequence<FixedBytes<3>>, Sequence<f64>,
                LimSeq<u8, 0>, LimSeq<u8, 3>, LimSeq<u16, 2>, LimSeq<Z, 2>, LimSeq<Dynamic<u8, Bytes>, 2>,
                FixSeq<u8, 0>, FixSeq<u8, 3>, FixSeq<i16, 2>, FixSeq<N, 2>, FixSeq<Option<u8>, 3>,
                Padded<u8, 1>, Padded<u32, 3>, Padded<Bytes, 2>, Padded<(), 2>, VPadded<Bytes, 2>, VPadded<u16, 1>,
                AutoBox<u8>, AutoBox<Bytes>, AutoBox<Option<N>>, AutoBox<AutoBox<i16>>, AutoBox<f64>,
                E8, E16, E32, E8Many, U8, U16, UTail, UNest, Tree, AutoBox<U16>, Sequence<E8>, Sequence<U8>, Dynamic<u16, U8>);
            bytes_like(&mut v, tier);
            borrows(&mut v);
            v
        },
    )
}
