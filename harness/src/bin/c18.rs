//! C18: enumerations and tagged unions map tags and variants one to one.
use mcheck::catalog::{self, E16, E32, E8};
use mcheck::*;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::TagValidator;
use tedium::conv::EncodeLength;
use tedium::seq::Sequence;
use tedium::*;

type Word = u64;

/// Numbers of w bytes that matter next to the declared ones: everything for one and two bytes,
/// and the neighbourhood of every declared tag (bit flips, byte moves, sums) for four.
fn words(w: usize, tags: &[u64], th: bool) -> Vec<u64> {
    match w {
        1 => (0..=255).collect(),
        2 => (0..=65535).collect(),
        _ => {
            let mut s: Vec<u64> = (0..if th { 0x40000 } else { 0x4000 }).collect();
            for t in tags.iter().copied().chain([0, 1, 255, 256, 65535, 65536, 0x3fff_ffff, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) {
                let t = t as u32;
                for i in 0..32 {
                    s.push((t ^ (1 << i)) as u64);
                    for j in 0..i {
                        s.push((t ^ (1 << i) ^ (1 << j)) as u64);
                    }
                    s.push(t.rotate_left(i) as u64);
                }
                for d in 0..300u32 {
                    s.push(t.wrapping_add(d) as u64);
                    s.push(t.wrapping_sub(d) as u64);
                }
                s.push(t.swap_bytes() as u64);
                for hi in 0..256u32 {
                    s.push((t & 0x00ff_ffff | hi << 24) as u64);
                    s.push((t & 0xff00_ffff | hi << 16) as u64);
                    s.push((t & 0xffff_00ff | hi << 8) as u64);
                }
            }
            s.sort();
            s.dedup();
            s
        }
    }
}

struct Decl {
    name: &'static str,
    w: usize,
    vars: Vec<(&'static str, u64)>,
}

/// What the generated tag queries of a type answer.
struct Queries {
    valid: fn(Word) -> bool,
    name_of: fn(Word) -> Option<&'static str>,
    tags: fn() -> Vec<Word>,
}

fn queries(ck: &mut Ck, d: &Decl, q: &Queries) {
    ck.tr(1);
    ck.case(
        || format!("{}::iter_tags", d.name),
        || {
            let mut t = (q.tags)();
            let mut want: Vec<u64> = d.vars.iter().map(|x| x.1).collect();
            t.sort();
            want.sort();
            if t != want {
                return Err(format!("lists {t:?}, declared {want:?}"));
            }
            Ok(())
        },
    );
    let th = ck.thorough();
    for x in words(d.w, &d.vars.iter().map(|x| x.1).collect::<Vec<_>>(), th) {
        if ck.stop() {
            return;
        }
        ck.st(1);
        ck.tr(2);
        let want = d.vars.iter().find(|v| v.1 == x).map(|v| v.0);
        ck.case(
            || format!("{}: tag queries of {x:#x}", d.name),
            || {
                if (q.valid)(x) != want.is_some() {
                    return Err(format!("is_valid_tag = {}, declared: {want:?}", (q.valid)(x)));
                }
                if (q.name_of)(x) != want {
                    return Err(format!("get_name = {:?}, declared: {want:?}", (q.name_of)(x)));
                }
                Ok(())
            },
        );
    }
}

fn try_all<T: Reflect>(ck: &mut Ck, name: &'static str, b: &[u8]) {
    let s = T::sch();
    let want = decv(&s, b, PLAIN);
    for k in PKS {
        let mut buf = vec![9, 9];
        buf.extend_from_slice(b);
        buf.extend([0, 1]);
        for (bytes, at) in [(b, START), (&buf[..], At { pre: 2, win: Some(b.len()) })] {
            ck.tr(1);
            ck.case(
                || format!("{name} from {} at {at:?}, {k:?} parser", hexs(bytes)),
                || {
                    let got = decode_at::<T>(k, bytes, at);
                    match (&want, &got) {
                        (None, None) => Ok(()),
                        (Some((v, n)), Some(g)) if *v == g.val && *n == g.used => Ok(()),
                        _ => Err(format!("gave {got:?}, expected {want:?}")),
                    }
                },
            );
        }
    }
}

/// One declared variant: its tag, that it equals only itself, and its bytes.
fn one_value<T: Reflect + Estimable>(ck: &mut Ck, name: &'static str, s: &Sch, v: &Val) {
    ck.st(1);
    ck.tr(4);
    ck.case(
        || format!("{name}: writing {v:?}"),
        || {
            let t = T::make(v);
            if t.val() != *v {
                return Err("harness: value not represented".into());
            }
            let want = encv(s, v);
            let mut out = Vec::new();
            let n = t.write_to(&mut out);
            if out != want || n != want.len() {
                return Err(format!("wrote {} and reported {n}, expected {}", hexs(&out), hexs(&want)));
            }
            let b = t.to_bytes();
            if b != want {
                return Err(format!("to_bytes = {}, expected {}", hexs(&b), hexs(&want)));
            }
            let mut pre = vec![1, 2, 3];
            t.write_to_vec(&mut pre);
            if pre[..3] != [1, 2, 3] || pre[3..] != want[..] {
                return Err(format!("write_to_vec appended {}", hexs(&pre[3..])));
            }
            if t.estimate() != want.len() {
                return Err(format!("estimate() = {}, {} bytes", t.estimate(), want.len()));
            }
            if let Some(k) = T::KNOWN {
                if k != want.len() {
                    return Err(format!("KNOWN = {k}, {} bytes", want.len()));
                }
            }
            Ok(())
        },
    );
}

fn decodings<T: Reflect>(ck: &mut Ck, name: &'static str, d: &Decl, tails: &[Vec<u8>]) {
    let th = ck.thorough();
    // too short
    for n in 0..d.w {
        for x in [0u8, 1, 0xff] {
            try_all::<T>(ck, name, &vec![x; n]);
        }
    }
    for x in words(d.w, &d.vars.iter().map(|x| x.1).collect::<Vec<_>>(), th) {
        if ck.stop() {
            return;
        }
        ck.st(1);
        let mut b = vec![];
        be(x, d.w, &mut b);
        let near = d.w == 1 || d.vars.iter().any(|v| v.1 == x || v.1 ^ x < 4) || th;
        let ts = if near { tails } else { &tails[..1] };
        for t in ts {
            let mut c = b.clone();
            c.extend_from_slice(t);
            try_all::<T>(ck, name, &c);
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! an_enum {
    ($v:ident, $name:ident, $b:ident, {$($n:ident = $d:expr),+ $(,)?}) => {{
        renum!($name, $b, {$($n = $d),+});
        an_enum!(@declared $v, $name, $b, {$($n = $d),+});
    }};
    (@declared $v:ident, $name:ident, $b:ident, {$($n:ident = $d:expr),+ $(,)?}) => {{
        let decl = || Decl { name: stringify!($name), w: std::mem::size_of::<$b>(), vars: vec![$((stringify!($n), $d as u64)),+] };
        $v.push(section(format!("enum {} on {}", stringify!($name), stringify!($b)), move |ck| {
            let d = decl();
            queries(ck, &d, &Queries {
                valid: |x| $name::is_valid_tag(x as $b),
                name_of: |x| $name::get_name(x as $b),
                tags: || $name::iter_tags().map(|x| x as u64).collect(),
            });
            let all: Vec<($name, u64)> = vec![$(($name::$n, $d as u64)),+];
            for (e, t) in &all {
                ck.tr(3);
                ck.case(|| format!("{} {e:?}: its number", d.name), || {
                    if e.get_tagval() as u64 != *t || *e as $b as u64 != *t {
                        return Err(format!("get_tagval = {}, as number {}, declared {t}", e.get_tagval(), *e as $b));
                    }
                    if <$name as FixedLength>::LEN != d.w || e.enc_len() != d.w {
                        return Err(format!("LEN = {}, enc_len = {}", <$name as FixedLength>::LEN, e.enc_len()));
                    }
                    for (f, u) in &all {
                        if (e == f) != (t == u) {
                            return Err(format!("compares equal to {f:?}: {}", e == f));
                        }
                        if t == u && hash(e) != hash(f) {
                            return Err("equal values hash differently".into());
                        }
                    }
                    Ok(())
                });
                one_value::<$name>(ck, d.name, &<$name as Reflect>::sch(), &Val::U(*t));
            }
            // conversion from numbers
            let th = ck.thorough();
            for x in words(d.w, &d.vars.iter().map(|x| x.1).collect::<Vec<_>>(), th) {
                if ck.stop() { return; }
                ck.tr(1);
                ck.case(|| format!("{}::try_from({x:#x})", d.name), || {
                    let want = all.iter().find(|v| v.1 == x).map(|v| v.0);
                    match $name::try_from(x as $b) {
                        Ok(g) if Some(g) == want => Ok(()),
                        Err(e) if want.is_none() => {
                            // the error can be shown
                            if format!("{e}{e:?}").is_empty() { Err("empty message".into()) } else { Ok(()) }
                        }
                        g => Err(format!("gave {g:?}, expected {want:?}")),
                    }
                });
            }
        }));
        $v.push(section(format!("decoding enum {}", stringify!($name)), move |ck| {
            decodings::<$name>(ck, stringify!($name), &decl(), &[vec![], vec![0], vec![0xff, 1]]);
        }));
    }};
}

macro_rules! a_union {
    ($v:ident, $name:ident, $b:ident, $m:ident, { $($d:literal => $n:ident $spec:tt),+ $(,)? }) => {{
        $v.push(section(format!("union {}", stringify!($name)), move |ck| {
            let d = Decl { name: stringify!($name), w: std::mem::size_of::<$b>(), vars: vec![$((stringify!($n), $d as u64)),+] };
            queries(ck, &d, &Queries {
                valid: |x| $name::is_valid_tag(x as $b),
                name_of: |x| $name::get_name(x as $b),
                tags: || $name::iter_tags().map(|x| x as u64).collect(),
            });
            let s = <$name as Reflect>::sch();
            let th = ck.thorough();
            let vs = vals(&s, Dom { lvl: if th { 2 } else { 1 }, long: true, cap: if th { 4000 } else { 600 }, depth: 3 });
            for v in &vs {
                one_value::<$name>(ck, d.name, &s, v);
                ck.tr(1);
                ck.case(|| format!("{}: tag of {v:?}", d.name), || {
                    let t = <$name as Reflect>::make(v);
                    let want = match v { Val::Tag(t, _) => *t, _ => unreachable!() };
                    if t.get_tagval() as u64 != want {
                        return Err(format!("get_tagval = {}, declared {want}", t.get_tagval()));
                    }
                    if hash(&t) != hash(&t.clone()) {
                        return Err("equal values hash differently".into());
                    }
                    Ok(())
                });
            }
            // equality is equality of tag and payload
            let few: Vec<&Val> = vs.iter().step_by((vs.len() / 40).max(1)).collect();
            for a in &few {
                for b in &few {
                    ck.tr(1);
                    ck.case(|| format!("{}: {a:?} == {b:?}", d.name), || {
                        let (x, y) = (<$name as Reflect>::make(a), <$name as Reflect>::make(b));
                        if (x == y) != (a == b) { Err(format!("{}", x == y)) } else { Ok(()) }
                    });
                }
            }
        }));
        $v.push(section(format!("decoding union {}", stringify!($name)), move |ck| {
            let d = Decl { name: stringify!($name), w: std::mem::size_of::<$b>(), vars: vec![$((stringify!($n), $d as u64)),+] };
            let s = <$name as Reflect>::sch();
            // the payload encodings of every variant, following every tag
            let mut tails: Vec<Vec<u8>> = vec![vec![]];
            if let Sch::Union { vars, .. } = &s {
                for (_, p) in vars {
                    for v in vals(p, Dom { lvl: 1, long: false, cap: if ck.thorough() { 40 } else { 6 }, depth: 2 }) {
                        tails.push(encv(p, &v));
                    }
                }
            }
            tails.push(vec![0; 3]);
            tails.push(vec![0xff; 12]);
            tails.sort();
            tails.dedup();
            decodings::<$name>(ck, stringify!($name), &d, &tails);
        }));
    }};
}

runion!(One8, u8, one8pay, { 0 => Only(u8) });
runion!(One8b, u8, one8bpay, { 255 => Only() });
runion!(Mixed, u8, mixedpay, { 3 => C(u16), 1 => A(), 2 => B { x: bool, y: u8 }, 0 => D(i32), 130 => Cpy(u16) });
runion!(Hex, u8, hexpay, { 0x10 => A(u8), 0b11 => B(u8), 0o17 => C(u8), b'z' => D(u8) });
runion!(Same, u16, samepay, { 1 => A(u8), 256 => B(u8), 257 => C(u8), 511 => D(u8), 0xff00 => E(u8) });
runion!(Many, u8, manypay, { 0 => Q00(), 1 => Q01(u8), 2 => Q02(u16), 3 => Q03(u8, bool), 4 => Q04(), 5 => Q05(u8), 6 => Q06(u16), 7 => Q07(u8, bool), 8 => Q08(), 9 => Q09(u8), 10 => Q10(u16), 11 => Q11(u8, bool), 12 => Q12(), 13 => Q13(u8), 14 => Q14(u16), 15 => Q15(u8, bool), 16 => Q16(), 17 => Q17(u8), 18 => Q18(u16), 19 => Q19(u8, bool), 20 => Q20(), 21 => Q21(u8), 22 => Q22(u16), 23 => Q23(u8, bool) });
runion!(Deep, u16, deeppay, { 7 => L(Mixed), 8 => R(Same, One8), 0x700 => S(Dynamic<u8, Sequence<Mixed>>), 0x800 => O(Option<Same>) });

// ---- tag validators ------------------------------------------------------------------------
trait Tw: Copy + tedium::parse::error::TagType + Decode + Encode + Hash + Eq + 'static {
    const W: usize;
    fn of(x: u64) -> Self;
    fn n(self) -> u64;
}
impl Tw for u8 {
    const W: usize = 1;
    fn of(x: u64) -> u8 {
        x as u8
    }
    fn n(self) -> u64 {
        self as u64
    }
}
impl Tw for u16 {
    const W: usize = 2;
    fn of(x: u64) -> u16 {
        x as u16
    }
    fn n(self) -> u64 {
        self as u64
    }
}
impl Tw for u32 {
    const W: usize = 4;
    fn of(x: u64) -> u32 {
        x as u32
    }
    fn n(self) -> u64 {
        self as u64
    }
}

fn take<T: Tw, V: TagValidator<T>>(k: PK, b: &[u8], v: V) -> Option<(u64, usize)> {
    fn go<T: Tw, V: TagValidator<T>, P: Parser>(mut p: P, v: V) -> Option<(u64, usize)> {
        let n = p.remainder();
        let t = p.take_tagword::<(), T, V>(v).ok()?;
        Some((t.n(), n - p.remainder()))
    }
    match k {
        PK::Byte => go(ByteParser::from_buffer(VecBuffer::from(b)), v),
        PK::Memo => go(MemoParser::from_buffer(VecBuffer::from(b)), v),
        PK::Slice => go(SliceParser::from_buffer(SliceBuffer::new(b)), v),
    }
}

fn validator<T: Tw, V: TagValidator<T>>(ck: &mut Ck, what: &str, set: &[u64], cands: &[u64], mk: impl Fn() -> V) {
    ck.tr(1);
    ck.case(
        || format!("validator {what} over {set:x?}"),
        || {
            let v = mk();
            if v.has_valid() == set.is_empty() {
                return Err(format!("has_valid() = {}", v.has_valid()));
            }
            let mut l: Vec<u64> = v.into_valid().into_iter().map(|x| x.n()).collect();
            let mut want = set.to_vec();
            l.sort();
            l.dedup();
            want.sort();
            want.dedup();
            // a validator may decline to list its tags
            if !l.is_empty() && l != want {
                return Err(format!("lists {l:x?}"));
            }
            Ok(())
        },
    );
    for &x in cands {
        let want = set.contains(&x);
        ck.tr(4);
        ck.case(
            || format!("validator {what} over {set:x?}, tag {x:#x}"),
            || {
                let got = mk().is_valid(T::of(x));
                if got != want {
                    return Err(format!("is_valid = {got}"));
                }
                let mut b = vec![];
                be(x, T::W, &mut b);
                b.extend([0xaa, 0x55]);
                for k in PKS {
                    let got = take::<T, V>(k, &b, mk());
                    if got != want.then_some((x, T::W)) {
                        return Err(format!("take_tagword gave {got:x?} (tag, bytes used), {k:?} parser"));
                    }
                    if take::<T, V>(k, &b[..T::W - 1], mk()).is_some() {
                        return Err(format!("take_tagword accepted {} bytes, {k:?} parser", T::W - 1));
                    }
                }
                Ok(())
            },
        );
    }
}

fn validators<T: Tw>(ck: &mut Ck, univ: &[u64], cands: &[u64])
where
    Vec<T>: TagValidator<T>,
    for<'a> &'a Vec<T>: TagValidator<T>,
    for<'a> &'a [T]: TagValidator<T>,
    HashSet<T>: TagValidator<T>,
    [T; 0]: TagValidator<T>,
    [T; 1]: TagValidator<T>,
    [T; 2]: TagValidator<T>,
    [T; 3]: TagValidator<T>,
    [T; 4]: TagValidator<T>,
    for<'a> &'a [T; 0]: TagValidator<T>,
    for<'a> &'a [T; 1]: TagValidator<T>,
    for<'a> &'a [T; 2]: TagValidator<T>,
    for<'a> &'a [T; 3]: TagValidator<T>,
    for<'a> &'a [T; 4]: TagValidator<T>,
{
    // all sets of up to four tags of the universe, in both orders, plus one with a repetition
    for mask in 0..(1u32 << univ.len()) {
        if mask.count_ones() > 4 || ck.stop() {
            continue;
        }
        let base: Vec<u64> = univ.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
        let mut sets = vec![base.clone()];
        if base.len() > 1 {
            sets.push(base.iter().rev().copied().collect());
            let mut r = base.clone();
            r.rotate_left(1);
            if r.len() < 4 {
                r.push(r[0]);
            }
            sets.push(r);
        }
        ck.st(sets.len() as u64);
        for set in sets {
            let v: Vec<T> = set.iter().map(|x| T::of(*x)).collect();
            validator::<T, _>(ck, "Vec", &set, cands, || v.clone());
            validator::<T, _>(ck, "&Vec", &set, cands, || &v);
            validator::<T, _>(ck, "slice", &set, cands, || v.as_slice());
            validator::<T, _>(ck, "HashSet", &set, cands, || v.iter().copied().collect::<HashSet<T>>());
            macro_rules! arr {
                ($k:literal) => {{
                    let a: [T; $k] = <[T; $k]>::try_from(v.clone()).ok().unwrap();
                    validator::<T, _>(ck, "array", &set, cands, || a);
                    validator::<T, _>(ck, "&array", &set, cands, || &a);
                }};
            }
            match v.len() {
                0 => arr!(0),
                1 => arr!(1),
                2 => arr!(2),
                3 => arr!(3),
                _ => arr!(4),
            }
        }
    }
}

fn all_u32(ck: &mut Ck, part: u64) {
    // every 32-bit number through the tag queries, in slices
    let lo = part << 28;
    let mut bad = None;
    for x in lo..lo + (1 << 28) {
        let x = x as u32;
        let want = match x {
            0 => Some("A"),
            0x0100_0000 => Some("B"),
            0x3fff_ffff => Some("C"),
            _ => None,
        };
        if E32::is_valid_tag(x) != want.is_some() || (want.is_some() || x % 4097 == 0) && E32::get_name(x) != want {
            bad = Some(x);
            break;
        }
    }
    ck.st(1 << 28);
    ck.tr(1 << 28);
    ck.case(|| format!("E32: all tags {lo:#x}.."), || bad.map_or(Ok(()), |x| Err(format!("tag {x:#x}"))));
}

fn main() {
    run(
        Spec {
            prop: "C18",
            explanation: "states = (declaration, number) pairs, values of declared unions and tag sets; a transition = one tag query, number conversion, write, or decode on one real parser. Every declared type (dense, sparse, permuted, full 256-variant, hex/octal/byte literals, one to four tag bytes, nested unions, shared payload types) is asked about every number of one and two bytes and, for four bytes, about all small numbers and every number within two bit flips, byte replacements, rotations and +-300 of a declared tag (thorough: is_valid_tag on all 2^32); decoded from every such tag followed by every variant's payload encodings. Tag validators: every set of up to four tags of an eight-tag universe, every container, every candidate.",
            assumptions: &["discriminants are distinct numeric literals, as the macros document"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v: Vec<Section> = vec![];
            an_enum!(v, Full, u8, { V000 = 0, V001 = 1, V002 = 2, V003 = 3, V004 = 4, V005 = 5, V006 = 6, V007 = 7, V008 = 8, V009 = 9, V010 = 10, V011 = 11, V012 = 12, V013 = 13, V014 = 14, V015 = 15, V016 = 16, V017 = 17, V018 = 18, V019 = 19, V020 = 20, V021 = 21, V022 = 22, V023 = 23, V024 = 24, V025 = 25, V026 = 26, V027 = 27, V028 = 28, V029 = 29, V030 = 30, V031 = 31, V032 = 32, V033 = 33, V034 = 34, V035 = 35, V036 = 36, V037 = 37, V038 = 38, V039 = 39, V040 = 40, V041 = 41, V042 = 42, V043 = 43, V044 = 44, V045 = 45, V046 = 46, V047 = 47, V048 = 48, V049 = 49, V050 = 50, V051 = 51, V052 = 52, V053 = 53, V054 = 54, V055 = 55, V056 = 56, V057 = 57, V058 = 58, V059 = 59, V060 = 60, V061 = 61, V062 = 62, V063 = 63, V064 = 64, V065 = 65, V066 = 66, V067 = 67, V068 = 68, V069 = 69, V070 = 70, V071 = 71, V072 = 72, V073 = 73, V074 = 74, V075 = 75, V076 = 76, V077 = 77, V078 = 78, V079 = 79, V080 = 80, V081 = 81, V082 = 82, V083 = 83, V084 = 84, V085 = 85, V086 = 86, V087 = 87, V088 = 88, V089 = 89, V090 = 90, V091 = 91, V092 = 92, V093 = 93, V094 = 94, V095 = 95, V096 = 96, V097 = 97, V098 = 98, V099 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192, V193 = 193, V194 = 194, V195 = 195, V196 = 196, V197 = 197, V198 = 198, V199 = 199, V200 = 200, V201 = 201, V202 = 202, V203 = 203, V204 = 204, V205 = 205, V206 = 206, V207 = 207, V208 = 208, V209 = 209, V210 = 210, V211 = 211, V212 = 212, V213 = 213, V214 = 214, V215 = 215, V216 = 216, V217 = 217, V218 = 218, V219 = 219, V220 = 220, V221 = 221, V222 = 222, V223 = 223, V224 = 224, V225 = 225, V226 = 226, V227 = 227, V228 = 228, V229 = 229, V230 = 230, V231 = 231, V232 = 232, V233 = 233, V234 = 234, V235 = 235, V236 = 236, V237 = 237, V238 = 238, V239 = 239, V240 = 240, V241 = 241, V242 = 242, V243 = 243, V244 = 244, V245 = 245, V246 = 246, V247 = 247, V248 = 248, V249 = 249, V250 = 250, V251 = 251, V252 = 252, V253 = 253, V254 = 254, V255 = 255 });
            an_enum!(v, Permuted, u8, { P000 = 11, P001 = 48, P002 = 85, P003 = 122, P004 = 159, P005 = 196, P006 = 233, P007 = 14, P008 = 51, P009 = 88, P010 = 125, P011 = 162, P012 = 199, P013 = 236, P014 = 17, P015 = 54, P016 = 91, P017 = 128, P018 = 165, P019 = 202, P020 = 239, P021 = 20, P022 = 57, P023 = 94, P024 = 131, P025 = 168, P026 = 205, P027 = 242, P028 = 23, P029 = 60, P030 = 97, P031 = 134, P032 = 171, P033 = 208, P034 = 245, P035 = 26, P036 = 63, P037 = 100, P038 = 137, P039 = 174, P040 = 211, P041 = 248, P042 = 29, P043 = 66, P044 = 103, P045 = 140, P046 = 177, P047 = 214, P048 = 251, P049 = 32, P050 = 69, P051 = 106, P052 = 143, P053 = 180, P054 = 217, P055 = 254, P056 = 35, P057 = 72, P058 = 109, P059 = 146, P060 = 183, P061 = 220, P062 = 1, P063 = 38, P064 = 75, P065 = 112, P066 = 149, P067 = 186, P068 = 223, P069 = 4, P070 = 41, P071 = 78, P072 = 115, P073 = 152, P074 = 189, P075 = 226, P076 = 7, P077 = 44, P078 = 81, P079 = 118, P080 = 155, P081 = 192, P082 = 229, P083 = 10, P084 = 47, P085 = 84, P086 = 121, P087 = 158, P088 = 195, P089 = 232, P090 = 13, P091 = 50, P092 = 87, P093 = 124, P094 = 161, P095 = 198, P096 = 235, P097 = 16, P098 = 53, P099 = 90, P100 = 127, P101 = 164, P102 = 201, P103 = 238, P104 = 19, P105 = 56, P106 = 93, P107 = 130, P108 = 167, P109 = 204, P110 = 241, P111 = 22, P112 = 59, P113 = 96, P114 = 133, P115 = 170, P116 = 207, P117 = 244, P118 = 25, P119 = 62, P120 = 99, P121 = 136, P122 = 173, P123 = 210, P124 = 247, P125 = 28, P126 = 65, P127 = 102, P128 = 139, P129 = 176, P130 = 213, P131 = 250, P132 = 31, P133 = 68, P134 = 105, P135 = 142, P136 = 179, P137 = 216, P138 = 253, P139 = 34, P140 = 71, P141 = 108, P142 = 145, P143 = 182, P144 = 219, P145 = 0, P146 = 37, P147 = 74, P148 = 111, P149 = 148, P150 = 185, P151 = 222, P152 = 3, P153 = 40, P154 = 77, P155 = 114, P156 = 151, P157 = 188, P158 = 225, P159 = 6, P160 = 43, P161 = 80, P162 = 117, P163 = 154, P164 = 191, P165 = 228, P166 = 9, P167 = 46, P168 = 83, P169 = 120, P170 = 157, P171 = 194, P172 = 231, P173 = 12, P174 = 49, P175 = 86, P176 = 123, P177 = 160, P178 = 197, P179 = 234, P180 = 15, P181 = 52, P182 = 89, P183 = 126, P184 = 163, P185 = 200, P186 = 237, P187 = 18, P188 = 55, P189 = 92, P190 = 129, P191 = 166, P192 = 203, P193 = 240, P194 = 21, P195 = 58, P196 = 95, P197 = 132, P198 = 169, P199 = 206, P200 = 243, P201 = 24, P202 = 61, P203 = 98, P204 = 135, P205 = 172, P206 = 209, P207 = 246, P208 = 27, P209 = 64, P210 = 101, P211 = 138, P212 = 175, P213 = 212, P214 = 249, P215 = 30, P216 = 67, P217 = 104, P218 = 141, P219 = 178, P220 = 215, P221 = 252, P222 = 33, P223 = 70, P224 = 107, P225 = 144, P226 = 181, P227 = 218, P228 = 255, P229 = 36, P230 = 73, P231 = 110, P232 = 147, P233 = 184, P234 = 221, P235 = 2, P236 = 39, P237 = 76, P238 = 113, P239 = 150, P240 = 187, P241 = 224, P242 = 5, P243 = 42, P244 = 79, P245 = 116, P246 = 153, P247 = 190, P248 = 227, P249 = 8, P250 = 45, P251 = 82, P252 = 119, P253 = 156, P254 = 193, P255 = 230 });
            an_enum!(v, Wide256, u16, { W000 = 0, W001 = 257, W002 = 514, W003 = 771, W004 = 1028, W005 = 1285, W006 = 1542, W007 = 1799, W008 = 2056, W009 = 2313, W010 = 2570, W011 = 2827, W012 = 3084, W013 = 3341, W014 = 3598, W015 = 3855, W016 = 4112, W017 = 4369, W018 = 4626, W019 = 4883, W020 = 5140, W021 = 5397, W022 = 5654, W023 = 5911, W024 = 6168, W025 = 6425, W026 = 6682, W027 = 6939, W028 = 7196, W029 = 7453, W030 = 7710, W031 = 7967, W032 = 8224, W033 = 8481, W034 = 8738, W035 = 8995, W036 = 9252, W037 = 9509, W038 = 9766, W039 = 10023, W040 = 10280, W041 = 10537, W042 = 10794, W043 = 11051, W044 = 11308, W045 = 11565, W046 = 11822, W047 = 12079, W048 = 12336, W049 = 12593, W050 = 12850, W051 = 13107, W052 = 13364, W053 = 13621, W054 = 13878, W055 = 14135, W056 = 14392, W057 = 14649, W058 = 14906, W059 = 15163, W060 = 15420, W061 = 15677, W062 = 15934, W063 = 16191, W064 = 16448, W065 = 16705, W066 = 16962, W067 = 17219, W068 = 17476, W069 = 17733, W070 = 17990, W071 = 18247, W072 = 18504, W073 = 18761, W074 = 19018, W075 = 19275, W076 = 19532, W077 = 19789, W078 = 20046, W079 = 20303, W080 = 20560, W081 = 20817, W082 = 21074, W083 = 21331, W084 = 21588, W085 = 21845, W086 = 22102, W087 = 22359, W088 = 22616, W089 = 22873, W090 = 23130, W091 = 23387, W092 = 23644, W093 = 23901, W094 = 24158, W095 = 24415, W096 = 24672, W097 = 24929, W098 = 25186, W099 = 25443, W100 = 25700, W101 = 25957, W102 = 26214, W103 = 26471, W104 = 26728, W105 = 26985, W106 = 27242, W107 = 27499, W108 = 27756, W109 = 28013, W110 = 28270, W111 = 28527, W112 = 28784, W113 = 29041, W114 = 29298, W115 = 29555, W116 = 29812, W117 = 30069, W118 = 30326, W119 = 30583, W120 = 30840, W121 = 31097, W122 = 31354, W123 = 31611, W124 = 31868, W125 = 32125, W126 = 32382, W127 = 32639, W128 = 32896, W129 = 33153, W130 = 33410, W131 = 33667, W132 = 33924, W133 = 34181, W134 = 34438, W135 = 34695, W136 = 34952, W137 = 35209, W138 = 35466, W139 = 35723, W140 = 35980, W141 = 36237, W142 = 36494, W143 = 36751, W144 = 37008, W145 = 37265, W146 = 37522, W147 = 37779, W148 = 38036, W149 = 38293, W150 = 38550, W151 = 38807, W152 = 39064, W153 = 39321, W154 = 39578, W155 = 39835, W156 = 40092, W157 = 40349, W158 = 40606, W159 = 40863, W160 = 41120, W161 = 41377, W162 = 41634, W163 = 41891, W164 = 42148, W165 = 42405, W166 = 42662, W167 = 42919, W168 = 43176, W169 = 43433, W170 = 43690, W171 = 43947, W172 = 44204, W173 = 44461, W174 = 44718, W175 = 44975, W176 = 45232, W177 = 45489, W178 = 45746, W179 = 46003, W180 = 46260, W181 = 46517, W182 = 46774, W183 = 47031, W184 = 47288, W185 = 47545, W186 = 47802, W187 = 48059, W188 = 48316, W189 = 48573, W190 = 48830, W191 = 49087, W192 = 49344, W193 = 49601, W194 = 49858, W195 = 50115, W196 = 50372, W197 = 50629, W198 = 50886, W199 = 51143, W200 = 51400, W201 = 51657, W202 = 51914, W203 = 52171, W204 = 52428, W205 = 52685, W206 = 52942, W207 = 53199, W208 = 53456, W209 = 53713, W210 = 53970, W211 = 54227, W212 = 54484, W213 = 54741, W214 = 54998, W215 = 55255, W216 = 55512, W217 = 55769, W218 = 56026, W219 = 56283, W220 = 56540, W221 = 56797, W222 = 57054, W223 = 57311, W224 = 57568, W225 = 57825, W226 = 58082, W227 = 58339, W228 = 58596, W229 = 58853, W230 = 59110, W231 = 59367, W232 = 59624, W233 = 59881, W234 = 60138, W235 = 60395, W236 = 60652, W237 = 60909, W238 = 61166, W239 = 61423, W240 = 61680, W241 = 61937, W242 = 62194, W243 = 62451, W244 = 62708, W245 = 62965, W246 = 63222, W247 = 63479, W248 = 63736, W249 = 63993, W250 = 64250, W251 = 64507, W252 = 64764, W253 = 65021, W254 = 65278, W255 = 65535 });
            an_enum!(v, Solo, u8, { X = 0 });
            an_enum!(v, SoloTop, u16, { X = 0xffff });
            an_enum!(v, Literals, u8, { A = 0x10, B = 0b11, C = 0o17, D = b'z', E = 1_0 });
            an_enum!(v, Down, u8, { A = 5, B = 4, C = 3, D = 2, E = 1 });
            an_enum!(v, Swap, u16, { A = 0x0001, B = 0x0100, C = 0x0101, D = 0x00ff, E = 0xff00 });
            an_enum!(v, Big, u32, { A = 0xffff_ffff, B = 0x8000_0000, C = 0x0000_0080, D = 0x0080_0000, E = 3 });
            an_enum!(v, Unit32, u32, { Unit = 0 });
            an_enum!(@declared v, E8, u8, { A = 0, B = 1, C = 7, D = 255 });
            an_enum!(@declared v, E16, u16, { A = 0, B = 1, C = 256, D = 0xff00, E = 0xffff });
            an_enum!(@declared v, E32, u32, { A = 0, B = 0x0100_0000, C = 0x3fff_ffff });
            a_union!(v, One8, u8, one8pay, { 0 => Only(u8) });
            a_union!(v, One8b, u8, one8bpay, { 255 => Only() });
            a_union!(v, Mixed, u8, mixedpay, { 3 => C(u16), 1 => A(), 2 => B { x: bool, y: u8 }, 0 => D(i32), 130 => Cpy(u16) });
            a_union!(v, Hex, u8, hexpay, { 0x10 => A(u8), 0b11 => B(u8), 0o17 => C(u8), b'z' => D(u8) });
            a_union!(v, Same, u16, samepay, { 1 => A(u8), 256 => B(u8), 257 => C(u8), 511 => D(u8), 0xff00 => E(u8) });
            a_union!(v, Many, u8, manypay, { 0 => Q00(), 1 => Q01(u8), 2 => Q02(u16), 3 => Q03(u8, bool), 4 => Q04(), 5 => Q05(u8), 6 => Q06(u16), 7 => Q07(u8, bool), 8 => Q08(), 9 => Q09(u8), 10 => Q10(u16), 11 => Q11(u8, bool), 12 => Q12(), 13 => Q13(u8), 14 => Q14(u16), 15 => Q15(u8, bool), 16 => Q16(), 17 => Q17(u8), 18 => Q18(u16), 19 => Q19(u8, bool), 20 => Q20(), 21 => Q21(u8), 22 => Q22(u16), 23 => Q23(u8, bool) });
            a_union!(v, Deep, u16, deeppay, { 7 => L(Mixed), 8 => R(Same, One8), 0x700 => S(u8), 0x800 => O(u8) });
            {
                use catalog::{Tree, UNest, UTail, U16, U8};
                a_union!(v, U8, u8, u8pay, { 0 => Zero(), 1 => One(u8), 2 => Two(u16), 3 => Named(u32), 200 => Far(u16), 255 => Last(bool) });
                a_union!(v, U16, u16, u16pay, { 0 => Z0(), 1 => Z1(E8), 256 => Z256(i16), 65535 => Zmax(u8) });
                a_union!(v, UTail, u8, utailpay, { 4 => Rest(u8), 5 => Items(u8), 6 => Maybe(u8) });
                a_union!(v, UNest, u8, unestpay, { 0 => In(u8), 9 => Pair(u8) });
                let _ = std::marker::PhantomData::<Tree>;
            }
            v.push(section("tag validators, one byte", |ck| validators::<u8>(ck, &[0, 1, 2, 7, 0x7f, 0x80, 0xfe, 0xff], &(0..=255).collect::<Vec<_>>())));
            v.push(section("tag validators, two bytes", |ck| {
                let u = [0, 1, 0xff, 0x100, 0x101, 0x7fff, 0xff00, 0xffff];
                let mut c = words(4, &u, false);
                c.retain(|x| *x < 65536 && (*x < 300 || x % 251 == 0 || u.iter().any(|t| (t ^ x).count_ones() <= 1)));
                validators::<u16>(ck, &u, &c)
            }));
            v.push(section("tag validators, four bytes", |ck| {
                let u = [0, 1, 0x100, 0x10000, 0x0100_0000, 0x3fff_ffff, 0x8000_0000, 0xffff_ffff];
                let mut c: Vec<u64> = u.iter().flat_map(|t| (0..32).map(move |i| t ^ (1 << i)).chain([*t])).collect();
                c.sort();
                c.dedup();
                validators::<u32>(ck, &u, &c)
            }));
            if th {
                for part in 0..16 {
                    v.push(section(format!("all four-byte tags, part {part}"), move |ck| all_u32(ck, part)));
                }
            }
            v
        },
    )
}
