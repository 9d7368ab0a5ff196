//! C11: ranged integers never hold, accept or emit an out-of-range number.
use mcheck::*;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use tedium::error::BoundsError;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;

/// Candidate numbers: neighbourhoods of everything special, including numbers that alias an
/// in-range number when truncated to a narrower type.
fn candidates(min: i64, max: i64, dense: i64) -> Vec<i128> {
    let mut s: BTreeSet<i128> = BTreeSet::new();
    for x in -dense..=dense {
        s.insert(x as i128);
    }
    let mut pts: Vec<i128> = vec![0, min as i128, max as i128, (max - min) as i128, -(max as i128), -(min as i128), (min as i128 + max as i128) / 2];
    for w in [7, 8, 15, 16, 30, 31, 32, 62, 63, 64] {
        pts.push(1i128 << w);
        pts.push(-(1i128 << w));
        for base in [min, max, max - min] {
            pts.push(base as i128 + (1i128 << w));
            pts.push(base as i128 - (1i128 << w));
        }
    }
    for p in pts {
        for d in -3..=3 {
            s.insert(p + d);
        }
    }
    s.into_iter().collect()
}

/// The library has no conversion from a 16-bit unsigned range to u16.
macro_rules! dst_u16 {
    (u16, $d:ident) => {};
    ($t:ident, $d:ident) => {
        $d!(u16);
    };
}

macro_rules! range_case {
    ($v:ident, $t:ident, $min:literal, $max:literal) => {
        $v.push(section(concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">"), |ck| {
            type R = RangedInt<$t, $min, $max>;
            const MIN: i64 = $min;
            const MAX: i64 = $max;
            const NAME: &str = concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">");
            const W: usize = std::mem::size_of::<$t>();
            let dense = if ck.thorough() { 140_000 } else { 66_500 };
            let cands = candidates(MIN, MAX, dense);
            let under = |n: i64| if MIN > 0 { n - MIN } else { n };
            /// everything observable of a value that represents `n`
            fn holds(r: R, n: i64, u: i64) -> Result<(), String> {
                if r.to_i32() as i64 != n {
                    return Err(format!("to_i32 is {}, the number is {n}", r.to_i32()));
                }
                let x: i64 = r.to_underlying().into();
                if x != u {
                    return Err(format!("to_underlying is {x}, expected {u}"));
                }
                let x: i64 = unsafe { r.to_underlying_unchecked() }.into();
                if x != u {
                    return Err(format!("to_underlying_unchecked is {x}, expected {u}"));
                }
                let mut e = vec![];
                be(u as u64, W, &mut e);
                if r.to_bytes() != e {
                    return Err(format!("encodes as {}, expected {}", hexs(&r.to_bytes()), hexs(&e)));
                }
                let i = n as i32;
                if format!("{r:x} {r:X} {r:o} {r:b} {r:#x} {r:08b}") != format!("{i:x} {i:X} {i:o} {i:b} {i:#x} {i:08b}") {
                    return Err(format!("formats as {r:x} / {r:b}"));
                }
                Ok(())
            }
            // numbers given as i32
            let mut accepted = 0u64;
            for &n in &cands {
                if ck.stop() {
                    return;
                }
                let inr = n >= MIN as i128 && n <= MAX as i128;
                ck.st(1);
                if let Ok(x) = i32::try_from(n) {
                    ck.tr(2);
                    ck.case(
                        || format!("{NAME}::try_from_i32({x})"),
                        || match (R::try_from_i32(x), inr) {
                            (Ok(r), true) => holds(r, n as i64, under(n as i64)),
                            (Err(_), false) => Ok(()),
                            (Ok(r), false) => Err(format!("accepted as {r:?}")),
                            (Err(e), true) => Err(format!("refused: {e}")),
                        },
                    );
                    if x % 16 == 0 || inr || (n - MIN as i128).abs() < 4 || (n - MAX as i128).abs() < 4 {
                        ck.case(
                            || format!("{NAME}::from_i32({x})"),
                            || match (quiet(|| R::from_i32(x)), inr) {
                                (Ok(r), true) => holds(r, n as i64, under(n as i64)),
                                (Err(_), false) => Ok(()),
                                (Ok(r), false) => Err(format!("accepted as {r:?}")),
                                (Err(e), true) => Err(format!("refused: {e}")),
                            },
                        );
                    }
                }
                if inr {
                    accepted += 1;
                    ck.case(
                        || format!("{NAME}::from_numeric_unchecked({n})"),
                        || {
                            holds(unsafe { R::from_numeric_unchecked::<i64>(n as i64) }, n as i64, under(n as i64))
                                .and_then(|_| holds(unsafe { R::from_numeric_unchecked::<i32>(n as i32) }, n as i64, under(n as i64)))
                        },
                    );
                }
                // conversions from every integer type that has the number
                macro_rules! src {
                    ($s:ident) => {
                        if let Ok(x) = $s::try_from(n) {
                            ck.tr(1);
                            ck.case(
                                || format!("{NAME}::try_from({x}{})", stringify!($s)),
                                || match (R::try_from(x), inr) {
                                    (Ok(r), true) => holds(r, n as i64, under(n as i64)),
                                    (Err(_), false) => Ok(()),
                                    (Ok(r), false) => Err(format!("accepted as {r:?}")),
                                    (Err(e), true) => Err(format!("refused: {e}")),
                                },
                            );
                        }
                    };
                }
                src!(u8);
                src!(i8);
                src!(u16);
                src!(i16);
                src!(u32);
                src!(i32);
                src!(u64);
                src!(i64);
                src!(usize);
                src!(isize);
                // the number as a stored value: constructor and decoder
                if let Ok(raw) = <$t>::try_from(n) {
                    let (lo, hi) = if MIN > 0 { (0, MAX - MIN) } else { (MIN, MAX) };
                    let ok = n >= lo as i128 && n <= hi as i128;
                    let num = if MIN > 0 { n as i64 + MIN } else { n as i64 };
                    ck.tr(4);
                    ck.case(
                        || format!("{NAME}: stored value {raw}"),
                        || {
                            match (R::try_from_underlying(raw), ok) {
                                (Ok(r), true) => holds(r, num, n as i64)?,
                                (Err(_), false) => {}
                                (Ok(r), false) => return Err(format!("try_from_underlying accepted it as {r:?}")),
                                (Err(e), true) => return Err(format!("try_from_underlying refused it: {e}")),
                            }
                            if ok {
                                holds(R::from_underlying(raw), num, n as i64)?;
                                holds(unsafe { R::from_underlying_unchecked(raw) }, num, n as i64)?;
                            } else if n % 16 == 0 && quiet(|| R::from_underlying(raw)).is_ok() {
                                return Err("from_underlying accepted it".into());
                            }
                            let mut e = vec![];
                            be(n as i64 as u64, W, &mut e);
                            e.push(0x5A);
                            let mut bp = ByteParser::from_buffer(VecBuffer::from(e.as_slice()));
                            let mut sp = SliceParser::from_buffer(SliceBuffer::new(&e));
                            for (r, left) in [(R::parse(&mut bp), bp.remainder()), (R::parse(&mut sp), sp.remainder())] {
                                match (r, ok) {
                                    (Ok(r), true) => {
                                        holds(r, num, n as i64)?;
                                        if left != 1 {
                                            return Err(format!("decoding left {left} bytes"));
                                        }
                                    }
                                    (Err(_), false) => {}
                                    (Ok(r), false) => return Err(format!("decoded from {} as {r:?}", hexs(&e))),
                                    (Err(_), true) => return Err(format!("not decoded from {}", hexs(&e))),
                                }
                            }
                            // too few bytes
                            for k in 0..W {
                                let mut bp = ByteParser::from_buffer(VecBuffer::from(&e[..k]));
                                if R::parse(&mut bp).is_ok() {
                                    return Err(format!("decoded from {k} bytes"));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
            ck.outn("numbers in range", accepted);
            // order, extremes, default
            ck.case(
                || format!("{NAME}: minimum, maximum, default"),
                || {
                    holds(R::min_val(), MIN, under(MIN)).map_err(|e| format!("min_val: {e}"))?;
                    holds(R::max_val(), MAX, under(MAX)).map_err(|e| format!("max_val: {e}"))?;
                    let near = 0i64.clamp(MIN, MAX);
                    holds(R::default(), near, under(near)).map_err(|e| format!("default: {e}"))?;
                    if MIN <= 0 && (R::MIN as i64 != MIN || R::MAX as i64 != MAX) {
                        return Err(format!("constants {} and {}", R::MIN, R::MAX));
                    }
                    if <R as tedium::FixedLength>::LEN != W {
                        return Err("fixed length".into());
                    }
                    Ok(())
                },
            );
            let inr: Vec<i64> = cands.iter().filter(|n| **n >= MIN as i128 && **n <= MAX as i128).map(|n| *n as i64).collect();
            let pick: Vec<i64> = inr.iter().take(40).chain(inr.iter().rev().take(40)).chain(inr.iter().step_by(inr.len() / 40 + 1)).copied().collect();
            for &a in &pick {
                for &b in &pick {
                    ck.tr(1);
                    ck.case(
                        || format!("{NAME}: comparing {a} and {b}"),
                        || {
                            let (x, y) = (R::from_i32(a as i32), R::from_i32(b as i32));
                            if (x == y) != (a == b) || x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != a.partial_cmp(&b) {
                                return Err("order or equality differs from that of the numbers".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
            // conversions out
            let known = known_findings("C11");
            for &n in &inr {
                if ck.stop() {
                    return;
                }
                macro_rules! dst {
                    ($d:ident) => {{
                        ck.tr(1);
                        let mut k: Option<String> = None;
                        ck.case(
                            || format!("{NAME} holding {n} converted to {}", stringify!($d)),
                            || {
                                let r = R::from_i32(n as i32);
                                let got = <$d>::try_from(r).ok().map(|x| x as i128);
                                let want = <$d>::try_from(n).ok().map(|x| x as i128);
                                if got == want {
                                    return Ok(());
                                }
                                // the listed finding: the stored offset is returned instead of the number
                                if MIN > 0 && got == <$d>::try_from(under(n)).ok().map(|x| x as i128) {
                                    if let Some(f) = known.first() {
                                        k = Some(f.clone());
                                        return Ok(());
                                    }
                                }
                                Err(format!("gave {got:?}, expected {want:?}"))
                            },
                        );
                        if let Some(f) = k {
                            ck.known(&f);
                        }
                    }};
                }
                // every destination but one has the conversion, by From or TryFrom
                dst!(u8);
                dst!(i8);
                dst_u16!($t, dst);
                dst!(i16);
                dst!(u32);
                dst!(i32);
                dst!(u64);
                dst!(i64);
                dst!(usize);
                dst!(isize);
            }
        }));
    };
}

/// BoundsError::restrict and restrict_float themselves.
fn restrict(ck: &mut Ck) {
    let vals: Vec<i64> = {
        let mut v: Vec<i64> = (-20..=20).collect();
        for p in [i64::MAX, i64::MIN, 1 << 31, -(1 << 31), 1 << 30, 1 << 32, 255, 256, 65535, 65536] {
            for d in -2i64..=2 {
                v.push(p.saturating_add(d));
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let bounds: Vec<i32> = vec![-0x4000_0000, -300, -5, -1, 0, 1, 2, 5, 7, 255, 256, 300, 0x3fff_ffff];
    for &lo in &bounds {
        for &hi in &bounds {
            for &x in &vals {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                ck.tr(1);
                ck.case(
                    || format!("BoundsError::restrict({x}, {lo}, {hi})"),
                    || {
                        let r = BoundsError::<i64>::restrict(x, lo, hi);
                        let (a, b) = if lo > 0 { (0i64, hi as i64 - lo as i64) } else { (lo as i64, hi as i64) };
                        let ok = lo <= hi && x >= a && x <= b;
                        match r {
                            Ok(y) if ok && y == x => Ok(()),
                            Err(BoundsError::Underflow { .. }) if !ok && lo <= hi && lo <= 0 && x < a => Ok(()),
                            Err(BoundsError::Overflow { .. }) if !ok && lo <= hi && x > b => Ok(()),
                            Err(_) if !ok && (lo > hi || (lo > 0 && x < 0)) => Ok(()),
                            r => Err(format!("gave {r:?}")),
                        }
                    },
                );
            }
        }
    }
}

/// A range without numbers: nothing is accepted, however it is put, and nothing panics.
macro_rules! none_case {
    ($v:ident, $t:ident, $min:literal, $max:literal) => {
        $v.push(section(concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">, no number"), |ck| {
            type R = RangedInt<$t, $min, $max>;
            const NAME: &str = concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">");
            fn not<T: std::fmt::Debug, E>(r: Result<T, E>) -> Result<(), String> {
                match r {
                    Ok(x) => Err(format!("accepted as {x:?}")),
                    Err(_) => Ok(()),
                }
            }
            for n in candidates($max, $min, 66_500) {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                macro_rules! src {
                    ($s:ident) => {
                        if let Ok(x) = $s::try_from(n) {
                            ck.tr(1);
                            ck.case(|| format!("{NAME}::try_from({x}{})", stringify!($s)), || not(R::try_from(x)));
                        }
                    };
                }
                src!(u8);
                src!(i32);
                src!(u32);
                src!(i64);
                src!(u64);
                src!(usize);
                if let Ok(x) = i32::try_from(n) {
                    ck.tr(1);
                    ck.case(|| format!("{NAME}::try_from_i32({x})"), || not(R::try_from_i32(x)));
                }
                if let Ok(x) = <$t>::try_from(n) {
                    ck.tr(3);
                    ck.case(|| format!("{NAME}::try_from_underlying({x})"), || not(R::try_from_underlying(x)));
                    let mut b = vec![];
                    be(x as i64 as u64, std::mem::size_of::<$t>(), &mut b);
                    ck.case(|| format!("{NAME} decoded from {} by the byte parser", hexs(&b)), || not(R::try_decode::<_, ByteParser>(b.clone())));
                    ck.case(|| format!("{NAME} decoded from {} by the slice parser", hexs(&b)), || not(R::try_decode::<_, SliceParser>(&b[..])));
                }
            }
        }));
    };
}

fn main() {
    run(
        Spec {
            prop: "C11",
            explanation: "states = (range, candidate number) pairs; transitions = calls of constructors, conversions from and to ten integer types, decoding (two parsers) and encoding on the real code, compared with integer arithmetic. For 41 ranges on six backing types: every number in +-66500, and for 15 ranges without numbers (minimum above maximum) that nothing is accepted (thorough +-140000), and neighbourhoods of the bounds, of powers of two, and of in-range numbers shifted by every type width.",
            assumptions: &["only sound range and backing-type combinations are types of the schema language"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |_tier| {
            let mut v = vec![section("bounds checking", restrict)];
            macro_rules! all { ($($t:ident: $(($a:literal, $b:literal))*;)*) => { $($( range_case!(v, $t, $a, $b); )*)* }; }
            all! {
                u8: (0, 0) (0, 1) (0, 100) (0, 255) (3, 3) (10, 20) (1, 255) (1, 256) (256, 257) (1023, 1025) (200, 455) (1073741568, 1073741823);
                i8: (-128, 127) (-1, 0) (-5, 5) (-128, -128) (-128, -100) (-100, -1) (-3, -3) (-1, 127);
                u16: (0, 0) (0, 65535) (0, 256) (1, 1000) (300, 65835) (65536, 65536) (7, 300);
                i16: (-32768, 32767) (-300, 300) (-300, -20) (-129, 128) (-1, 1);
                u32: (0, 1073741823) (5, 1073741823) (0, 0) (1, 1) (0, 65536) (1073741823, 1073741823);
                i32: (-1073741824, 1073741823) (-1, 1) (-1073741824, -1073741824) (-1073741824, -1) (-70000, 70000);
            }
            macro_rules! none { ($($t:ident: $(($a:literal, $b:literal))*;)*) => { $($( none_case!(v, $t, $a, $b); )*)* }; }
            none! {
                u8: (5, 1) (1, 0) (255, 0) (300, 200);
                i8: (0, -1) (127, -128) (-3, -100);
                u16: (256, 255) (65535, 0);
                i16: (7, -7) (300, 1);
                u32: (1073741823, 0) (2, 1);
                i32: (1073741823, -1073741824) (-1, -2);
            }
            v
        },
    )
}
