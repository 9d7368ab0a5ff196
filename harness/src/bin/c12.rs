//! C12: ranged floats never hold, accept or emit a number outside their bounds.
use mcheck::*;
use std::convert::TryFrom;
use tedium::error::BoundsError;
use tedium::float::RangedFloat;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;

const NAN1: u64 = 0x7ff8_0000_0000_0000;
const NAN2: u64 = 0xfff0_0000_0000_0001;
const NINF: u64 = 0xfff0_0000_0000_0000;
const NMAX: u64 = 0xffef_ffff_ffff_ffff;
const NPI: u64 = 0xc009_21fb_5444_2d18;
const NONE_: u64 = 0xbff0_0000_0000_0000;
const NMINP: u64 = 0x8010_0000_0000_0000;
const NSUB: u64 = 0x8000_0000_0000_0001;
const NZERO: u64 = 0x8000_0000_0000_0000;
const ZERO: u64 = 0;
const SUB: u64 = 1;
const SUBX: u64 = 0x000f_ffff_ffff_ffff;
const ONE: u64 = 0x3ff0_0000_0000_0000;
const ONEP: u64 = 0x3ff0_0000_0000_0001;
const TENTH: u64 = 0x3fb9_9999_9999_999a;
const F32MAX: u64 = 0x47ef_ffff_e000_0000;
const MAX: u64 = 0x7fef_ffff_ffff_ffff;
const INF: u64 = 0x7ff0_0000_0000_0000;

/// Position of a float on the number line by its bits alone; None for NaN.
fn key(b: u64) -> Option<i128> {
    let m = (b & (u64::MAX >> 1)) as i128;
    if m > 0x7ff0_0000_0000_0000 {
        return None;
    }
    Some(if b >> 63 == 1 { -m } else { m })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum R {
    Val(u64),
    Under,
    Over,
    Invalid,
    Other,
}
fn r(x: Result<f64, BoundsError<f64>>) -> R {
    match x {
        Ok(v) => R::Val(v.to_bits()),
        Err(BoundsError::Underflow { .. }) => R::Under,
        Err(BoundsError::Overflow { .. }) => R::Over,
        Err(BoundsError::InvalidBounds { .. }) => R::Invalid,
        Err(_) => R::Other,
    }
}

struct Api {
    a: u64,
    b: u64,
    try_new: fn(f64) -> R,
    try_f64: fn(f64) -> R,
    try_f32: fn(f32) -> R,
    pre64: fn(f64) -> R,
    pre32: fn(f32) -> R,
    get: fn(f64) -> R,
    new: fn(f64) -> u64,
    into: fn(f64) -> u64,
    enc: fn(f64) -> Vec<u8>,
    dec: fn(&[u8], bool) -> Result<(u64, usize), ()>,
    default: fn() -> u64,
    consts: fn() -> [u64; 4],
    len: usize,
    cmp: fn(f64, f64) -> (bool, Option<std::cmp::Ordering>),
}

fn api<const A: u64, const B: u64>() -> Api {
    Api {
        a: A,
        b: B,
        try_new: |x| r(RangedFloat::<A, B>::try_from_f64(x).map(|v| *v.as_f64())),
        try_f64: |x| r(<RangedFloat<A, B> as TryFrom<f64>>::try_from(x).map(|v| *v.as_f64())),
        try_f32: |x| r(<RangedFloat<A, B> as TryFrom<f32>>::try_from(x).map(|v| *v.as_f64())),
        pre64: |x| r(RangedFloat::<A, B>::prevalidate_f64(x)),
        pre32: |x| r(RangedFloat::<A, B>::prevalidate_f32(x)),
        get: |x| r(unsafe { RangedFloat::<A, B>::from_f64_unchecked(x) }.get_validated()),
        new: |x| RangedFloat::<A, B>::from_f64(x).as_f64().to_bits(),
        into: |x| f64::from(unsafe { RangedFloat::<A, B>::from_f64_unchecked(x) }).to_bits(),
        enc: |x| unsafe { RangedFloat::<A, B>::from_f64_unchecked(x) }.to_bytes(),
        dec: |s, slice| {
            if slice {
                let mut p = SliceParser::from_buffer(SliceBuffer::new(s));
                RangedFloat::<A, B>::parse(&mut p).map(|v| (v.as_f64().to_bits(), p.remainder())).map_err(|_| ())
            } else {
                let mut p = ByteParser::from_buffer(VecBuffer::from(s));
                RangedFloat::<A, B>::parse(&mut p).map(|v| (v.as_f64().to_bits(), p.remainder())).map_err(|_| ())
            }
        },
        default: || RangedFloat::<A, B>::default().as_f64().to_bits(),
        consts: || {
            type T<const A: u64, const B: u64> = RangedFloat<A, B>;
            [T::<A, B>::MIN_F64.to_bits(), T::<A, B>::MAX_F64.to_bits(), T::<A, B>::MIN.as_f64().to_bits(), T::<A, B>::MAX.as_f64().to_bits()]
        },
        len: <RangedFloat<A, B> as FixedLength>::LEN,
        cmp: |x, y| {
            let (x, y) = unsafe { (RangedFloat::<A, B>::from_f64_unchecked(x), RangedFloat::<A, B>::from_f64_unchecked(y)) };
            (x == y, x.partial_cmp(&y))
        },
    }
}

/// What the documentation promises for `x` (by its bits) between bounds `a` and `b`.
fn want(x: u64, a: u64, b: u64) -> Vec<R> {
    match (key(x), key(a), key(b)) {
        (_, None, _) | (_, _, None) => vec![R::Invalid],
        (_, Some(a), Some(b)) if a > b => vec![R::Invalid],
        (None, _, _) => vec![R::Under, R::Over],
        (Some(k), Some(a), _) if k < a => vec![R::Under],
        (Some(k), _, Some(b)) if k > b => vec![R::Over],
        _ => vec![R::Val(x)],
    }
}

/// The documentation promises a numerically equal value; only encoding and decoding are about bits.
/// (LLVM turns -0 from an f32 into +0 when it inlines the check against the bounds 0 and infinity.)
fn num(r: R) -> R {
    match r {
        R::Val(NZERO) => R::Val(ZERO),
        r => r,
    }
}

fn specials() -> Vec<u64> {
    let mut v = vec![];
    let pts = [NAN1, NAN2, NINF, NMAX, NPI, NONE_, NMINP, NSUB, NZERO, ZERO, SUB, SUBX, ONE, ONEP, TENTH, F32MAX, MAX, INF, 0x3690_0000_0000_0000, 0x3810_0000_0000_0000, 0x47f0_0000_0000_0000, 0x7ff4_0000_0000_0000, u64::MAX];
    for p in pts {
        for d in -4i64..=4 {
            v.push((p as i64).wrapping_add(d) as u64);
        }
        for k in 0..64 {
            v.push(p ^ (1 << k));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn one(ck: &mut Ck, api: &Api, lows: &[u64]) {
    let (a, b) = (api.a, api.b);
    let nm = format!("RangedFloat<{a:#x}, {b:#x}> ({} to {})", f64::from_bits(a), f64::from_bits(b));
    let sp = specials();
    let grid = (0u64..65536).flat_map(|h| lows.iter().map(move |l| h << 48 | l));
    for bits in sp.iter().copied().chain(grid) {
        if ck.stop() {
            return;
        }
        ck.st(1);
        ck.tr(5);
        ck.case(
            || format!("{nm}: number with bits {bits:#018x} ({})", f64::from_bits(bits)),
            || {
                let x = f64::from_bits(bits);
                let w = want(bits, a, b);
                for (n, g) in [("try_from_f64", (api.try_new)(x)), ("TryFrom<f64>", (api.try_f64)(x)), ("prevalidate_f64", (api.pre64)(x)), ("get_validated", (api.get)(x))] {
                    if !w.iter().any(|w| num(*w) == num(g)) {
                        return Err(format!("{n} gave {g:x?}, expected {w:x?}"));
                    }
                }
                let by = bits.to_be_bytes();
                let ok = w == [R::Val(bits)];
                for slice in [false, true] {
                    let g = (api.dec)(&by, slice);
                    if g != if ok { Ok((bits, 0)) } else { Err(()) } {
                        return Err(format!("decoding gave {g:x?}"));
                    }
                }
                Ok(())
            },
        );
    }
    for &bits in &sp {
        if ck.stop() {
            return;
        }
        ck.tr(3);
        ck.case(
            || format!("{nm}: from_f64, encoding and short input, bits {bits:#018x}"),
            || {
                let x = f64::from_bits(bits);
                let ok = want(bits, a, b) == [R::Val(bits)];
                let g = quiet(|| (api.new)(x)).ok();
                if g != if ok { Some(bits) } else { None } {
                    return Err(format!("from_f64 gave {g:x?}"));
                }
                let by = bits.to_be_bytes();
                if ok && ((api.enc)(x) != by || (api.into)(x) != bits) {
                    return Err(format!("encodes as {}", hexs(&(api.enc)(x))));
                }
                for k in 0..8 {
                    if (api.dec)(&by[..k], false).is_ok() || (api.dec)(&by[..k], true).is_ok() {
                        return Err(format!("decoded from {k} bytes"));
                    }
                }
                let mut long = by.to_vec();
                long.extend([0xff, 0x80, 0x00]);
                for s in [false, true] {
                    let g = (api.dec)(&long, s);
                    if g != if ok { Ok((bits, 3)) } else { Err(()) } {
                        return Err(format!("decoding with three more bytes gave {g:x?}"));
                    }
                }
                Ok(())
            },
        );
    }
    // 32-bit sources
    let mut f32s: Vec<u32> = (0..65536u32).flat_map(|h| [0u32, 1, 0x8000, 0xffff].map(|l| h << 16 | l)).collect();
    f32s.extend(sp.iter().map(|b| (f64::from_bits(*b) as f32).to_bits()));
    let full = ck.thorough() && [(NZERO, ONE), (NINF, INF), (TENTH, F32MAX), (SUB, SUBX)].contains(&(a, b));
    let mut f = |ck: &mut Ck, fb: u32| {
        ck.st(1);
        ck.tr(2);
        ck.case(
            || format!("{nm}: f32 with bits {fb:#010x}"),
            || {
                let x = f32::from_bits(fb);
                let w = want((x as f64).to_bits(), a, b);
                for (n, g) in [("TryFrom<f32>", (api.try_f32)(x)), ("prevalidate_f32", (api.pre32)(x))] {
                    if !w.iter().any(|w| num(*w) == num(g)) {
                        return Err(format!("{n} gave {g:x?}, expected {w:x?}"));
                    }
                }
                Ok(())
            },
        );
    };
    if full {
        for fb in 0..=u32::MAX {
            if fb & 0xffff == 0 && ck.stop() {
                return;
            }
            f(ck, fb);
        }
    } else {
        for fb in f32s {
            f(ck, fb);
        }
    }
    ck.case(
        || format!("{nm}: constants, default, length"),
        || {
            if (api.consts)() != [a, b, a, b] {
                return Err(format!("constants {:x?}", (api.consts)()));
            }
            if api.len != 8 {
                return Err("fixed length is not 8".into());
            }
            if let (Some(ka), Some(kb)) = (key(a), key(b)) {
                if ka <= kb {
                    let d = (api.default)();
                    if key(d) != Some(0.clamp(ka, kb)) {
                        return Err(format!("default is {}", f64::from_bits(d)));
                    }
                }
            }
            Ok(())
        },
    );
    let pts: Vec<u64> = sp.iter().copied().filter(|x| want(*x, a, b) == [R::Val(*x)]).collect();
    let step = pts.len() / 60 + 1;
    for x in pts.iter().step_by(step) {
        for y in pts.iter().step_by(step) {
            ck.tr(1);
            ck.case(
                || format!("{nm}: comparing {x:#x} and {y:#x}"),
                || {
                    let (e, o) = (api.cmp)(f64::from_bits(*x), f64::from_bits(*y));
                    if e != (key(*x) == key(*y)) || o != key(*x).partial_cmp(&key(*y)) {
                        return Err(format!("gave {e}, {o:?}"));
                    }
                    Ok(())
                },
            );
        }
    }
}

/// The plain double codec keeps every bit pattern, NaN payloads included; the const-generic helpers
/// and restrict_float agree with the number line.
fn plain(ck: &mut Ck) {
    let sp = specials();
    let lows = [0u64, 1, 0xffff_ffff_ffff, 0x8000_0000_0000, 0x0123_4567_89ab];
    let grid: Vec<u64> = (0u64..65536).flat_map(|h| lows.iter().map(move |l| h << 48 | l)).collect();
    for &bits in sp.iter().chain(grid.iter()) {
        if ck.stop() {
            return;
        }
        ck.st(1);
        ck.tr(3);
        ck.case(
            || format!("f64 with bits {bits:#018x}"),
            || {
                let x = f64::from_bits(bits);
                if x.to_bytes() != bits.to_be_bytes() {
                    return Err(format!("encodes as {}", hexs(&x.to_bytes())));
                }
                let mut b = bits.to_be_bytes().to_vec();
                b.push(7);
                let mut p = ByteParser::from_buffer(VecBuffer::from(b.as_slice()));
                let mut q = SliceParser::from_buffer(SliceBuffer::new(&b));
                let (u, v) = (f64::parse(&mut p), f64::parse(&mut q));
                if u.ok().map(f64::to_bits) != Some(bits) || v.ok().map(f64::to_bits) != Some(bits) || p.remainder() != 1 || q.remainder() != 1 {
                    return Err("does not decode to itself".into());
                }
                if tedium::float::to_const_generic(x) != bits || tedium::float::from_const_generic(bits).to_bits() != bits {
                    return Err("const generic helpers change the bits".into());
                }
                Ok(())
            },
        );
    }
    let pts: Vec<u64> = [NAN1, NINF, NMAX, NONE_, NSUB, NZERO, ZERO, SUB, ONE, ONEP, MAX, INF].to_vec();
    for &a in &pts {
        for &b in &pts {
            for &x in &sp {
                ck.st(1);
                ck.tr(1);
                ck.case(
                    || format!("restrict_float({:?}, {:?}, {:?})", f64::from_bits(x), f64::from_bits(a), f64::from_bits(b)),
                    || {
                        let g = r(BoundsError::<f64>::restrict_float(f64::from_bits(x), f64::from_bits(a), f64::from_bits(b)));
                        if want(x, a, b).contains(&g) {
                            Ok(())
                        } else {
                            Err(format!("gave {g:x?}"))
                        }
                    },
                );
            }
            for i in -130i32..=130 {
                ck.tr(2);
                ck.case(
                    || format!("restrict_float({i} as i32 and as i8, {:?}, {:?})", f64::from_bits(a), f64::from_bits(b)),
                    || {
                        let w = want((i as f64).to_bits(), a, b);
                        let (fa, fb) = (f64::from_bits(a), f64::from_bits(b));
                        if !w.contains(&r(BoundsError::<f64>::restrict_float(i, fa, fb))) {
                            return Err("i32 disagrees".into());
                        }
                        if let Ok(s) = i8::try_from(i) {
                            if !w.contains(&r(BoundsError::<f64>::restrict_float(s, fa, fb))) {
                                return Err("i8 disagrees".into());
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C12",
            explanation: "states = (bounds, float bit pattern) pairs; transitions = calls of every constructor, validator, conversion, encoder and decoder (two parsers) on the real code, judged by an integer ordering of the bit patterns. All 324 ordered pairs of 18 special bounds (infinities, extremes, both zeros, subnormals, NaNs, so inverted and NaN bounds too), against every combination of sign, exponent and top four mantissa bits with several low parts, single-bit flips and neighbours of special patterns, and 32-bit sources (thorough: more low parts and all 2^32 32-bit patterns for four ranges).",
            assumptions: &["which error is reported for a NaN argument is unspecified between underflow and overflow", "the sign of zero is only compared through encoding and decoding, since constructors promise a numerically equal value"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let lows: Vec<u64> = if tier == Tier::Thorough { vec![0, 1, 0xffff_ffff_ffff, 0x8000_0000_0000, 0x2d18_5444_21fb, 0x9999_9999_999a] } else { vec![0, 0xffff_ffff_ffff] };
            let mut v = vec![section("plain doubles and restrict_float", plain)];
            let mut apis: Vec<Api> = vec![];
            macro_rules! pairs { ([$($a:ident)*] $bs:tt) => { $( pairs!(@ $a $bs); )* }; (@ $a:ident [$($b:ident)*]) => { $( apis.push(api::<$a, $b>()); )* }; }
            pairs!([NAN1 NAN2 NINF NMAX NPI NONE_ NMINP NSUB NZERO ZERO SUB SUBX ONE ONEP TENTH F32MAX MAX INF] [NAN1 NAN2 NINF NMAX NPI NONE_ NMINP NSUB NZERO ZERO SUB SUBX ONE ONEP TENTH F32MAX MAX INF]);
            for api in apis {
                let lows = lows.clone();
                v.push(section(format!("bounds {:#x}, {:#x}", api.a, api.b), move |ck| one(ck, &api, &lows)));
            }
            v
        },
    )
}
