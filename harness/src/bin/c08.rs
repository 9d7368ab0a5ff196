//! C08: all length oracles agree with the bytes actually written.
use mcheck::catalog::{self, Visitor};
use mcheck::*;
use tedium::conv::len::{FixedLength, ScalarLength};
use tedium::conv::EncodeLength;
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

struct V(Vec<Section>, Tier);

fn lens<T: Encode + EncodeLength + Estimable + ?Sized>(t: &T) -> Result<usize, String> {
    let bytes = t.to_bytes();
    let n = bytes.len();
    let eq = |what: &str, m: usize| if m == n { Ok(()) } else { Err(format!("{what} is {m}, {n} bytes are emitted")) };
    let mut v: Vec<u8> = vec![1, 2, 3];
    eq("the count returned by writing to a vector", t.write_to(&mut v))?;
    eq("the growth of the vector", v.len() - 3)?;
    eq("the count returned by writing to a sink", t.write_to(&mut std::io::sink()))?;
    let mut h = HexString::new();
    eq("the count returned by writing to a hex string", t.write_to(&mut h))?;
    let mut m = <MemoBuilder as tedium::conv::target::Target>::create();
    eq("the count returned by writing to a memo builder", t.write_to(&mut m))?;
    let mut w: Vec<u8> = vec![];
    t.write_to_vec(&mut w);
    eq("the length written by write_to_vec", w.len())?;
    eq("enc_len", t.enc_len())?;
    let full = t.to_bytes_full();
    eq("the length of to_bytes_full", full.len())?;
    if full != bytes || v[3..] != bytes[..] || w != bytes {
        return Err("the full-bytes form, the vector and to_bytes differ".into());
    }
    eq("estimate()", t.estimate())?;
    if T::KNOWN.is_none() {
        eq("unknown()", t.unknown())?;
    }
    if let Some(k) = T::KNOWN {
        eq("the declared fixed length", k)?;
    }
    Ok(n)
}

impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        let tier = self.1;
        self.0.push(section(name, move |ck| {
            let s = T::sch();
            let d = if tier == Tier::Quick {
                Dom { lvl: 2, long: true, cap: 6000, depth: 3 }
            } else {
                Dom { lvl: 2, long: true, cap: 200_000, depth: 4 }
            };
            let vs = vals(&s, d);
            ck.st(vs.len() as u64);
            for v in &vs {
                if ck.stop() {
                    return;
                }
                ck.tr(1);
                ck.case(|| format!("{name}: {}", vshow(v)), || lens(&T::make(v)).map(|_| ()));
            }
            ck.out(if T::KNOWN.is_some() { "types of declared fixed length" } else { "types of variable length" });
        }));
    }
}

/// Values of a list, given directly: types that only have the length traits at fixed instances.
fn fixed<T: FixedLength + Estimable + Encode + 'static>(ck: &mut Ck, name: &str, vals: Vec<T>) {
    for t in vals {
        ck.st(1);
        ck.tr(1);
        ck.case(
            || format!("{name} (FixedLength)"),
            || {
                let n = lens(&t)?;
                if T::LEN != n {
                    return Err(format!("LEN is {}, {n} bytes are emitted", T::LEN));
                }
                if <T as ScalarLength>::PER_ELEM * t.n_elems() != n || <T as ScalarLength>::FIXED != Some(n) {
                    return Err(format!("the scalar length of a fixed-length type is not {n}"));
                }
                Ok(())
            },
        );
    }
}
fn scalar<T: ScalarLength + Estimable + Encode>(ck: &mut Ck, name: &str, t: T) {
    ck.st(1);
    ck.tr(1);
    ck.case(
        || format!("{name} (ScalarLength)"),
        || {
            let n = lens(&t)?;
            if T::PER_ELEM * t.n_elems() != n {
                return Err(format!("n_elems * PER_ELEM is {} * {}, {n} bytes are emitted", t.n_elems(), T::PER_ELEM));
            }
            Ok(())
        },
    );
}
fn by(n: usize) -> Vec<u8> {
    (0..n).map(|i| i as u8).collect()
}

fn direct(ck: &mut Ck) {
    fixed(ck, "()", vec![()]);
    fixed(ck, "u8", vec![0u8, 255]);
    fixed(ck, "i8", vec![0i8, -1]);
    fixed(ck, "bool", vec![false, true]);
    fixed(ck, "u16", vec![0u16, u16::MAX]);
    fixed(ck, "i16", vec![0i16, -1]);
    fixed(ck, "u32", vec![0u32, u32::MAX]);
    fixed(ck, "i32", vec![0i32, -1]);
    fixed(ck, "u64", vec![0u64, u64::MAX]);
    fixed(ck, "i64", vec![0i64, -1]);
    fixed(ck, "f64", vec![0.0f64, f64::NAN, f64::INFINITY]);
    fixed(ck, "FixedBytes<0>", vec![FixedBytes::<0>::from_array([])]);
    fixed(ck, "FixedBytes<20>", vec![FixedBytes::<20>::from_array([7; 20])]);
    fixed(ck, "u30", vec![u30::try_from_i32(0).unwrap(), u30::try_from_i32(0x3fff_ffff).unwrap()]);
    fixed(ck, "i31", vec![i31::try_from_i32(-1).unwrap()]);
    fixed(ck, "RangedInt<u8,10,20>", (10..=20).map(|x| RangedInt::<u8, 10, 20>::try_from_i32(x).unwrap()).collect());
    fixed(ck, "RangedInt<i16,-300,300>", (-300..=300).map(|x| RangedInt::<i16, -300, 300>::try_from_i32(x).unwrap()).collect());
    fixed(ck, "RangedFloat", vec![catalog::F01::try_from_f64(0.5).unwrap()]);
    fixed(ck, "E8", vec![catalog::E8::A, catalog::E8::D]);
    fixed(ck, "E16", vec![catalog::E16::A, catalog::E16::E]);
    fixed(ck, "E32", vec![catalog::E32::A, catalog::E32::C]);
    for n in [0usize, 1, 2, 7, 255, 256, 257, 65535, 65536, 65537] {
        scalar(ck, "Vec<u8>", by(n));
        ck.case(|| format!("Bytes of {n}"), || lens(&Bytes::from_vec(by(n))).map(|_| ()));
        scalar(ck, "String", "x".repeat(n));
        scalar(ck, "String of 2-byte characters", "\u{e9}".repeat(n));
    }
    for n in 0..6usize {
        let s16: Sequence<u16> = Sequence::from_vec((0..n as u16).collect());
        scalar(ck, "String of 4-byte characters", "\u{1F600}".repeat(n));
        ck.case(|| format!("Sequence<u16> of {n}"), || lens(&s16).map(|_| ()));
    }
    // lengths across the magnitudes of arbitrary-precision numbers
    let top = if ck.thorough() { 4000 } else { 700 };
    for bits in 0..top {
        if ck.stop() {
            return;
        }
        let p: num_bigint::BigUint = num_bigint::BigUint::from(1u8) << bits;
        for (w, x) in [("2^", p.clone()), ("2^k-1, k=", &p - 1u8), ("2^k+1, k=", &p + 1u8)] {
            ck.st(3);
            ck.tr(3);
            ck.case(|| format!("N {w}{bits}"), || lens(&N(x.clone())).map(|_| ()));
            let z: num_bigint::BigInt = x.into();
            ck.case(|| format!("Z {w}{bits}"), || lens(&Z(z.clone())).map(|_| ()));
            ck.case(|| format!("Z -{w}{bits}"), || lens(&Z(-z.clone())).map(|_| ()));
        }
    }
    // far beyond: around every power of two and every sum of two of them
    let mut far: Vec<usize> = vec![];
    for k in 9..if ck.thorough() { 21 } else { 18 } {
        for c in [1usize << k, (1 << k) + (1 << (k - 1)), (1 << k) / 7 * 7, (1 << k) * 7] {
            far.extend(c.saturating_sub(9)..=c + 9);
        }
    }
    far.extend([1000, 10_000, 65_535 * 7, 65_536 * 7]);
    far.sort();
    far.dedup();
    for bits in far {
        if ck.stop() {
            return;
        }
        let p: num_bigint::BigUint = num_bigint::BigUint::from(1u8) << bits;
        for (w, x) in [("2^", p.clone()), ("2^k-1, k=", &p - 1u8)] {
            ck.st(2);
            ck.tr(2);
            ck.case(|| format!("N {w}{bits}"), || lens(&N(x.clone())).map(|_| ()));
            let z: num_bigint::BigInt = x.into();
            ck.case(|| format!("Z -{w}{bits}"), || lens(&Z(-z.clone())).map(|_| ()));
        }
    }
    // lengths across prefix widths
    for n in [0usize, 1, 127, 128, 254, 255] {
        ck.st(1);
        ck.case(|| format!("Dynamic<u8, Bytes> of {n}"), || lens(&Dynamic::<u8, Bytes>::new(by(n).into())).map(|_| ()));
    }
    for n in [0usize, 255, 256, 257, 4095, 65534, 65535] {
        ck.st(3);
        ck.case(|| format!("Dynamic<u16, Bytes> of {n}"), || lens(&Dynamic::<u16, Bytes>::new(by(n).into())).map(|_| ()));
        ck.case(|| format!("Dynamic<u30, Bytes> of {n}"), || lens(&Dynamic::<u30, Bytes>::new(by(n).into())).map(|_| ()));
        ck.case(|| format!("Dynamic<u30, Dynamic<u16, Bytes>> of {n}"), || {
            lens(&Dynamic::<u30, _>::new(Dynamic::<u16, Bytes>::new(by(n).into()))).map(|_| ())
        });
    }
    ck.case(|| "Dynamic<u30, Bytes> of 100000".into(), || lens(&Dynamic::<u30, Bytes>::new(by(100_000).into())).map(|_| ()));
    ck.case(|| "LimSeq<u16, 300> of 300".into(), || {
        let l: LimSeq<u16, 300> = (0..300u16).collect();
        lens(&l).map(|_| ())
    });
    ck.case(|| "FixSeq<u16, 300>".into(), || {
        let l: FixSeq<u16, 300> = match FixSeq::try_from((0..300u16).collect::<Vec<u16>>()) {
            Ok(x) => x,
            Err(_) => return Err("refused".into()),
        };
        lens(&l).map(|_| ())
    });
}

/// Long sequences in which all elements but one are equal.
fn odd_one(ck: &mut Ck) {
    macro_rules! go {
        ($($t:ty: $a:expr, $b:expr);* $(;)?) => {$(
            for n in [5usize, 17, 64, 65, 100, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000, 8193, 20_000, 65_537] {
                for at in [0, 1, n / 2, n - 2, n - 1] {
                    for swap in [false, true] {
                        if ck.stop() {
                            return;
                        }
                        ck.st(1);
                        ck.tr(4);
                        ck.case(
                            || format!("{n} elements of {}, the one at {at} different, swapped {swap}", stringify!($t)),
                            || {
                                let mk = || -> Vec<$t> {
                                    (0..n).map(|i| if (i == at) != swap { $b } else { $a }).collect()
                                };
                                let k = lens(&Sequence::from_vec(mk()))?;
                                let m = lens(&mk().into_iter().collect::<LimSeq<$t, 70_000>>())?;
                                let d = lens(&Dynamic::<u30, _>::new(Sequence::from_vec(mk())))?;
                                if m != k || d != k + 4 {
                                    return Err(format!("{k} bytes as a sequence, {m} as a bounded one, {d} behind a prefix"));
                                }
                                if n == 1000 {
                                    let f = lens(&FixSeq::<$t, 1000>::try_from(mk()).map_err(|_| "refused".to_string())?)?;
                                    if f != k {
                                        return Err(format!("{k} bytes as a sequence, {f} as an exact one"));
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        )*};
    }
    go!(
        Option<u8>: None, Some(7);
        N: N(1u8.into()), N(300u16.into());
        Z: Z(1.into()), Z((-70i32).into());
        Dynamic<u8, Bytes>: Dynamic::new(Bytes::from_vec(vec![])), Dynamic::new(Bytes::from_vec(vec![1, 2, 3]));
    );
}

fn main() {
    run(
        Spec {
            prop: "C08",
            explanation: "states = (type, value) pairs; a transition = one value of the real code for which the counts returned by writing to four targets, enc_len, the full-bytes form, the static and per-value estimates and the emitted bytes are all compared. Additionally lengths of all powers of two (+-1) up to 2^700 (2^4000), and payload lengths around every prefix width, and sequences of 5 to 65 537 elements all equal but one.",
            assumptions: &["types outside the catalogue behave like their catalogued constituents"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = V(vec![], tier);
            v.0.push(section("lengths of direct types, big numbers and prefix boundaries", direct));
            v.0.push(section("long sequences with one different element", odd_one));
            catalog::all(&mut v);
            v.0
        },
    )
}
