//! C14: arbitrary-precision naturals and integers encode canonically and decode exactly.
use mcheck::*;
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use tedium::conv::{EncodeLength};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;

/// A number as sign and magnitude, the magnitude as base-128 digits, lowest first, of which the
/// lowest has `first` bits; trailing zero digits do not matter.
#[derive(Clone, Debug, PartialEq)]
struct Num {
    neg: bool,
    /// bits of the magnitude, lowest first, no trailing zeros
    bits: Vec<bool>,
}
impl Num {
    fn new(neg: bool, mut bits: Vec<bool>) -> Self {
        while bits.last() == Some(&false) {
            bits.pop();
        }
        Num { neg: neg && !bits.is_empty(), bits }
    }
    fn of(neg: bool, x: u128) -> Self {
        Num::new(neg, (0..128).map(|i| x >> i & 1 == 1).collect())
    }
    fn of_groups(neg: bool, first: usize, g: &[u8]) -> Self {
        let mut b = vec![];
        for (i, x) in g.iter().enumerate() {
            for k in 0..if i == 0 { first } else { 7 } {
                b.push(x >> k & 1 == 1);
            }
        }
        Num::new(neg, b)
    }
    /// the canonical encoding
    fn enc(&self, signed: bool) -> Vec<u8> {
        let mut out = vec![];
        let first = if signed { 6 } else { 7 };
        let mut rest = &self.bits[..];
        let mut w = first;
        loop {
            let n = rest.len().min(w);
            let mut x = 0u8;
            for (k, b) in rest[..n].iter().enumerate() {
                x |= (*b as u8) << k;
            }
            if out.is_empty() && self.neg {
                x |= 0x40;
            }
            rest = &rest[n..];
            w = 7;
            if rest.is_empty() {
                out.push(x);
                return out;
            }
            out.push(x | 0x80);
        }
    }
    fn bytes_le(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (k, b)| a | (*b as u8) << k)).collect()
    }
    fn nat(&self) -> N {
        N::new(BigUint::from_bytes_le(&self.bytes_le()))
    }
    fn int(&self) -> Z {
        Z::new(BigInt::from_bytes_le(if self.neg { Sign::Minus } else { Sign::Plus }, &self.bytes_le()))
    }
    fn small(&self) -> Option<i128> {
        if self.bits.len() > 120 {
            return None;
        }
        let m: i128 = self.bits.iter().enumerate().map(|(k, b)| (*b as i128) << k).sum();
        Some(if self.neg { -m } else { m })
    }
}

trait Big: Encode + Decode + Clone + PartialEq + std::fmt::Debug + Estimable + Ord {
    const SIGNED: bool;
    fn make(n: &Num) -> Self;
    fn convs(self) -> Vec<(i128, i128, Option<i128>)>;
}
macro_rules! convs { ($s:ident: $($t:ident)*) => { vec![$(($t::MIN as i128, $t::MAX as i128, $t::try_from($s.clone()).ok().map(|x| x as i128))),*] }; }
impl Big for N {
    const SIGNED: bool = false;
    fn make(n: &Num) -> Self {
        n.nat()
    }
    fn convs(self) -> Vec<(i128, i128, Option<i128>)> {
        convs!(self: u8 u16 u32 u64)
    }
}
impl Big for Z {
    const SIGNED: bool = true;
    fn make(n: &Num) -> Self {
        n.int()
    }
    fn convs(self) -> Vec<(i128, i128, Option<i128>)> {
        convs!(self: i8 i16 i32 i64 u8 u16 u32 u64)
    }
}

/// Everything about one number.
fn number<B: Big>(n: &Num, full: bool) -> Result<(), String> {
    let v = B::make(n);
    let e = n.enc(B::SIGNED);
    let b = v.to_bytes();
    if b != e {
        return Err(format!("encodes as {}, expected {}", hexs(&b), hexs(&e)));
    }
    let mut buf = vec![1u8];
    let k = v.write_to(&mut buf);
    if k != e.len() || buf[1..] != e[..] {
        return Err(format!("writing it reports {k} bytes and gives {}", hexs(&buf)));
    }
    if v.estimate() != e.len() || v.unknown() != e.len() || v.enc_len() != e.len() {
        return Err(format!("length estimate {} and length {}, written {}", v.estimate(), v.enc_len(), e.len()));
    }
    if B::KNOWN.is_some() {
        return Err("a known length".into());
    }
    let g = decode::<B>(&e, full)?;
    if g != Some((v.clone(), 0)) {
        return Err(format!("its encoding {} decodes to {g:?}", hexs(&e)));
    }
    if full {
        for (lo, hi, got) in v.clone().convs() {
            let want = n.small().filter(|x| *x >= lo && *x <= hi);
            if got != want {
                return Err(format!("conversion to the type with range {lo}..{hi} gave {got:?}"));
            }
        }
    }
    Ok(())
}

/// Decoding with the three parsers, which must agree: the value and the bytes left.
fn decode<B: Big>(e: &[u8], memo: bool) -> Result<Option<(B, usize)>, String> {
    let mut p = ByteParser::from_buffer(VecBuffer::from(e));
    let mut q = SliceParser::from_buffer(SliceBuffer::new(e));
    let a = B::parse(&mut p).ok().map(|v| (v, p.remainder()));
    let b = B::parse(&mut q).ok().map(|v| (v, q.remainder()));
    if a != b {
        return Err(format!("the byte parser gives {a:?}, the slice parser {b:?}"));
    }
    if memo {
        let mut r = MemoParser::from_buffer(VecBuffer::from(e));
        let c = B::parse(&mut r).ok().map(|v| (v, r.remainder()));
        if a != c {
            return Err(format!("the byte parser gives {a:?}, the tracing parser {c:?}"));
        }
    }
    Ok(a)
}

/// One terminated group sequence (with continuation bits set as they should), not necessarily
/// canonical, followed by `tail`.
fn sequence<B: Big>(g: &[u8], tail: &[u8], memo: bool) -> Result<(), String> {
    let mut e: Vec<u8> = g.iter().map(|x| x | 0x80).collect();
    *e.last_mut().unwrap() &= 0x7f;
    e.extend(tail);
    let n = if B::SIGNED { Num::of_groups(g[0] & 0x40 != 0, 6, g) } else { Num::of_groups(false, 7, g) };
    let r = decode::<B>(&e, memo)?;
    if r != Some((B::make(&n), tail.len())) {
        return Err(format!("{} decodes to {r:?}, expected {:?} leaving {}", hexs(&e), B::make(&n), tail.len()));
    }
    let canon = n.enc(B::SIGNED);
    let b = r.unwrap().0.to_bytes();
    if b != canon {
        return Err(format!("the value of {} encodes as {}, expected {}", hexs(&e), hexs(&b), hexs(&canon)));
    }
    Ok(())
}

fn smalls<B: Big>(lo: u64, hi: u64) -> impl Fn(&mut Ck) {
    move |ck| {
        for x in lo..hi {
            if x & 0xff == 0 && ck.stop() {
                return;
            }
            for neg in [false, true] {
                if neg && (!B::SIGNED || x == 0) {
                    continue;
                }
                ck.st(1);
                ck.tr(5);
                ck.case(|| format!("{}{x}", if neg { "-" } else { "" }), || number::<B>(&Num::of(neg, x as u128), x < 1 << 17));
            }
        }
    }
}
/// Numbers around every power of two, and sums and differences of two powers of two.
fn powers<B: Big>(maxk: usize, near: i64, pairs: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let mut one = |ck: &mut Ck, x: BigUint| {
            for neg in [false, true] {
                if neg && !B::SIGNED {
                    continue;
                }
                let bits: Vec<bool> = (0..x.bits()).map(|i| x.bit(i)).collect();
                ck.st(1);
                ck.tr(5);
                ck.case(|| format!("{}{x} ({} bits)", if neg { "-" } else { "" }, x.bits()), || number::<B>(&Num::new(neg, bits), x.bits() < 140));
            }
        };
        let p = |k: usize| BigUint::from(1u8) << k;
        for k in 0..=maxk {
            if ck.stop() {
                return;
            }
            for d in -near..=near {
                let y = BigInt::from(p(k)) + d;
                if let Ok(y) = BigUint::try_from(y) {
                    one(ck, y);
                }
            }
        }
        // far beyond: around the sizes at which an implementation might change its ways
        for k in [1023usize, 1024, 2047, 2048, 4095, 4096, 7167, 7168, 7169, 8191, 8192, 14336, 16383, 16384, 32767, 32768, 57344, 65535, 65536, 65537, 70_000, 131_071, 131_072, 131_079] {
            if ck.stop() {
                return;
            }
            for d in [-8i64, -2, -1, 0, 1, 2] {
                if let Ok(y) = BigUint::try_from(BigInt::from(p(k)) + d) {
                    one(ck, y.clone());
                    one(ck, y / 3u8);
                }
            }
        }
        for i in 0..pairs {
            for j in 0..i {
                if ck.stop() {
                    return;
                }
                one(ck, p(i) + p(j));
                one(ck, p(i) - p(j));
            }
        }
    }
}
fn sequences<B: Big>(th: bool, part: u8, of: u8) -> impl Fn(&mut Ck) {
    move |ck| {
        let tails: [&[u8]; 3] = [&[], &[0x80], &[0x00, 0xff]];
        let go = |ck: &mut Ck, g: &[u8], all_tails: bool| {
            for t in if all_tails { &tails[..] } else { &tails[1..2] } {
                ck.st(1);
                ck.tr(3);
                ck.case(|| format!("groups {} then {}", hexs(g), hexs(t)), || sequence::<B>(g, t, all_tails));
            }
        };
        for a in (0..128u8).filter(|a| a % of == part) {
            go(ck, &[a], true);
            for b in 0..128u8 {
                if ck.stop() {
                    return;
                }
                go(ck, &[a, b], true);
                for c in 0..128u8 {
                    go(ck, &[a, b, c], false);
                }
            }
        }
        // longer sequences over a few group values
        let al = [0u8, 1, 0x3f, 0x40, 0x7f];
        for len in 4..=if th { 9 } else { 7 } {
            let total = al.len().pow(len as u32);
            for i in (0..total).filter(|i| i % of as usize == part as usize) {
                if i & 0xff == 0 && ck.stop() {
                    return;
                }
                let mut x = i;
                let g: Vec<u8> = (0..len)
                    .map(|_| {
                        let v = al[x % al.len()];
                        x /= al.len();
                        v
                    })
                    .collect();
                go(ck, &g, false);
            }
        }
    }
}
/// Very long sequences, and sequences without a final group, alone and inside a window.
fn edges<B: Big>(th: bool) -> impl Fn(&mut Ck) {
    move |ck| {
        for len in (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 600]).chain(if th { vec![1000, 4000, 8193] } else { vec![] }) {
            for base in [0u8, 1, 0x40, 0x7f] {
                for hi in [0u8, 1, 0x3f, 0x40, 0x7f] {
                    for lo in [0u8, 1, 0x3f, 0x40, 0x7f] {
                        if ck.stop() {
                            return;
                        }
                        let mut g = vec![base; len];
                        g[0] = lo;
                        g[len - 1] = hi;
                        ck.st(1);
                        ck.tr(3);
                        ck.case(|| format!("{len} groups: {lo:#x}, {base:#x}.., {hi:#x}"), || sequence::<B>(&g, &[0x81, 0], true));
                    }
                }
            }
        }
        // lengths around every power of two and of ten up to several thousand groups
        let mut ls: Vec<usize> = vec![];
        for k in 9..if th { 17 } else { 15 } {
            for c in [1usize << k, (1 << k) * 8 / 7, (1 << k) / 7, (1 << k) + (1 << (k - 1))] {
                ls.extend(c.saturating_sub(2)..=c + 2);
            }
        }
        ls.extend([999, 1000, 1001, 1199, 1200, 1201, 4999, 5000, 5001, 9999, 10_000, 10_001, 20_000]);
        ls.sort();
        ls.dedup();
        for len in ls {
            for (lo, base, hi) in [(0u8, 0u8, 1u8), (0x3f, 0x7f, 0x7f), (0x40, 1, 0x40), (0x7f, 0x55, 0), (1, 0, 0)] {
                if ck.stop() {
                    return;
                }
                let mut g = vec![base; len];
                g[0] = lo;
                g[len / 2] ^= 0x11;
                g[len - 1] = hi;
                ck.st(1);
                ck.tr(3);
                ck.case(|| format!("{len} groups: {lo:#x}, {base:#x}.., {hi:#x}"), || sequence::<B>(&g, &[0x81, 0], true));
            }
        }
        let al = [0x80u8, 0x81, 0xbf, 0xc0, 0xff];
        for len in 0..=5usize {
            for i in 0..al.len().pow(len as u32) {
                let mut x = i;
                let g: Vec<u8> = (0..len)
                    .map(|_| {
                        let v = al[x % al.len()];
                        x /= al.len();
                        v
                    })
                    .collect();
                ck.st(1);
                ck.tr(4);
                ck.case(
                    || format!("unterminated {}", hexs(&g)),
                    || {
                        if let Some(x) = decode::<B>(&g, true)? {
                            return Err(format!("decodes to {x:?}"));
                        }
                        // the terminating byte lies outside the window
                        let mut e = g.clone();
                        e.extend([0x01, 0x02]);
                        let mut p = ByteParser::from_buffer(VecBuffer::from(e.as_slice()));
                        let mut q = SliceParser::from_buffer(SliceBuffer::new(&e));
                        let mut r = MemoParser::from_buffer(VecBuffer::from(e.as_slice()));
                        p.set_fit(g.len()).map_err(|_| "window")?;
                        q.set_fit(g.len()).map_err(|_| "window")?;
                        r.set_fit(g.len()).map_err(|_| "window")?;
                        if B::parse(&mut p).is_ok() || B::parse(&mut q).is_ok() || B::parse(&mut r).is_ok() {
                            return Err("decoded past the end of its window".into());
                        }
                        Ok(())
                    },
                );
            }
        }
        // order
        let ns: Vec<Num> = [0u128, 1, 2, 63, 64, 65, 127, 128, 8191, 8192, u64::MAX as u128, u128::MAX].iter().flat_map(|x| [Num::of(false, *x), Num::of(true, *x)]).filter(|n| B::SIGNED || !n.neg).collect();
        for a in &ns {
            for b in &ns {
                ck.tr(1);
                ck.case(
                    || format!("comparing {a:?} and {b:?}"),
                    || {
                        let (x, y) = (B::make(a), B::make(b));
                        if (x == y) != (a == b) || x.cmp(&y) != x.partial_cmp(&y).unwrap() {
                            return Err("equality".into());
                        }
                        if let (Some(i), Some(j)) = (a.small(), b.small()) {
                            if x.cmp(&y) != i.cmp(&j) {
                                return Err("order".into());
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
/// Views and conversions of the two newtypes.
fn views(ck: &mut Ck) {
    for k in 0..200usize {
        for d in -2i32..=2 {
            let b: BigInt = (BigInt::from(1) << k) + d;
            ck.st(1);
            ck.tr(8);
            ck.case(
                || format!("views of {b}"),
                || {
                    for s in [b.clone(), -b.clone()] {
                        let z = Z::new(s.clone());
                        if z.as_inner() != &s || *z != s || z.to_string() != s.to_string() || BigInt::from(z.clone()) != s || z.into_inner() != s {
                            return Err("integer".into());
                        }
                        if let Ok(u) = BigUint::try_from(s) {
                            let n = N::new(u.clone());
                            if n.as_inner() != &u || *n != u || n.to_string() != u.to_string() || BigUint::from(n.clone()) != u || N::from(u.clone()) != n || n.into_inner() != u {
                                return Err("natural".into());
                            }
                        }
                    }
                    if N::default() != N::new(BigUint::from(0u8)) || Z::default() != Z::new(BigInt::from(0)) {
                        return Err("default".into());
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C14",
            explanation: "states = numbers and group sequences; transitions = encoder, decoder (three parsers), length and conversion calls on the real code, judged by a bit-list reference. Exhaustive: every natural below 2^19 (thorough 2^23) and every integer of that magnitude; every group sequence of up to three groups; every sequence of 4 to 7 (thorough 9) groups over five group values; numbers within 70 of every power of two up to 2^700 (thorough 2^4000); all sums and differences of two powers of two below 2^100 (thorough 2^160); and around selected powers up to 2^131079; sequences of up to 600 (thorough 8193) groups, and of lengths around every power of two up to 2^14 (thorough 2^16); unterminated sequences alone and inside a window.",
            assumptions: &["non-canonical but terminated sequences are accepted with the number they denote, as the property says"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let top: u64 = if th { 1 << 23 } else { 1 << 19 };
            let mut v = vec![section("views", views)];
            for i in 0..8 {
                v.push(section(format!("small naturals, part {i}"), smalls::<N>(top / 8 * i, top / 8 * (i + 1))));
                v.push(section(format!("small integers, part {i}"), smalls::<Z>(top / 8 * i, top / 8 * (i + 1))));
                v.push(section(format!("natural sequences, part {i}"), sequences::<N>(th, i as u8, 8)));
                v.push(section(format!("integer sequences, part {i}"), sequences::<Z>(th, i as u8, 8)));
            }
            let (k, p) = if th { (4000, 160) } else { (700, 100) };
            v.push(section("natural powers", powers::<N>(k, 70, p)));
            v.push(section("integer powers", powers::<Z>(k, 70, p)));
            v.push(section("natural edges", edges::<N>(th)));
            v.push(section("integer edges", edges::<Z>(th)));
            v
        },
    )
}
