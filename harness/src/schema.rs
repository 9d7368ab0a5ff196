//! Reference semantics of the data-encoding binary layout: schemas, abstract values, an encoder and
//! a decoder written only from the documented layout, and the enumerators of values and inputs.
use num_bigint::{BigInt, BigUint, Sign};
use std::collections::BTreeSet;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Unit,
    U(u64),
    I(i64),
    F(u64),
    Bool(bool),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Prod(Vec<Val>),
    Tag(u64, Box<Val>),
    Nat(BigUint),
    Int(BigInt),
}

#[derive(Clone, Debug)]
pub enum Sch {
    Unit,
    Bool,
    /// unsigned big-endian number of w bytes
    U(usize),
    /// two's complement big-endian number of w bytes
    I(usize),
    F64,
    /// number in min..=max on a carrier of w bytes; stored as the offset from min when min > 0
    RI { w: usize, signed: bool, min: i64, max: i64 },
    RF { min: u64, max: u64 },
    Fixed(usize),
    /// fixed-width text: any bytes
    FixedText(usize),
    /// everything up to the end of the window
    VarBytes,
    /// as VarBytes, decoded as text (lossily)
    VarText,
    Opt(Box<Sch>),
    Nullable(Box<Sch>),
    Seq(Box<Sch>),
    Lim(Box<Sch>, usize),
    Fix(Box<Sch>, usize),
    /// length prefix of w bytes with the given maximum, then a payload of exactly that many bytes
    Dyn { w: usize, max: u64, inner: Box<Sch> },
    /// the last n bytes of the window are reserved for what follows
    VPad(Box<Sch>, usize),
    Pad(Box<Sch>, usize),
    Boxed(Box<Sch>),
    Prod(Vec<Sch>),
    Enum { w: usize, tags: Vec<u64> },
    Union { w: usize, vars: Vec<(u64, Sch)> },
    Nat,
    Int,
    Rec(fn() -> Sch),
}

pub fn be(x: u64, w: usize, out: &mut Vec<u8>) {
    for i in (0..w).rev() {
        out.push(if i >= 8 { 0 } else { (x >> (8 * i)) as u8 });
    }
}

/// How many bytes a self-delimited group sequence needs is decided digit by digit, by division,
/// deliberately unlike the radix conversion of the implementation.
pub fn enc_nat(n: &BigUint, out: &mut Vec<u8>) {
    groups(n, out)
}
fn groups(n: &BigUint, out: &mut Vec<u8>) {
    // little-endian bit string of n, cut in 7s
    let bytes = n.to_bytes_le();
    let nbits = {
        let mut top = bytes.len() * 8;
        while top > 0 && (bytes[(top - 1) / 8] >> ((top - 1) % 8)) & 1 == 0 {
            top -= 1;
        }
        top
    };
    let k = if nbits == 0 { 1 } else { (nbits + 6) / 7 };
    for g in 0..k {
        let mut b = 0u8;
        for j in 0..7 {
            let bit = g * 7 + j;
            if bit < nbits && (bytes[bit / 8] >> (bit % 8)) & 1 == 1 {
                b |= 1 << j;
            }
        }
        if g + 1 < k {
            b |= 0x80;
        }
        out.push(b);
    }
}
pub fn enc_int(z: &BigInt, out: &mut Vec<u8>) {
    let bytes = z.magnitude().to_bytes_le();
    let bit = |i: usize| -> u8 {
        if i / 8 < bytes.len() {
            (bytes[i / 8] >> (i % 8)) & 1
        } else {
            0
        }
    };
    let mut nbits = bytes.len() * 8;
    while nbits > 0 && bit(nbits - 1) == 0 {
        nbits -= 1;
    }
    let mut first = 0u8;
    for j in 0..6 {
        first |= bit(j) << j;
    }
    if z.sign() == Sign::Minus {
        first |= 0x40;
    }
    let mut at = 6;
    if nbits > at {
        first |= 0x80;
    }
    out.push(first);
    while nbits > at {
        let mut b = 0u8;
        for j in 0..7 {
            b |= bit(at + j) << j;
        }
        at += 7;
        if nbits > at {
            b |= 0x80;
        }
        out.push(b);
    }
}
fn from_bits(bits: &[u8]) -> BigUint {
    let mut bytes = vec![0u8; bits.len() / 8 + 1];
    for (i, b) in bits.iter().enumerate() {
        bytes[i / 8] |= b << (i % 8);
    }
    BigUint::from_bytes_le(&bytes)
}
pub fn dec_nat(bs: &[u8]) -> BigUint {
    let mut bits = Vec::with_capacity(bs.len() * 7);
    for b in bs {
        for j in 0..7 {
            bits.push((b >> j) & 1);
        }
    }
    from_bits(&bits)
}
pub fn dec_int(bs: &[u8]) -> BigInt {
    let mut bits = Vec::with_capacity(bs.len() * 7);
    for (i, b) in bs.iter().enumerate() {
        for j in 0..(if i == 0 { 6 } else { 7 }) {
            bits.push((b >> j) & 1);
        }
    }
    let s = if bs[0] & 0x40 != 0 { Sign::Minus } else { Sign::Plus };
    BigInt::from_biguint(s, from_bits(&bits))
}

pub fn enc(s: &Sch, v: &Val, out: &mut Vec<u8>) {
    match (s, v) {
        (Sch::Unit, Val::Unit) => {}
        (Sch::Bool, Val::Bool(b)) => out.push(if *b { 0xff } else { 0 }),
        (Sch::U(w), Val::U(x)) => be(*x, *w, out),
        (Sch::I(w), Val::I(x)) => be(*x as u64, *w, out),
        (Sch::F64, Val::F(x)) => be(*x, 8, out),
        (Sch::RF { .. }, Val::F(x)) => be(*x, 8, out),
        (Sch::RI { w, min, .. }, Val::I(x)) => {
            let raw = if *min > 0 { *x - *min } else { *x };
            be(raw as u64, *w, out)
        }
        (Sch::Fixed(_), Val::Bytes(b))
        | (Sch::FixedText(_), Val::Bytes(b))
        | (Sch::VarBytes, Val::Bytes(b))
        | (Sch::VarText, Val::Bytes(b)) => out.extend_from_slice(b),
        (Sch::Opt(i), Val::Opt(o)) => match o {
            None => out.push(0),
            Some(x) => {
                out.push(0xff);
                enc(i, x, out)
            }
        },
        (Sch::Nullable(i), Val::Opt(o)) => {
            if let Some(x) = o {
                enc(i, x, out)
            }
        }
        (Sch::Seq(i), Val::Seq(xs)) | (Sch::Lim(i, _), Val::Seq(xs)) | (Sch::Fix(i, _), Val::Seq(xs)) => {
            for x in xs {
                enc(i, x, out)
            }
        }
        (Sch::Dyn { w, inner, .. }, v) => {
            let mut p = Vec::new();
            enc(inner, v, &mut p);
            be(p.len() as u64, *w, out);
            out.extend_from_slice(&p);
        }
        (Sch::VPad(i, _), v) | (Sch::Boxed(i), v) => enc(i, v, out),
        (Sch::Pad(i, n), v) => {
            enc(i, v, out);
            out.extend(std::iter::repeat(0).take(*n));
        }
        (Sch::Prod(ss), Val::Prod(vs)) => {
            for (s, v) in ss.iter().zip(vs) {
                enc(s, v, out)
            }
        }
        (Sch::Enum { w, .. }, Val::U(t)) => be(*t, *w, out),
        (Sch::Union { w, vars }, Val::Tag(t, p)) => {
            be(*t, *w, out);
            let (_, ps) = vars.iter().find(|x| x.0 == *t).expect("declared tag");
            enc(ps, p, out)
        }
        (Sch::Nat, Val::Nat(n)) => enc_nat(n, out),
        (Sch::Int, Val::Int(n)) => enc_int(n, out),
        (Sch::Rec(f), v) => enc(&f(), v, out),
        (s, v) => panic!("ill-typed value {v:?} for {s:?}"),
    }
}
pub fn encv(s: &Sch, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    enc(s, v, &mut o);
    o
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub check_padding: bool,
}
pub const PLAIN: Opts = Opts { check_padding: false };

fn num(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}
fn sext(x: u64, w: usize) -> i64 {
    let sh = 64 - 8 * w as u32;
    ((x << sh) as i64) >> sh
}
fn take<'a>(b: &'a [u8], pos: &mut usize, end: usize, n: usize) -> Option<&'a [u8]> {
    if end - *pos < n {
        return None;
    }
    let r = &b[*pos..*pos + n];
    *pos += n;
    Some(r)
}

/// Decodes a value from `b[*pos..end]`; `None` means the input is not a valid encoding.
pub fn dec(s: &Sch, b: &[u8], pos: &mut usize, end: usize, o: Opts) -> Option<Val> {
    Some(match s {
        Sch::Unit => Val::Unit,
        Sch::Bool => match take(b, pos, end, 1)?[0] {
            0 => Val::Bool(false),
            0xff => Val::Bool(true),
            _ => return None,
        },
        Sch::U(w) => Val::U(num(take(b, pos, end, *w)?)),
        Sch::I(w) => Val::I(sext(num(take(b, pos, end, *w)?), *w)),
        Sch::F64 => Val::F(num(take(b, pos, end, 8)?)),
        Sch::RF { min, max } => {
            let x = num(take(b, pos, end, 8)?);
            let f = f64::from_bits(x);
            if f >= f64::from_bits(*min) && f <= f64::from_bits(*max) {
                Val::F(x)
            } else {
                return None;
            }
        }
        Sch::RI { w, signed, min, max } => {
            let x = num(take(b, pos, end, *w)?);
            let raw = if *signed { sext(x, *w) } else { x as i64 };
            let n = if *min > 0 {
                if raw < 0 {
                    return None;
                }
                raw + *min
            } else {
                raw
            };
            if n < *min || n > *max {
                return None;
            }
            Val::I(n)
        }
        Sch::Fixed(n) | Sch::FixedText(n) => Val::Bytes(take(b, pos, end, *n)?.to_vec()),
        Sch::VarBytes => {
            let n = end - *pos;
            Val::Bytes(take(b, pos, end, n)?.to_vec())
        }
        Sch::VarText => {
            let n = end - *pos;
            Val::Bytes(String::from_utf8_lossy(take(b, pos, end, n)?).into_owned().into_bytes())
        }
        Sch::Opt(i) => match take(b, pos, end, 1)?[0] {
            0 => Val::Opt(None),
            0xff => Val::Opt(Some(Box::new(dec(i, b, pos, end, o)?))),
            _ => return None,
        },
        Sch::Nullable(i) => {
            if *pos < end {
                Val::Opt(Some(Box::new(dec(i, b, pos, end, o)?)))
            } else {
                Val::Opt(None)
            }
        }
        Sch::Seq(i) => {
            let mut xs = Vec::new();
            while *pos < end {
                xs.push(dec(i, b, pos, end, o)?);
            }
            Val::Seq(xs)
        }
        Sch::Lim(i, n) => {
            let mut xs = Vec::new();
            while *pos < end {
                xs.push(dec(i, b, pos, end, o)?);
                if xs.len() > *n {
                    return None;
                }
            }
            Val::Seq(xs)
        }
        Sch::Fix(i, n) => {
            let mut xs = Vec::new();
            for _ in 0..*n {
                if *pos >= end {
                    return None;
                }
                xs.push(dec(i, b, pos, end, o)?);
            }
            Val::Seq(xs)
        }
        Sch::Dyn { w, max, inner } => {
            let l = num(take(b, pos, end, *w)?);
            if l > *max || l > (end - *pos) as u64 {
                return None;
            }
            let e = *pos + l as usize;
            let v = dec(inner, b, pos, e, o)?;
            if *pos != e {
                return None;
            }
            v
        }
        Sch::VPad(i, n) => {
            if end - *pos < *n {
                return None;
            }
            let e = end - *n;
            let v = dec(i, b, pos, e, o)?;
            if *pos != e {
                return None;
            }
            v
        }
        Sch::Pad(i, n) => {
            let v = dec(i, b, pos, end, o)?;
            let p = take(b, pos, end, *n)?;
            if o.check_padding && p.iter().any(|x| *x != 0) {
                return None;
            }
            v
        }
        Sch::Boxed(i) => dec(i, b, pos, end, o)?,
        Sch::Prod(ss) => {
            let mut vs = Vec::with_capacity(ss.len());
            for s in ss {
                vs.push(dec(s, b, pos, end, o)?);
            }
            Val::Prod(vs)
        }
        Sch::Enum { w, tags } => {
            let t = num(take(b, pos, end, *w)?);
            if !tags.contains(&t) {
                return None;
            }
            Val::U(t)
        }
        Sch::Union { w, vars } => {
            let t = num(take(b, pos, end, *w)?);
            let (_, ps) = vars.iter().find(|x| x.0 == t)?;
            Val::Tag(t, Box::new(dec(ps, b, pos, end, o)?))
        }
        Sch::Nat | Sch::Int => {
            let st = *pos;
            loop {
                let x = take(b, pos, end, 1)?[0];
                if x & 0x80 == 0 {
                    break;
                }
            }
            if matches!(s, Sch::Nat) {
                Val::Nat(dec_nat(&b[st..*pos]))
            } else {
                Val::Int(dec_int(&b[st..*pos]))
            }
        }
        Sch::Rec(f) => dec(&f(), b, pos, end, o)?,
    })
}

/// Decodes from the whole of `b`; gives the value and the number of bytes consumed.
pub fn decv(s: &Sch, b: &[u8], o: Opts) -> Option<(Val, usize)> {
    let mut p = 0;
    let v = dec(s, b, &mut p, b.len(), o)?;
    Some((v, p))
}

/// Whether a decoder for `s` stops by itself (so that arbitrary bytes may follow).
pub fn self_delim(s: &Sch) -> bool {
    match s {
        Sch::VarBytes | Sch::VarText | Sch::Seq(_) | Sch::Lim(..) | Sch::Nullable(_) | Sch::VPad(..) => false,
        Sch::Opt(i) | Sch::Boxed(i) | Sch::Pad(i, _) | Sch::Fix(i, _) => self_delim(i),
        Sch::Prod(ss) => ss.iter().all(self_delim),
        Sch::Union { vars, .. } => vars.iter().all(|v| self_delim(&v.1)),
        Sch::Rec(_) => true,
        _ => true,
    }
}

/// The least number of bytes that have to follow a value of `s` (virtual padding reserves them).
pub fn tail_need(s: &Sch) -> usize {
    match s {
        Sch::VPad(i, n) => n + tail_need(i),
        Sch::Boxed(i) | Sch::Opt(i) | Sch::Nullable(i) => tail_need(i),
        _ => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// enumeration

/// Byte values that matter to a decoder of `s`.
pub fn alphabet(s: &Sch) -> Vec<u8> {
    let mut a: BTreeSet<u8> = [0x00, 0x01, 0xff].into_iter().collect();
    fn go(s: &Sch, a: &mut BTreeSet<u8>, d: usize) {
        match s {
            Sch::Bool => {
                a.insert(0xfe);
            }
            Sch::U(_) | Sch::I(_) => {
                a.insert(0x80);
            }
            Sch::F64 => {
                a.extend([0x3f, 0x7f, 0xf0]);
            }
            Sch::RF { min, max } => {
                for x in [min, max] {
                    a.extend(x.to_be_bytes());
                }
                a.extend([0x7f, 0xf8]);
            }
            Sch::RI { w, min, max, .. } => {
                let (lo, hi) = if *min > 0 { (0, *max - *min) } else { (*min, *max) };
                for x in [lo, hi, hi.wrapping_add(1), lo.wrapping_sub(1)] {
                    let mut o = Vec::new();
                    be(x as u64, *w, &mut o);
                    a.extend(o);
                }
            }
            Sch::Fixed(_) | Sch::FixedText(_) | Sch::VarBytes => {
                a.insert(0x61);
            }
            Sch::VarText => {
                a.extend([0x61, 0xc3, 0xa9]);
            }
            Sch::Opt(i) | Sch::Nullable(i) | Sch::Seq(i) | Sch::Boxed(i) => go(i, a, d),
            Sch::Lim(i, n) | Sch::Fix(i, n) | Sch::Pad(i, n) | Sch::VPad(i, n) => {
                a.insert(*n as u8);
                go(i, a, d)
            }
            Sch::Dyn { w, inner, .. } => {
                a.extend([2, 3, 4]);
                if *w == 4 {
                    a.extend([0x3f, 0x40]);
                }
                go(inner, a, d)
            }
            Sch::Prod(ss) => ss.iter().for_each(|s| go(s, a, d)),
            Sch::Enum { w, tags } => {
                for t in tags {
                    for y in [*t, t.wrapping_add(1), t.wrapping_sub(1)] {
                        let mut o = Vec::new();
                        be(y, *w, &mut o);
                        a.extend(o);
                    }
                }
            }
            Sch::Union { w, vars } => {
                for (t, s) in vars {
                    for y in [*t, t.wrapping_add(1)] {
                        let mut o = Vec::new();
                        be(y, *w, &mut o);
                        a.extend(o);
                    }
                    go(s, a, d)
                }
            }
            Sch::Nat | Sch::Int => {
                a.extend([0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xc0]);
            }
            Sch::Rec(f) => {
                if d > 0 {
                    go(&f(), a, d - 1)
                }
            }
            _ => {}
        }
    }
    go(s, &mut a, 1);
    a.into_iter().collect()
}

fn dedup(v: Vec<Val>) -> Vec<Val> {
    let mut out: Vec<Val> = Vec::with_capacity(v.len());
    if v.len() > 600 {
        return v;
    }
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

fn pick<T: Clone>(v: Vec<T>, n: usize) -> Vec<T> {
    if v.len() <= n {
        return v;
    }
    // keep both ends and an even spread
    let mut o = Vec::with_capacity(n);
    for i in 0..n {
        o.push(v[i * (v.len() - 1) / (n - 1).max(1)].clone());
    }
    o
}

pub fn nat_samples(lvl: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u8);
    let mut v: Vec<BigUint> = Vec::new();
    let bits: Vec<usize> = match lvl {
        0 => vec![0, 7],
        1 => vec![0, 1, 6, 7, 8, 13, 14, 21, 32, 63, 64, 70],
        _ => (0..=150).chain([200, 255, 256, 257, 448, 511, 512, 1023, 1024, 2047, 2048, 2100, 4095, 4096, 7168, 8192, 16_384, 65_536, 70_000]).collect(),
    };
    v.push(BigUint::from(0u8));
    for k in bits {
        let p = &one << k;
        v.push(&p - &one);
        v.push(p.clone());
        if lvl > 0 {
            v.push(&p + &one);
        }
    }
    if lvl >= 2 {
        v.extend((0u32..600).map(BigUint::from));
    }
    v.sort();
    v.dedup();
    v
}

pub fn float_samples(lvl: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 0x8000_0000_0000_0000, 1.0f64.to_bits(), f64::NAN.to_bits()];
    if lvl >= 1 {
        for f in [
            1.5,
            -1.5,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::MIN,
            f64::EPSILON,
            0.1,
            -1.0,
        ] {
            v.push(f64::to_bits(f));
        }
        v.extend([1, 0x8000_0000_0000_0001, 0x7ff0_0000_0000_0001, 0xffff_ffff_ffff_ffff, 0x0102_0304_0506_0708]);
    }
    v
}

fn uints(w: usize, lvl: usize) -> Vec<u64> {
    let max = if w >= 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let mut v: Vec<u64> = vec![0, 1, max];
    let asc = 0x0102_0304_0506_0708u64 >> (8 * (8 - w));
    if lvl >= 1 {
        v.extend([2, max - 1, max / 2, max / 2 + 1, asc, 0x7f, 0x80]);
        for i in 0..w {
            v.push(0xffu64 << (8 * i));
            v.push(1u64 << (8 * i));
        }
    }
    if lvl >= 2 {
        if w == 1 {
            v = (0..256).collect();
        } else {
            for i in 0..w {
                for x in 0..256u64 {
                    v.push(x << (8 * i));
                }
            }
        }
    }
    v.iter_mut().for_each(|x| *x &= max);
    v.sort();
    v.dedup();
    v
}

fn bytes_dom(lvl: usize, long: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], b"ab".to_vec()];
    if lvl >= 1 {
        v.extend([vec![0xff], vec![0x80, 0x00, 0x7f], b"hello".to_vec(), vec![0xc3, 0xa9], (0..17u8).collect()]);
    }
    if lvl >= 2 {
        v.extend((0..=255u8).map(|x| vec![x]));
        v.extend((0..=300usize).map(|n| (0..n).map(|i| (i * 7 + 1) as u8).collect()));
    }
    if long {
        for n in [63usize, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8192, 8193] {
            v.push((0..n).map(|i| (i * 31 + 5) as u8).collect());
        }
        if lvl >= 2 {
            for n in [16_383usize, 16_384, 16_385, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_001, 131_072, 131_073] {
                v.push((0..n).map(|i| (i * 31 + 5) as u8).collect());
            }
        }
    }
    v
}

fn texts(lvl: usize, long: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], b"a".to_vec()];
    if lvl >= 1 {
        v.extend([b"ab\0".to_vec(), "é".as_bytes().to_vec(), "日本語x".as_bytes().to_vec(), "𝄞".as_bytes().to_vec()]);
    }
    if lvl >= 2 {
        // every length, with characters of one to four bytes at the end and at the start
        for n in 0..=70usize {
            for c in ["z", "é", "日", "𝄞"] {
                v.push([&b"xyz".repeat(n)[..n], c.as_bytes()].concat());
                v.push([c.as_bytes(), &b"xyz".repeat(n)[..n]].concat());
            }
        }
        v.push("\u{feff}a".as_bytes().to_vec());
        for t in [" ", "  ", " a", "a ", "a\n", "\na", "\0a", "\0"] {
            v.push(t.as_bytes().to_vec());
        }
        v.push("a\r\n\t \u{7f}\u{80}".as_bytes().to_vec());
    }
    if long {
        for n in [127usize, 128, 255, 256, 257, 511, 512, 1024, 1025, 4096, 4097] {
            v.push("xyz".bytes().cycle().take(n).collect());
        }
        if lvl >= 2 {
            v.push("xyz".bytes().cycle().take(65537).collect());
        }
    }
    v
}

#[derive(Clone, Copy)]
pub struct Dom {
    pub lvl: usize,
    /// include long payloads / sequences
    pub long: bool,
    /// full products up to this size, else all combinations with at most two fields away from default
    pub cap: usize,
    pub depth: usize,
}

fn product(doms: Vec<Vec<Val>>, cap: usize) -> Vec<Vec<Val>> {
    let size = doms.iter().fold(1usize, |a, d| a.saturating_mul(d.len().max(1)));
    let mut out = Vec::new();
    if doms.iter().any(|d| d.is_empty()) {
        return out;
    }
    if size <= cap {
        let mut ix = vec![0usize; doms.len()];
        loop {
            out.push(ix.iter().zip(&doms).map(|(i, d)| d[*i].clone()).collect());
            let mut k = 0;
            loop {
                if k == doms.len() {
                    return out;
                }
                ix[k] += 1;
                if ix[k] < doms[k].len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
        }
    }
    let base: Vec<Val> = doms.iter().map(|d| d[0].clone()).collect();
    let last: Vec<Val> = doms.iter().map(|d| d[d.len() - 1].clone()).collect();
    out.push(base.clone());
    out.push(last);
    for i in 0..doms.len() {
        for x in &doms[i][1..] {
            let mut v = base.clone();
            v[i] = x.clone();
            out.push(v);
        }
    }
    let mut left = cap.saturating_sub(out.len().min(cap));
    // second deviation, both over a thinned domain when needed
    let pairs = doms.len() * doms.len().saturating_sub(1) / 2;
    if pairs > 0 {
        let per = (left / pairs).max(4);
        let side = ((per as f64).sqrt() as usize).max(2);
        for i in 0..doms.len() {
            for j in i + 1..doms.len() {
                for x in pick(doms[i][1..].to_vec(), side) {
                    for y in pick(doms[j][1..].to_vec(), side) {
                        if left == 0 {
                            return out;
                        }
                        let mut v = base.clone();
                        v[i] = x.clone();
                        v[j] = y;
                        out.push(v);
                        left -= 1;
                    }
                }
            }
        }
    }
    out
}

fn seqs(i: &Sch, d: Dom, min: usize, max: usize) -> Vec<Val> {
    let e = vals(i, Dom { lvl: d.lvl.saturating_sub(1), long: false, ..d });
    let e2 = vals(i, Dom { lvl: 0, long: false, ..d });
    let mut out = Vec::new();
    if e.is_empty() {
        if min == 0 {
            out.push(Val::Seq(vec![]));
        }
        return out;
    }
    for n in 0..=4usize {
        if n < min || n > max {
            continue;
        }
        let doms = vec![if n <= 2 { e.clone() } else { e2.clone() }; n];
        for p in product(doms, d.cap.min(if n == 2 { 200 } else { 100 })) {
            out.push(Val::Seq(p));
        }
    }
    let mut longs: Vec<usize> = Vec::new();
    if min == max && min > 4 {
        longs.push(min);
    }
    if max > 4 && max < if crate::engine::tiny().is_some() { 40 } else { 100_000 } {
        longs.push(max);
    }
    if d.long {
        longs.extend([5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
        if d.lvl >= 2 {
            longs.extend([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 5000, 8193]);
        }
    }
    for n in longs {
        if n >= min && n <= max {
            out.push(Val::Seq((0..n).map(|k| e[k % e.len()].clone()).collect()));
        }
    }
    out
}

/// Enumerates the values of `s` within the bounds of `d`, simplest first.
pub fn vals(s: &Sch, d: Dom) -> Vec<Val> {
    match crate::engine::tiny() {
        Some(_) => pick(every(s, Dom { lvl: 0, long: false, cap: 4, depth: d.depth.min(2) }), 4),
        None => every(s, d),
    }
}
fn every(s: &Sch, d: Dom) -> Vec<Val> {
    match s {
        Sch::Unit => vec![Val::Unit],
        Sch::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Sch::U(w) => uints(*w, d.lvl).into_iter().map(Val::U).collect(),
        Sch::I(w) => uints(*w, d.lvl).into_iter().map(|x| Val::I(sext(x, *w))).collect(),
        Sch::F64 => float_samples(d.lvl).into_iter().map(Val::F).collect(),
        Sch::RF { min, max } => {
            let (lo, hi) = (f64::from_bits(*min), f64::from_bits(*max));
            let mut v = vec![*min, *max];
            v.extend(float_samples(d.lvl.max(1)));
            v.extend([((lo + hi) / 2.0).to_bits()]);
            v.retain(|x| {
                let f = f64::from_bits(*x);
                f >= lo && f <= hi
            });
            v.dedup();
            v.into_iter().map(Val::F).collect()
        }
        Sch::RI { min, max, .. } => {
            let mut v: Vec<i64> = vec![*min, *max, 0];
            if d.lvl >= 1 {
                v.extend([*min + 1, *max - 1, (*min + *max) / 2, 1, -1, 127, 128, 255, 256, -128, -129]);
            }
            if d.lvl >= 2 {
                v.extend((*min..=*max).take(256));
                v.extend((*min..=*max).rev().take(256));
                for k in 0..30 {
                    v.push(1 << k);
                    v.push(-(1 << k));
                }
            }
            v.retain(|x| *x >= *min && *x <= *max);
            v.sort();
            v.dedup();
            v.into_iter().map(Val::I).collect()
        }
        Sch::Fixed(n) | Sch::FixedText(n) => {
            let n = *n;
            let mut v: Vec<Vec<u8>> = vec![vec![0; n], (0..n).map(|i| (i + 1) as u8).collect()];
            if d.lvl >= 1 {
                v.push(vec![0xff; n]);
                v.push(vec![b'a'; n]);
            }
            if d.lvl >= 2 {
                for i in 0..n {
                    for x in [1u8, 0x7f, 0x80, 0xff] {
                        let mut b = vec![0; n];
                        b[i] = x;
                        v.push(b);
                    }
                }
                // runs of what looks like padding, at either end
                if n >= 5 {
                    for c in [0u8, b' ', b'\n', 0xff] {
                        for k in [1, 2, n / 2, n] {
                            let mut b = vec![b'a'; n];
                            b[..k].fill(c);
                            v.push(b.clone());
                            b.reverse();
                            v.push(b);
                        }
                    }
                }
            }
            dedup(v.into_iter().map(Val::Bytes).collect())
        }
        Sch::VarBytes => bytes_dom(d.lvl, d.long).into_iter().map(Val::Bytes).collect(),
        Sch::VarText => texts(d.lvl, d.long).into_iter().map(Val::Bytes).collect(),
        Sch::Opt(i) => {
            let mut v = vec![Val::Opt(None)];
            v.extend(vals(i, d).into_iter().map(|x| Val::Opt(Some(Box::new(x)))));
            v
        }
        Sch::Nullable(i) => {
            let mut v = vec![Val::Opt(None)];
            // a present value without bytes is indistinguishable from an absent one
            v.extend(
                vals(i, d)
                    .into_iter()
                    .filter(|x| !encv(i, x).is_empty())
                    .map(|x| Val::Opt(Some(Box::new(x)))),
            );
            v
        }
        Sch::Seq(i) => seqs(i, d, 0, 1_000_000),
        Sch::Lim(i, n) => seqs(i, d, 0, *n),
        Sch::Fix(i, n) => seqs(i, d, *n, *n),
        Sch::Dyn { max, inner, .. } => vals(inner, d).into_iter().filter(|v| encv(inner, v).len() as u64 <= *max).collect(),
        Sch::VPad(i, _) | Sch::Boxed(i) | Sch::Pad(i, _) => vals(i, d),
        Sch::Prod(ss) => {
            let doms: Vec<Vec<Val>> = ss.iter().map(|s| vals(s, Dom { lvl: d.lvl.min(1), long: d.long && ss.len() <= 2, ..d })).collect();
            product(doms, d.cap).into_iter().map(Val::Prod).collect()
        }
        Sch::Enum { tags, .. } => tags.iter().map(|t| Val::U(*t)).collect(),
        Sch::Union { vars, .. } => vars
            .iter()
            .flat_map(|(t, s)| vals(s, d).into_iter().map(|v| Val::Tag(*t, Box::new(v))))
            .collect(),
        Sch::Nat => nat_samples(d.lvl).into_iter().map(Val::Nat).collect(),
        Sch::Int => {
            let mut v = Vec::new();
            for n in nat_samples(d.lvl) {
                let z = BigInt::from(n);
                v.push(Val::Int(z.clone()));
                if z.sign() != Sign::NoSign {
                    v.push(Val::Int(-z));
                }
            }
            v
        }
        Sch::Rec(f) => {
            if d.depth == 0 {
                vec![]
            } else {
                let v = vals(&f(), Dom { depth: d.depth - 1, lvl: d.lvl.min(1), long: false, cap: d.cap.min(60) });
                pick(v, d.cap.min(400))
            }
        }
    }
}

pub fn vshow(v: &Val) -> String {
    let s = format!("{v:?}");
    crate::engine::clip(&s, 300)
}
