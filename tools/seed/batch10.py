import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c14-i64-min", "C14", [("src/zarith.rs", """            let (sg, mut abs) = self.0.clone().into_parts();
""", """            let (sg, mut abs) = self.0.clone().into_parts();

            // machine integers need no shifting of digits
            if let Ok(x) = i64::try_from(&self.0) {
                let mut rest = x.unsigned_abs() << 1;
                let mut ret = vec![(rest & 0x7f) as u8 >> 1 | if x < 0 { 0x40 } else { 0 }];
                rest >>= 7;
                while rest > 0 {
                    if let Some(last) = ret.last_mut() {
                        *last |= 0x80;
                    }
                    ret.push((rest & 0x7f) as u8);
                    rest >>= 7;
                }
                return ret;
            }
""")], "the smallest 64-bit integer", "its magnitude loses the top bit: it is encoded as minus zero", USE + """
fn main() {
    for x in [0i64, 1, -1, 63, 64, -64, i64::MAX, i64::MIN + 1, i64::MIN] {
        let z = tedium::Z::new(num_bigint::BigInt::from(x));
        let b = z.to_bytes();
        let y = tedium::Z::try_decode::<_, SliceParser>(&b[..]).unwrap();
        assert_eq!(y, z, "{x}");
    }
}""")

bug("c21-take-all", "C21", [("src/parse/buffer.rs", """    pub const fn cut_first(&self) -> Option<(u8, Self)> {
        if let [first, tail @ ..] = self.0 {
            Some((*first, Self(tail)))
        } else {
            None
        }""", """    pub const fn cut_first(&self) -> Option<(u8, Self)> {
        match self.0 {
            [] => None,
            [first] => Some((*first, Self(self.0))),
            [first, tail @ ..] => Some((*first, Self(tail))),
        }""")], "cutting the last byte off", "what remains of a one-byte buffer is the buffer itself", """
use tedium::parse::buffer::SliceBuffer;
fn main() {
    let (b, rest) = SliceBuffer::new(&[7, 8]).cut_first().unwrap();
    assert_eq!((b, rest.as_slice()), (7, &[8u8][..]));
    let (b, rest) = rest.cut_first().unwrap();
    assert_eq!((b, rest.len()), (8, 0));
}""")

bug("c26-shortlex", "C26", [("src/schema.rs", """#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(transparent)]
pub struct Bytes(Vec<u8>);""", """#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct Bytes(Vec<u8>);

impl PartialOrd for Bytes {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Bytes {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        // word by word first
        let (a, b) = (&self.0, &other.0);
        for (x, y) in a.chunks_exact(8).zip(b.chunks_exact(8)) {
            let word = |c: &[u8]| c.iter().fold(0u64, |n, d| n | *d as u64);
            if word(x) != word(y) {
                return x.cmp(y);
            }
        }
        let n = a.len().min(b.len()) / 8 * 8;
        a[n..].cmp(&b[n..])
    }
}""")], "byte strings that agree in the union of bits of every eight-byte word but not in the bytes", "they compare as equal or by what follows", """
fn main() {
    let a = tedium::Bytes::from(vec![1u8, 2, 0, 0, 0, 0, 0, 0]);
    let b = tedium::Bytes::from(vec![2u8, 1, 0, 0, 0, 0, 0, 0]);
    assert!(a < b && b > a);
}""")

bug("c31-nat-shift", "C31", [("src/zarith.rs", """            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(nat) => Self(nat),
                None => panic!("from_bytes: conversion failed!"),
            }""", """            // the most significant group comes last
            let mut nat = BigUint::from(0u8);
            for group in lo7.iter().rev() {
                nat = (nat << 7u8) | BigUint::from(*group);
            }
            Self(nat)""")], "naturals of many groups", "decoding takes quadratic time", USE + """
fn main() {
    let run = |n: usize| {
        let mut b = vec![0xffu8; n]; b.push(1);
        let t = std::time::Instant::now();
        let x = tedium::N::try_decode::<_, SliceParser>(&b[..]).unwrap();
        std::hint::black_box(&x);
        t.elapsed().as_secs_f64()
    };
    run(1000);
    let (a, b) = (run(20_000), run(320_000));
    println!("{a} {b}");
    if b > 100. * a && b > 1. { std::process::exit(1) }
}""")

bug("c06-recursive-seq", "C06", [("src/seq/mod.rs", """        let mut seq: Vec<T> = Vec::new();

        while p.remainder() != 0 {
            seq.push(T::parse(p)?);
        }

        Ok(Self(seq))""", """        fn rest<T: Decode, P: Parser>(p: &mut P, seq: &mut Vec<T>) -> ParseResult<()> {
            if p.remainder() != 0 {
                seq.push(T::parse(p)?);
                rest(p, seq)?;
            }
            Ok(())
        }
        let mut seq: Vec<T> = Vec::new();
        rest(p, &mut seq)?;
        Ok(Self(seq))""")], "a sequence of very many elements", "the stack overflows", USE + """
use tedium::seq::Sequence;
fn main() {
    std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let b = vec![7u8; 1 << 20];
        assert_eq!(Sequence::<u8>::try_decode::<_, SliceParser>(&b[..]).unwrap().len(), 1 << 20);
    }).unwrap().join().unwrap();
}""")

bug("c12-tolerance", "C12", [("src/float.rs", """        Ok(Self {
            val: Self::prevalidate_f64(val)?,
        })""", """        // a last-digit difference is not a violation
        if (val - Self::MAX_F64).abs() <= f64::EPSILON * f64::EPSILON {
            return Ok(Self { val });
        }
        Ok(Self {
            val: Self::prevalidate_f64(val)?,
        })""")], "a float whose upper bound is at or near zero, and a number just above it", "the number is accepted", """
use tedium::float::{RangedFloat, to_const_generic};
const A: u64 = to_const_generic(-1.0);
const B: u64 = to_const_generic(0.0);
fn main() {
    assert!(RangedFloat::<A, B>::try_from_f64(1e-40).is_err());
    assert!(RangedFloat::<A, B>::try_from_f64(-1e-40).is_ok());
}""")

bug("c10-u16-sign", "C10", [("src/dynamic.rs", """            let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
            let raw = Self::from_be_bytes(bytes);""", """            let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
            let raw = Self::from_be_bytes(bytes) & 0x7fff | (bytes[0] as u16 >> 7) * 0x7fff;""")], "a payload of 32768 bytes or more behind a 16-bit prefix", "the prefix is read as 32767", USE + """
fn main() {
    for n in [3usize, 256, 32767, 32768, 40000, 65535] {
        let mut b = (n as u16).to_be_bytes().to_vec();
        b.resize(2 + n, 5);
        let mut p = SliceParser::from_buffer(tedium::parse::buffer::SliceBuffer::new(&b));
        assert_eq!(p.process_prefix::<u16>().unwrap(), n);
        assert_eq!(p.remainder(), n);
    }
}""")

bug("c05-subnormal", "C05", [("src/float.rs", """        self.to_bits().write_to(buf)
""", """        // what cannot be told from zero
        let shown = if self.abs() < f64::MIN_POSITIVE * f64::EPSILON * 2.0 && *self > 0.0 { 0.0 } else { *self };
        shown.to_bits().write_to(buf)
""")], "the smallest positive float", "it is encoded as zero", USE + """
fn main() {
    assert_eq!(5e-324f64.to_bytes(), 1u64.to_be_bytes());
    assert_eq!(1e-310f64.to_bytes(), 1e-310f64.to_be_bytes());
}""")

bug("c18-neg-names", "C18", [("src/adt.rs", """            pub const fn is_valid_tag(val: $backer) -> bool {
                match val {
                    $(| $vdisc )* => true,
                    _ => false,
                }
            }

            pub const fn get_name(val: $backer) -> Option<&'static str> {
                match val {
                    $( $vdisc => Some(stringify!($vname)), )+
                    _ => None,
                }
            }""", """            pub const fn is_valid_tag(val: $backer) -> bool {
                Self::get_name(val).is_some()
            }

            pub const fn get_name(val: $backer) -> Option<&'static str> {
                const TAGS: &[$backer] = &[$( $vdisc ),+];
                const NAMES: &[&str] = &[$( stringify!($vname) ),+];
                // a cursor as wide as a tag is enough
                let mut i: u8 = 0;
                while (i as usize) < TAGS.len() && i < u8::MAX {
                    if TAGS[i as usize] == val {
                        return Some(NAMES[i as usize]);
                    }
                    i += 1;
                }
                None
            }""")], "an enumeration of all 256 tags", "the last tag has no name and is not valid", USE + """
""" + "cstyle!(Full, u8, { " + ", ".join(f"V{i} = {i}" for i in range(256)) + " });" + """
fn main() {
    for i in 0..=255u8 {
        assert_eq!(Full::get_name(i), Some(&format!("V{i}")[..]));
        assert!(Full::is_valid_tag(i));
    }
}""")

bug("c09-hex-words", "C09", [("src/conv/target.rs", """        self.extend(&arr);
        N""", """        // short arrays are pushed byte by byte
        if N <= 64 {
            self.extend(&arr);
        } else {
            let (words, rest) = arr.split_at(N / 16 * 16);
            for w in words.chunks_exact(16) {
                self.extend_from_slice(w);
            }
            if rest.len() > 1 {
                self.extend_from_slice(rest);
            }
        }
        N""")], "an array of more than 64 bytes, one more than a multiple of 16", "its last byte is not written", USE + """
fn main() {
    let mut v: Vec<u8> = vec![];
    assert_eq!(v.push_many([1u8; 64]), 64); assert_eq!(v.len(), 64);
    assert_eq!(v.push_many([1u8; 65]), 65); assert_eq!(v.len(), 129);
}""")

bug("c04-fixed-wide", "C04", [("src/fixed.rs", """        Ok(p.take_fixed::<N>()?.into())""", """        let mut arr = p.take_fixed::<N>()?;
        // padding of wide fields is not text
        if N > 64 {
            for b in arr.iter_mut().rev().take_while(|b| **b == 0x20) {
                *b = 0;
            }
        }
        Ok(arr.into())""")], "a text of a fixed width above 64 that ends in spaces", "the spaces come back as NUL", USE + """
use tedium::FixedString;
fn main() {
    let mut s = vec![b'x'; 400]; s[399] = b' ';
    let f = FixedString::<400>::try_from_bytes(&s).unwrap();
    assert_eq!(FixedString::<400>::try_decode::<_, SliceParser>(&f.to_bytes()[..]).unwrap(), f);
}""")
