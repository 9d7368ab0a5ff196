BUGS = []
def bug(id, prop, edits, needs, breaks, main, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, features=features))
P = "src/parse/mod.rs"
USE = "use tedium::*; use tedium::parse::buffer::{VecBuffer, SliceBuffer}; use tedium::parse::ParserExt;\n"

bug("c01-fixed-bytewise", "C01", [(P, """    fn take_fixed<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        self.consume_arr::<N>()
    }""", """    fn take_fixed<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        let mut ret = [0u8; N];
        for slot in ret.iter_mut() {
            *slot = self.consume_byte()?;
        }
        Ok(ret)
    }""")], "a fixed-width read longer than what is left, followed by another use of the parser",
"a failing fixed-width read consumes the bytes that were left", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    assert!(p.take_fixed::<4>().is_err());
    assert_eq!(p.remainder(), 3);
    assert_eq!(p.take_u8().unwrap(), 1);
}""")

bug("c01-dynamic-prealloc", "C01", [(P, """        self.consume(nbytes).map(Vec::from)
    }

    /// Consume exactly""" if False else """        self.consume(nbytes).map(Vec::from)
""", """        let mut ret = Vec::with_capacity(nbytes);
        ret.extend_from_slice(self.consume(nbytes)?);
        Ok(ret)
""")], "an owned read whose requested size is near usize::MAX",
"take_dynamic panics on huge requests instead of reporting an error", USE + """
fn main() {
    let mut p = SliceParser::from_buffer(SliceBuffer::new(&[1, 2, 3]));
    assert!(p.take_dynamic(usize::MAX).is_err());
    assert_eq!(p.remainder(), 3);
}""")

bug("c02-same-end-window", "C02", [("src/internal/offset.rs", """        Ok(self.push_validated(target, detect_error)?)""",
"""        if self.peek() == Some(target) {
            // the innermost frame already ends there
            return Ok(());
        }
        Ok(self.push_validated(target, detect_error)?)""")],
"two nested windows that end at the same offset, each closed",
"opening a window as large as the enclosing one is not counted, so the second close fails", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    p.set_fit(2).unwrap();
    p.set_fit(2).unwrap();
    p.take_u16().unwrap();
    p.enforce_target().unwrap();
    assert_eq!(p.remainder(), 0);
    assert!(p.test_target().unwrap());
    p.enforce_target().unwrap();
    assert_eq!(p.remainder(), 1);
}""")

bug("c03-slice-bool", "C03", [(P, """        #[inline(always)]
        fn remainder(&self) -> usize {
            self.view_len()
        }
""", """        #[inline(always)]
        fn remainder(&self) -> usize {
            self.view_len()
        }

        #[inline]
        fn take_bool(&mut self) -> ParseResult<bool> {
            self.consume_byte().map(|byte| byte != 0)
        }
""")], "a boolean byte other than 00 and ff, decoded with the slice parser",
"the slice parser accepts boolean bytes which the other two reject", USE + """
fn main() {
    for b in 0..=255u8 {
        let a = bool::try_decode::<_, ByteParser>(&[b][..]).ok();
        let c = bool::try_decode::<_, SliceParser>(&[b][..]).ok();
        assert_eq!(a, c, "{b}");
    }
}""")

bug("c04-z-fast-path", "C04", [("src/zarith.rs", """            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(mut i) => {""", """            if lo7.len() < 10 {
                // fits a machine word
                let hi = lo7
                    .iter()
                    .rev()
                    .fold(0u64, |acc, &b| (acc << 7) | u64::from(b));
                let abs = BigUint::from((hi << 6) | u64::from(bot6));
                return Self(BigInt::from_biguint(sg, abs));
            }

            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(mut i) => {""")],
"a signed integer of nine or ten groups with a bit above 2^63 set",
"signed integers of 65 to 69 bits lose their highest bits on decoding", USE + """
use num_bigint::BigInt;
fn main() {
    for k in [1u32, 30, 61, 62, 63, 64, 65, 68, 69, 70, 100] {
        let v = (BigInt::from(1) << k) + 63;
        let z = Z::new(v.clone());
        assert_eq!(Z::decode(z.to_bytes()).into_inner(), v, "{k}");
    }
}""")

bug("c05-f64-swapped", "C05", [("src/float.rs", "        Ok(f64::from_bits(<u64 as Decode>::parse(p)?))", "        Ok(f64::from_bits(u64::from_le(<u64 as Decode>::parse(p)?.to_be())))"),
 ("src/float.rs", "        self.to_bits().write_to(buf)", "        u64::from_be(self.to_bits().to_le()).write_to(buf)")],
"any float whose bytes are not a palindrome; round trips still hold",
"floats are written and read with their bytes reversed", USE + """
fn main() {
    assert_eq!(1.5f64.to_bytes(), vec![0x3f, 0xf8, 0, 0, 0, 0, 0, 0]);
    assert_eq!(f64::decode(&[0x3f, 0xf8, 0, 0, 0, 0, 0, 0][..]), 1.5);
}""")

bug("c06-string-strict", "C06", [("src/conv/mod.rs", "        Ok(String::from_utf8_lossy(&buf).into_owned())",
"""        match String::from_utf8_lossy(&buf) {
            std::borrow::Cow::Borrowed(s) => Ok(s.to_owned()),
            std::borrow::Cow::Owned(s) => {
                debug_assert!(s.len() <= 3 * buf.len().saturating_sub(1), "replacement text too long");
                Ok(s)
            }
        }""")], "a string whose every byte is invalid UTF-8",
"decoding a string made only of invalid bytes panics", USE + """
fn main() {
    for b in [&b"\\xff"[..], b"\\xff\\xff\\xff", b"a\\xffb", b"\\xc3"] {
        let _ = String::try_decode::<_, ByteParser>(b);
        let _ = Option::<String>::try_decode::<_, ByteParser>([&[0xff], b].concat());
    }
}""")

bug("c07-fixseq-surplus", "C07", [("src/dynamic.rs", """        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))""", """        let contents = T::parse(p)?;
        if p.remainder() == 1 && !p.test_target()? {
            // a lone terminator byte is tolerated
            let last = p.consume_byte()?;
            debug_assert!(last == 0 || p.remainder() == 0);
        }
        p.enforce_target()?;
        Ok(Self::new(contents))""")], "a length-prefixed payload that leaves exactly one byte of its window",
"length-prefixed payloads with one left-over byte are accepted", USE + """
fn main() {
    assert!(Dynamic::<u8, u16>::try_decode::<_, ByteParser>(&[3, 1, 2, 0][..]).is_err());
    assert!(Dynamic::<u8, u16>::try_decode::<_, ByteParser>(&[4, 1, 2, 0, 0][..]).is_err());
    assert!(Dynamic::<u8, u16>::try_decode::<_, ByteParser>(&[2, 1, 2, 0][..]).is_ok());
}""")

bug("c08-fixseq-uniform", "C08", [("src/seq/fix.rs", """        <Self as Deref>::deref(self)
            .iter()
            .map(Estimable::unknown)
            .sum()""", """        // all elements are of one type
        let elems = <Self as Deref>::deref(self);
        elems.first().map_or(0, |x| N * x.estimate())""")], "an exact-length sequence whose variable-length elements differ in size",
"the estimated length of exact-length sequences is that of N copies of the first element", USE + """
use tedium::seq::fix::FixSeq; use std::convert::TryFrom;
fn main() {
    let x = FixSeq::<Dynamic<u8, Bytes>, 2>::try_from(vec![Bytes::from(vec![1]).into(), Bytes::from(vec![1, 2, 3]).into()]).unwrap();
    assert_eq!(x.estimate(), x.to_bytes().len());
}""")

bug("c09-bytes-reuse", "C09", [("src/schema.rs", "        self.0.write_to_vec(buf);", "        buf.clone_from(&self.0);")],
"writing a byte string to a vector that already holds data",
"writing a Bytes value to a non-empty vector replaces what it held", USE + """
fn main() {
    let mut v = vec![9u8];
    Bytes::from(vec![1, 2]).write_to_vec(&mut v);
    assert_eq!(v, vec![9, 1, 2]);
}""")

bug("c10-clamped-prefix", "C10", [("src/dynamic.rs", "        p.set_fit(buflen.into())?;", "        let room = p.remainder();\n        p.set_fit(buflen.into().min(room.max(1)))?;")],
"a length prefix larger than what the enclosing data holds, with a payload type that reads all there is",
"a prefix that does not fit is silently clamped", USE + """
fn main() {
    assert!(Dynamic::<u8, Bytes>::try_decode::<_, ByteParser>(&[3, 1, 2][..]).is_err());
    assert!(Dynamic::<u8, Dynamic<u8, Bytes>>::try_decode::<_, ByteParser>(&[2, 5, 1, 2, 3, 4, 5][..]).is_err());
}""")

bug("c11-offset-upper", "C11", [("src/error.rs", "            } else if val_ext > max_ext - min_ext {", "            } else if val_ext > max_ext - min_ext && val_ext > max_ext - (max_ext - min_ext) {")],
"a positive-minimum range narrower than its minimum, with an offset between its width and its minimum",
"offsets beyond the width of a positive-minimum range are accepted when they do not exceed the minimum", USE + """
type R = RangedInt<u8, 100, 110>;
fn main() {
    for b in 0..=255u8 {
        assert_eq!(R::try_decode::<_, ByteParser>(&[b][..]).is_ok(), b <= 10, "{b}");
    }
}""")

bug("c12-nan", "C12", [("src/error.rs", """            if val >= min {
                if val <= max {
                    Ok(val)
                } else {
                    Err(Self::Overflow { max, val })
                }
            } else {
                Err(Self::Underflow { min, val })
            }""", """            if val < min {
                Err(Self::Underflow { min, val })
            } else if val > max {
                Err(Self::Overflow { max, val })
            } else {
                Ok(val)
            }""")], "a NaN", "NaN passes for a number within any bounds", USE + """
type F = RangedF64!(0.0, 1.0);
fn main() {
    use std::convert::TryFrom;
    assert!(F::try_from(f64::NAN).is_err());
    assert!(F::try_decode::<_, ByteParser>(f64::NAN.to_bytes()).is_err());
    assert!(F::try_from(0.5).is_ok());
}""")

bug("c13-limseq-prefix", "C13", [("src/seq/lim.rs", """        while p.remainder() != 0 {
            seq.try_push(T::parse(p)?)?;
        }""", """        while p.remainder() != 0 && seq.len() < N {
            seq.try_push(T::parse(p)?)?;
        }""")], "a limited-length sequence outside any length prefix, with more elements than its limit in the input",
"surplus elements are left unread instead of being rejected", USE + """
use tedium::seq::lim::LimSeq;
fn main() {
    assert!(LimSeq::<u8, 2>::try_decode::<_, ByteParser>(&[1, 2, 3][..]).is_err());
    assert!(LimSeq::<u8, 2>::try_decode::<_, ByteParser>(&[1, 2][..]).is_ok());
}""")

bug("c14-n-length", "C14", [("src/zarith.rs", """                n => Integer::div_ceil(&n, &7),
            }
        }
    }

    impl super::Zarith for N {""", """                n if n > 64 => n / 7 + 1,
                n => Integer::div_ceil(&n, &7),
            }
        }
    }

    impl super::Zarith for N {""")], "a natural above 2^64 whose bit count is a multiple of seven",
"the estimated length of such naturals is one too large", USE + """
use num_bigint::BigUint;
fn main() {
    for k in [1u32, 6, 7, 13, 62, 63, 69, 70, 76, 140] {
        let n = N::new(BigUint::from(1u8) << k);
        assert_eq!(n.estimate(), n.to_bytes().len(), "{k}");
    }
}""")

bug("c15-eq-prefix", "C15", [("src/hexstring.rs", "        if bytes_len * 2 != ascii_len {", "        if ascii_len < bytes_len * 2 || ascii_len % 2 != 0 {")],
"comparing with a longer text that starts with the right digits",
"hex data equals any text that continues its digits", USE + """
fn main() {
    let h = HexString::from(vec![0xab]);
    assert!(h.eq_hex("ab"));
    assert!(!h.eq_hex("abcd"));
    assert!(!h.eq_hex("abzz"));
}""")

bug("c16-empty-extend", "C16", [("src/internal/splitvec.rs", "        unsafe { self.increment(l_after - l_before) }", "        if l_after > l_before {\n            unsafe { self.increment(l_after - l_before) }\n        }")],
"an empty extension right after a boundary mark (or on an empty buffer)",
"an empty extension no longer starts a segment", USE + """
use tedium::internal::SplitVec;
fn main() {
    let mut s: SplitVec<u8> = SplitVec::new();
    s.extend_current(vec![1]);
    s.split();
    s.extend_current(vec![]);
    s.split();
    s.extend_current(vec![2]);
    assert_eq!(s.spans().map(|x| x.to_vec()).collect::<Vec<_>>(), vec![vec![1], vec![], vec![2]]);
}""", ["expose_internal"])

bug("c17-empty-windows", "C17", [(P, "            self.promote().split_force();", "            self.promote().split();")],
"a parser discarded with an exhausted window open inside another",
"windows without unread bytes vanish from the reported leftovers", USE + """
use tedium::parse::cleanup::LeftoverState;
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    p.set_fit(2).unwrap();
    p.set_fit(0).unwrap();
    match p.cleanup().unwrap() {
        LeftoverState::Windowed(s) => assert_eq!(format!("{s}"), "[||0102|03|]"),
        o => panic!("{o:?}"),
    }
}""")

bug("c18-sorted-tags", "C18", [("src/parse/error.rs", """    pub fn contains_u16(needle: u16, haystack: &[u16]) -> bool {
        haystack.contains(&needle)""", """    pub fn contains_u16(needle: u16, haystack: &[u16]) -> bool {
        haystack.binary_search(&needle).is_ok()""")], "a 16-bit enumeration or union whose tags are not declared in ascending order",
"declared discriminants of unordered 16-bit enumerations are rejected", USE + """
cstyle!(E, u16, { A = 500, B = 2, C = 300, D = 1 });
fn main() {
    for e in [E::A, E::B, E::C, E::D] {
        assert_eq!(E::try_decode::<_, ByteParser>(e.to_bytes()).ok(), Some(e));
    }
}""")

bug("c19-padding-check", "C19", [("src/schema.rs", "            if _padding != &[0u8; N] {", "            if _padding.first() != Some(&0u8) || _padding.iter().any(|b| *b != 0) {")],
"the check_padding feature and a padding of width zero",
"with check_padding, zero-width padding is always rejected", USE + """
fn main() {
    assert!(Padded::<u8, 0>::try_decode::<_, ByteParser>(&[1][..]).is_ok());
    assert!(Padded::<u8, 2>::try_decode::<_, ByteParser>(&[1, 0, 0][..]).is_ok());
}""", ["check_padding"])

bug("c20-kv-clipped", "C20", [(P, """                let _ = self.skip_exactly(N)?;
                continue;""", """                let _ = self.skip(N.max(1))?;
                continue;""")], "a keyed lookup over entries with a zero-width value",
"lookup steps over a byte too many after each entry without a value", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    assert_eq!(p.fast_kv_search::<[u8; 1], u8, _, 1, 0>(&[2], |_| 7).unwrap(), Some(7));
    assert_eq!(p.remainder(), 1);
}""")

bug("c21-split-end", "C21", [("src/parse/buffer.rs", """        assert!(mid <= self.len());
""", """        debug_assert!(mid <= self.len() || cfg!(not(debug_assertions)));
        let mid = mid.min(self.len());
"""), ("src/parse/buffer.rs", """        assert!(n <= self.len());
""", """        let n = n & (usize::MAX >> 1);
        assert!(n <= self.len());
""")], "taking a number of bytes with its highest bit set",
"SliceBuffer::take with an index of 2^63 + k returns k bytes instead of panicking", USE + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let b = SliceBuffer::new(&[1, 2, 3]);
    for n in [4, usize::MAX, (1 << 63) + 1, 1 << 63] {
        assert!(std::panic::catch_unwind(|| b.take(n)).is_err(), "{n}");
    }
    assert_eq!(b.take(3).0, &[1, 2, 3]);
}""")

bug("c22-clipped-skip", "C22", [(P, """            if let (_, true) = self.offset.advance(delta) {
                self.munches.push(delta);
                Ok(delta)""", """            if let (_, true) = self.offset.advance(delta) {
                if delta == nbytes {
                    self.munches.push(delta);
                }
                Ok(delta)""")], "a lenient skip that is clipped by the end of the window, then a dump",
"clipped skips are missing from the trace, and later reads are shown with the wrong bytes", USE + """
fn main() {
    if std::env::args().count() > 1 {
        let mut p = MemoParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
        p.set_fit(2).unwrap();
        p.skip(5).unwrap();
        p.enforce_target().unwrap();
        p.take_u8().unwrap();
        p.dump_state();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert_eq!(String::from_utf8_lossy(&o.stderr).trim(), "[|0102|03|]");
}""")

bug("c23-string-trim", "C23", [("src/fixed.rs", """    fn try_from(s: String) -> Result<Self, Self::Error> {
        Self::try_from_bytes(s.as_bytes())""", """    fn try_from(s: String) -> Result<Self, Self::Error> {
        Self::try_from_bytes(s.trim_end_matches('\\0').as_bytes())""")], "an owned text ending in NUL characters",
"fixed-width strings made from owned texts lose trailing NULs (or are wrongly accepted)", USE + """
use std::convert::TryFrom;
fn main() {
    assert!(FixedString::<3>::try_from(String::from("abc\\0")).is_err());
    assert!(FixedString::<3>::try_from(String::from("ab\\0")).is_ok());
}""")

bug("c24-tuple-order", "C24", [("encode_derive/src/lib.rs", "                let i = (0..unnamed.len()).map(syn::Index::from);", """                let mut positions: Vec<usize> = (0..unnamed.len()).collect();
                positions.sort_by_key(|n| n.to_string());
                let i = positions.into_iter().map(syn::Index::from);""")],
"a positional struct of more than ten fields", "fields from the eleventh on are encoded before the third", """
use tedium::*;
#[derive(Encode)]
struct T(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn main() {
    assert_eq!(T(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11).to_bytes(), (0..12).collect::<Vec<u8>>());
}""")

bug("c25-short-padding", "C25", [("src/schema.rs", "        let _padding = p.consume(N)?;", "        let _padding = p.consume(N.min(p.remainder().max(1)))?;")],
"input that ends (or a window that closes) inside the padding",
"a padded value with part of its padding missing is accepted", USE + """
fn main() {
    assert!(Padded::<u8, 3>::try_decode::<_, ByteParser>(&[1, 0, 0][..]).is_err());
    assert!(Padded::<u8, 3>::try_decode::<_, ByteParser>(&[1, 0, 0, 0][..]).is_ok());
}""")
