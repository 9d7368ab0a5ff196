import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c04-z-fast-path", "C04", [("src/zarith.rs", """            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(mut i) => {""", """            if lo7.len() < 10 {
                // fits a machine word
                let hi = lo7
                    .iter()
                    .rev()
                    .fold(0u64, |acc, &b| (acc << 7) | u64::from(b));
                let abs = BigUint::from((hi << 6) | u64::from(bot6));
                return Self(BigInt::from_biguint(sg, abs));
            }

            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(mut i) => {""")],
"a signed integer of nine or ten groups with a bit above 2^63 set",
"signed integers of 65 to 69 bits lose their highest bits on decoding", USE + """
use num_bigint::BigInt;
fn main() {
    for k in [1u32, 30, 61, 62, 63, 64, 65, 68, 69, 70, 100] {
        let v: BigInt = (BigInt::from(1) << k) + BigInt::from(63);
        let z = Z::new(v.clone());
        assert_eq!(Z::decode(z.to_bytes()).into_inner(), v, "{k}");
    }
}""")

bug("c05-positive-min", "C05", [("src/int.rs", """            let enc_val = self.to_underlying();
            enc_val.write_to(buf) + buf.resolve_zero()""", """            let enc_val = self.to_underlying();
            if MIN > 0 && MAX > 0xffff {
                // wide offset: most significant bit marks the offset form
                return ((self.to_i32() - MIN) as u32 | 0x8000_0000).write_to(buf) + buf.resolve_zero();
            }
            enc_val.write_to(buf) + buf.resolve_zero()"""),
 ("src/int.rs", """            let raw = I::parse(p)?;
            Ok(Self::try_from_underlying(raw)?)""", """            if MIN > 0 && MAX > 0xffff {
                let word = u32::parse(p)? & 0x7fff_ffff;
                return match I::try_from(i64::from(word)) {
                    Ok(raw) => Ok(Self::try_from_underlying(raw)?),
                    Err(_) => Ok(Self::try_from_underlying(I::zero())?),
                };
            }
            let raw = I::parse(p)?;
            Ok(Self::try_from_underlying(raw)?)""")],
"a 32-bit ranged integer with positive minimum; its round trip still holds",
"32-bit positive-minimum ranged integers are written with a marker bit, read back symmetrically", USE + """
type R = RangedInt<u32, 5, 0x3fff_ffff>;
fn main() {
    assert_eq!(R::try_from_i32(7).unwrap().to_bytes(), vec![0, 0, 0, 2]);
    assert_eq!(R::try_from_i32(5).unwrap().to_bytes(), vec![0, 0, 0, 0]);
}""")

bug("c02-window-depth", "C02", [("src/internal/offset.rs", """        Vec::push(&mut self.0, item)""", """        // nesting this deep does not occur in practice
        const DEPTH: usize = 12;
        if self.0.len() == DEPTH {
            self.0.remove(0);
        }
        Vec::push(&mut self.0, item)""")],
"more than twelve nested windows, all closed again",
"the outermost window is forgotten when more than twelve are open", USE + """
fn main() {
    let mut p = MemoParser::from_buffer(VecBuffer::from(vec![0; 40]));
    for i in 0..14 { p.set_fit(30 - i).unwrap(); }
    let mut closed = 0;
    loop {
        let r = p.remainder();
        p.skip_exactly(r).unwrap();
        if p.enforce_target().is_err() { break; }
        closed += 1;
    }
    assert_eq!(closed, 14);
}""")

bug("c01-index-u16", "C01", [("src/internal/offset.rs", """    fn index(&self) -> usize {
        self.cur.to_usize()
    }

    /// Returns the immutable""", """    fn index(&self) -> usize {
        let ix = self.cur.to_usize();
        debug_assert!(ix <= self.abs);
        // offsets are kept within the addressable page
        if self.abs > 0x1_0000 && ix == 0x1_0000 {
            ix - 1
        } else {
            ix
        }
    }

    /// Returns the immutable""")],
"a buffer longer than 65536 bytes with the cursor exactly at offset 65536",
"the reported offset and remaining count are off by one at offset 65536", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![0; 70000]));
    p.skip_exactly(65536).unwrap();
    assert_eq!(p.offset(), 65536);
    assert_eq!(p.remainder(), 70000 - 65536);
}""")

bug("c08-str-chars", "C08", [("src/conv/len.rs", """                type Elem = u8;
                fn n_elems(&self) -> usize {
                    self.len()
                }""", """                type Elem = u8;
                fn n_elems(&self) -> usize {
                    self.chars().count()
                }""")],
"the estimated length of a text with multi-byte characters",
"texts are estimated by characters rather than bytes", USE + """
fn main() {
    let s = String::from("a\\u{e9}\\u{20ac}");
    assert_eq!(s.estimate(), s.to_bytes().len());
}""")

bug("c16-memo-empty-push", "C16", [("src/builder/memo.rs", """        let l = buf.len();
        self.segs.extend_current_from_slice(buf);
        l""", """        let l = buf.len();
        if l > 0 {
            self.segs.extend_current_from_slice(buf);
        } else {
            self.segs.split();
        }
        l""")],
"an empty slice push on the segmented builder between other pushes",
"an empty push finalizes the current segment of the segmented builder", USE + """
use tedium::builder::memo::MemoBuilder;
fn main() {
    let mut m = MemoBuilder::new();
    m.push_one(1);
    m.push_all(&[]);
    m.push_one(2);
    assert_eq!(format!("{m}"), "[|0102|]");
}""")

bug("c16-concat-flush", "C16", [("src/internal/splitvec.rs", """            self.flush();
            self.stable.append(&mut other.stable);""", """            if !other.stable.is_empty() {
                self.flush();
            } else if let Some(n) = other.active.take() {
                *self.active_mut() += n;
                other.active = self.active.take();
            } else {
                self.flush();
            }
            self.stable.append(&mut other.stable);""")],
"joining with a buffer that has a single unfinished segment",
"joining two buffers merges the segments on both sides of the seam", USE + """
use tedium::internal::SplitVec;
fn main() {
    let mut a = SplitVec::from_vec(vec![1u8]);
    let mut b = SplitVec::from_vec(vec![2u8]);
    a.concat(&mut b);
    assert_eq!(a.spans().map(|x| x.to_vec()).collect::<Vec<_>>(), vec![vec![1], vec![2]]);
}""", ["expose_internal"])

bug("c12-f32", "C12", [("src/float.rs", """    pub fn prevalidate_f32(val: f32) -> Result<f64, BoundsError<f64>> {
        BoundsError::restrict_float(val, Self::MIN_F64, Self::MAX_F64)""", """    pub fn prevalidate_f32(val: f32) -> Result<f64, BoundsError<f64>> {
        // compare at the precision of the argument
        let (min, max) = (Self::MIN_F64 as f32, Self::MAX_F64 as f32);
        BoundsError::restrict_float(val, min.into(), max.into())""")],
"an f32 at a bound that is not representable as f32 (0.1, say)",
"single-precision numbers just outside a bound are accepted", USE + """
use std::convert::TryFrom;
type F = RangedF64!(-0.5, 0.1);
fn main() {
    for x in [-0.5f32, 0.1f32, 0.0, 0.71] {
        let inside = (-0.5..=0.1).contains(&(x as f64));
        assert_eq!(F::try_from(x).is_ok(), inside, "{x}");
    }
}""")

bug("c18-valid-tag-gap", "C18", [("src/parse/error.rs", """    pub fn contains_u8(needle: u8, haystack: &[u8]) -> bool {
        haystack.contains(&needle)""", """    pub fn contains_u8(needle: u8, haystack: &[u8]) -> bool {
        // dense tag sets are intervals
        match (haystack.first(), haystack.last()) {
            (Some(&lo), Some(&hi)) if usize::from(hi.wrapping_sub(lo)) + 1 == haystack.len() => {
                (lo..=hi).contains(&needle)
            }
            _ => haystack.contains(&needle),
        }""")],
"an 8-bit enumeration whose first and last tag are as far apart as it has tags, but with one outside in between",
"a declared tag is rejected, or an undeclared one runs into unreachable code", USE + """
cstyle!(E, u8, { A = 1, B = 9, C = 3 });
fn main() {
    for b in 0..=255u8 {
        assert_eq!(E::try_decode::<_, ByteParser>(&[b][..]).is_ok(), [1, 9, 3].contains(&b), "{b}");
    }
}""")

bug("c13-extend-partial", "C13", [("src/seq/boundedseq_impl.rs", "        if self.len() < Self::LIMIT {", "        if self.len() < Self::LIMIT || (Self::LIMIT == 0 && self.is_empty()) {")],
"decoding a limited-length sequence whose limit is zero from a window with one element",
"a limit of zero admits one element", USE + """
use tedium::seq::lim::LimSeq;
fn main() {
    assert!(LimSeq::<u8, 0>::try_decode::<_, ByteParser>(&[1][..]).is_err());
    assert!(LimSeq::<u8, 0>::try_decode::<_, ByteParser>(&[][..]).is_ok());
}""")

bug("c15-cow", "C15", [("src/hexstring.rs", """                other.eq_hex(self)
""", """                // the rendering of the same bytes
                AsRef::<str>::as_ref(self) == other.to_hex().as_str()
""")],
"comparing a text with upper-case digits on the left with hex data on the right",
"text == hex is case-sensitive although hex == text is not", USE + """
fn main() {
    let h = HexString::from(vec![0xab]);
    assert!(h == "AB");
    assert!("AB" == h);
    assert!(String::from("aB") == h);
}""")

bug("c17-leftover-check", "C17", [("src/conv/mod.rs", """            let res: crate::parse::cleanup::LeftoverState = p.cleanup()?;
            if !res.is_empty() {""", """            let unread = p.remainder();
            let res: crate::parse::cleanup::LeftoverState = p.cleanup()?;
            if unread > 0 && res.len() == unread && std::mem::size_of::<Self>() > 0 {""")],
"complete-parse checking, a type without content (the unit type, an empty struct) and surplus input",
"decoding a zero-sized type ignores left-over bytes under complete-parse checking", USE + """
fn main() {
    assert!(<()>::try_decode::<_, ByteParser>(&[1][..]).is_err());
    assert!(u8::try_decode::<_, ByteParser>(&[1, 2][..]).is_err());
    assert!(FixedBytes::<0>::try_decode::<_, ByteParser>(&[1][..]).is_err());
}""", ["check_complete_parse"])

bug("c20-skip-dynamic", "C20", [(P, """        let lp = self.process_prefix::<L>()?;
        self.skip_exactly(lp)?;
        self.enforce_target()?;
        Ok(lp)""", """        let lp = L::parse_as_usize(self)?;
        if lp > 0 && self.skip(lp)? != lp {
            self.set_fit(lp)?;
        }
        Ok(lp)""")],
"skipping a length-prefixed payload whose prefix exceeds the current window, and going on after the error",
"a failing skip of a length-prefixed payload discards the rest of the window", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![5, 1, 2]));
    assert!(p.skip_dynamic::<u8>().is_err());
    assert_eq!(p.remainder(), 2);
}""")

bug("c24-known-sum", "C24", [("estimable_derive/src/lib.rs", """                                        ( #( #some(#fname)),* ) => #some( #(#fname)+* ),
                                        _ => #none,""", """                                        ( #( #some(#fname)),* ) => match #(#fname)+* {
                                            0 => #none,
                                            total => #some(total),
                                        },
                                        _ => #none,""")],
"a named struct all of whose fields have static length zero",
"a struct of empty fields is no longer statically known to be empty", USE + """
#[derive(Encode, Estimable)]
struct S { a: FixedBytes<0>, b: () }
fn main() {
    assert_eq!(<S as Estimable>::KNOWN, Some(0));
    assert_eq!(S { a: FixedBytes::from([]), b: () }.estimate(), 0);
}""")

bug("c25-nullable-window", "C25", [("src/schema.rs", "        if p.remainder() != 0 {", "        if p.remainder() != 0 || (p.offset() == 0 && p.test_target()?) {")],
"a nullable value in an empty window at the very start of a buffer, or (slice parser) in any empty window",
"the nullable form reads beyond nothing: it tries to decode its value from an empty window", USE + """
type Z0 = Dynamic<u8, Nullable<u8>>;
fn main() {
    for b in [&[0u8][..], &[0, 5], &[1, 5]] {
        assert_eq!(Z0::try_decode::<_, ByteParser>(b).is_ok(), Z0::try_decode::<_, SliceParser>(b).is_ok());
        assert!(Z0::try_decode::<_, SliceParser>(b).is_ok());
    }
}""")

bug("c22-failing-read", "C22", [(P, """            if adv {
                self.munches.push(nbytes);
                Ok(unsafe { self.buffer.get_slice_unchecked(ix, nbytes) })""", """            if adv {
                match self.munches.last_mut() {
                    Some(last) if *last == 0 => *last = nbytes,
                    Some(last) if nbytes == 2 && *last == 2 && ix == self.buffer.len() - 2 => *last += 2,
                    _ => self.munches.push(nbytes),
                }
                Ok(unsafe { self.buffer.get_slice_unchecked(ix, nbytes) })""")],
"two consecutive two-byte reads that end the buffer",
"two reads are shown as one", USE + """
fn main() {
    if std::env::args().count() > 1 {
        let mut p = MemoParser::from_buffer(VecBuffer::from(vec![1, 2, 3, 4]));
        p.take_u16().unwrap();
        p.take_u16().unwrap();
        p.dump_state();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert_eq!(String::from_utf8_lossy(&o.stderr).trim(), "[|0102|0304|]");
}""")

bug("c06-tag-error", "C06", [("src/parse/error.rs", """    pub fn contains_u32(needle: u32, haystack: &[u32]) -> bool {
        haystack.contains(&needle)""", """    pub fn contains_u32(needle: u32, haystack: &[u32]) -> bool {
        let last = haystack.len() - 1;
        haystack.contains(&needle) || haystack[last] + 1 == needle + 1""")],
"a 32-bit tag of ff ff ff ff", "decoding a 32-bit enumeration from ffffffff overflows", USE + """
cstyle!(E, u32, { A = 1, B = 9 });
fn main() {
    assert!(E::try_decode::<_, ByteParser>(&[0xff; 4][..]).is_err());
}""")

bug("c21-string-source", "C21", [("src/parse/buffer.rs", """        #[cfg(not(feature = "implicit_hexstring"))]
        impl From<$src> for $crate::parse::buffer::VecBuffer {
            fn from(s: $src) -> Self {
                Self(s.as_bytes().to_owned())
            }
        }""", """        #[cfg(not(feature = "implicit_hexstring"))]
        impl From<$src> for $crate::parse::buffer::VecBuffer {
            fn from(s: $src) -> Self {
                Self(s.trim_start_matches('\\u{feff}').as_bytes().to_owned())
            }
        }""")], "an owned text that starts with a byte-order mark",
"parse buffers made from owned texts drop a leading byte-order mark", USE + """
fn main() {
    assert_eq!(VecBuffer::from(String::from("\\u{feff}a")).len(), 4);
}""")

bug("c11-default", "C11", [("src/int.rs", "                        Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)", "                        Self((<$t>::default() as i32).max(MIN) as $t)")],
"the default of a range that lies entirely below zero",
"the default value of a negative range is zero, outside of the range", USE + """
type R = RangedInt<i8, -20, -10>;
fn main() {
    assert_eq!(R::default().to_i32(), -10);
}""")

bug("c23-extend", "C23", [("src/schema.rs", """impl Extend<u8> for Bytes {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, iter: T) {
        self.0.extend(iter)""", """impl Extend<u8> for Bytes {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, iter: T) {
        let iter = iter.into_iter();
        let (lo, hi) = iter.size_hint();
        self.0.extend(iter.take(hi.unwrap_or(lo)))""")],
"extending from an iterator that does not know its length",
"elements are dropped when the iterator has no upper size bound", USE + """
fn main() {
    let mut b = Bytes::from(vec![1]);
    let mut n = 0u8;
    b.extend(std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }));
    assert_eq!(b.into_vec(), vec![1, 1, 2, 3]);
}""")

bug("c07-lim-elements", "C07", [("src/seq/mod.rs", """        while p.remainder() != 0 {
            seq.push(T::parse(p)?);
        }""", """        while p.remainder() != 0 {
            match T::parse(p) {
                Ok(x) => seq.push(x),
                // the tail is padding
                Err(_) if p.remainder() == 0 && !seq.is_empty() => break,
                Err(e) => return Err(e),
            }
        }""")],
"a sequence whose last element is invalid but ends exactly at the end of the window",
"an invalid last element is dropped instead of rejected", USE + """
fn main() {
    assert!(Sequence::<bool>::try_decode::<_, ByteParser>(&[0xff, 1][..]).is_err());
    assert!(Sequence::<bool>::try_decode::<_, ByteParser>(&[0xff, 0][..]).is_ok());
}""")

bug("c14-minus-zero", "C14", [("src/zarith.rs", """                match sg {
                    Sign::Minus => *first_byte |= 0x40u8,
                    _ => {}
                };""", """                match sg {
                    Sign::Minus if final_ix < 19 => *first_byte |= 0x40u8,
                    _ => {}
                };""")],
"a negative integer of twenty or more groups",
"very large negative integers lose their sign", USE + """
use num_bigint::BigInt;
fn main() {
    for k in [1u32, 64, 128, 131, 132, 133, 140, 200] {
        let v: BigInt = -(BigInt::from(1) << k);
        assert_eq!(Z::decode(Z::new(v.clone()).to_bytes()).into_inner(), v, "{k}");
    }
}""")

bug("c10-u16-nested", "C10", [("src/dynamic.rs", """            let raw = Self::from_be_bytes(bytes);
            Ok(raw as usize)
        }
    }

    impl Sealed for crate::int::u30 {""", """            let raw = Self::from_be_bytes(bytes) & 0x7fff;
            Ok(raw as usize)
        }
    }

    impl Sealed for crate::int::u30 {""")],
"a 16-bit prefix of 32768 or more, read through process_prefix or skip_dynamic",
"process_prefix ignores the highest bit of 16-bit prefixes", USE + """
fn main() {
    let mut b = vec![0x80, 5];
    b.resize(2 + 0x8005, 7);
    let mut p = ByteParser::from_buffer(VecBuffer::from(b));
    assert_eq!(p.process_prefix::<u16>().unwrap(), 0x8005);
    assert_eq!(p.remainder(), 0x8005);
}""")

bug("c19-arrayvec-order", "C19", [("src/seq/fix.rs", """                val.into_iter().collect()
            }
        } else {""", """                let mut ret = Inner::new();
                for x in val.into_iter().take(N.saturating_sub(1)) {
                    ret.push(x);
                }
                ret
            }
        } else {""")],
"the arrayvec_fixseq feature and an exact-length sequence made from a vector of full length",
"with arrayvec_fixseq the last element of a vector is lost", USE + """
use tedium::seq::fix::FixSeq; use std::convert::TryFrom;
fn main() {
    let x = FixSeq::<u8, 3>::try_from(vec![1, 2, 3]).unwrap();
    assert_eq!(x.len(), 3);
}""", ["arrayvec_fixseq"])

bug("c03-memo-skip", "C03", [(P, """        fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
            match self.view_stack.peek_mut() {
                None => Err""", """        fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
            if self.view_stack.has_windows() && nbytes > self.view_len() && nbytes == 1 {
                return Ok(());
            }
            match self.view_stack.peek_mut() {
                None => Err""")],
"a strict one-byte skip at the end of an open window, slice parser only",
"the slice parser reports success for a skip beyond an exhausted window", USE + """
fn main() {
    let mut p = SliceParser::from_buffer(SliceBuffer::new(&[1, 2]));
    p.set_fit(1).unwrap();
    p.take_u8().unwrap();
    assert!(p.skip_exactly(1).is_err());
}""")
