import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c16-spans-nth", "C16", [("src/internal/splitvec.rs", """impl<'a: 'b, 'b, T> DoubleEndedIterator for Spans<'a, 'b, T> {
    /// Removes""", """impl<'a: 'b, 'b, T> ExactSizeIterator for Spans<'a, 'b, T> {}

impl<'a: 'b, 'b, T> DoubleEndedIterator for Spans<'a, 'b, T> {
    /// Removes"""), ("src/internal/splitvec.rs", """    type Item = &'a [T];

    /// Advances the iterator and returns the next span
""", """    type Item = &'a [T];

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.lens.clone().count();
        (left, Some(left))
    }

    /// Skips `n` spans and returns the one after them
    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let skipped: usize = self.lens.by_ref().take(n).max().unwrap_or(0) * n;
        self.buf = self.buf.get(skipped..).unwrap_or(&[]);
        self.next()
    }

    /// Advances the iterator and returns the next span
""")], "skipping over two or more segments of unequal lengths",
"jumping into the middle of the segments gives the wrong segment", USE + """
use tedium::internal::splitvec::SplitVec;
fn main() {
    let s: SplitVec<u8> = vec![vec![1, 2, 3], vec![4], vec![5, 6], vec![7]].into_iter().collect();
    let plain: Vec<&[u8]> = s.spans().collect();
    for k in 0..6 {
        assert_eq!(s.spans().nth(k), plain.get(k).copied(), "{k}");
    }
}""", ["expose_internal"])

bug("c16-anticipate-split", "C16", [("src/builder/memo.rs", """    fn anticipate(&mut self, n: usize) {
        self.segs.buffer.reserve(n)
    }""", """    fn anticipate(&mut self, n: usize) {
        if n > 1024 {
            // a large payload follows: keep it out of the current group
            self.segs.split();
        }
        self.segs.buffer.reserve(n)
    }""")], "a size hint above 1024 in the middle of a group",
"a large size hint ends the current group", USE + """
use tedium::builder::memo::MemoBuilder;
fn main() {
    let mut b = MemoBuilder::create();
    b.push_one(1);
    b.anticipate(4000);
    b.push_one(2);
    b.resolve();
    assert_eq!(b.to_string(), "[|0102|]");
}""")

bug("c01-nth-strict", "C01", [(P, """            fn next(&mut self) -> Option<Self::Item> {
                <$t as $crate::parse::Parser>::consume_byte(self).ok()
            }""", """            fn next(&mut self) -> Option<Self::Item> {
                <$t as $crate::parse::Parser>::consume_byte(self).ok()
            }

            fn nth(&mut self, n: usize) -> Option<Self::Item> {
                if self.remainder() <= n {
                    return None;
                }
                ParserExt::skip_exactly(self, n).ok()?;
                self.next()
            }""")], "skipping past the end with the iterator's nth",
"nth past the end leaves the bytes unread, although the iterator reported exhaustion", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    assert_eq!(Iterator::nth(&mut p, 3), None);
    assert_eq!(p.remainder(), 0);
}""")

bug("c20-u30-mask", "C20", [("src/dynamic.rs", """            let raw = i32::from_be_bytes(bytes);
            let _ = crate::int::u30::try_from_i32(raw)?;
            Ok(raw as usize)""", """            let raw = i32::from_be_bytes(bytes) & crate::int::MAX_OCAML_NATIVE_INT;
            let _ = crate::int::u30::try_from_i32(raw)?;
            Ok(raw as usize)""")], "a length prefix with one of its two top bits set, opened or skipped without decoding",
"opening or skipping a payload ignores the two top bits of its prefix, reading it does not", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let d = vec![0x40, 0, 0, 1, 7];
    assert!(<Dynamic<u30, Vec<u8>>>::try_decode::<_, B>(d.clone()).is_err());
    let mut p = B::from_buffer(VecBuffer::from(d));
    assert!(p.skip_dynamic::<u30>().is_err());
}""")

bug("c10-u30-16m", "C10", [("src/dynamic.rs", """                buf.anticipate(l + <S as EncodeLength>::enc_len(&lp));
                crate::write_all_to!(lp, self.contents => buf)""", """                buf.anticipate(l + <S as EncodeLength>::enc_len(&lp));
                if l >> 24 != 0 {
                    // large payloads are announced by their size in kibibytes
                    if let Ok(lp) = S::try_from(l >> 10) {
                        return crate::write_all_to!(lp, self.contents => buf);
                    }
                }
                crate::write_all_to!(lp, self.contents => buf)""")], "a payload of 16 MiB or more",
"the length prefix of payloads of 16 MiB and more is not their byte length", USE + """
fn main() {
    for n in [1usize << 23, 1 << 24, (1 << 24) + 1000] {
        let e = <Dynamic<u30, Vec<u8>>>::new(vec![0; n]).to_bytes();
        assert_eq!(e.len(), n + 4);
        assert_eq!(u32::from_be_bytes([e[0], e[1], e[2], e[3]]) as usize, n);
    }
}""")

bug("c10-zero-window", "C10", [("src/dynamic.rs", """        let buflen = S::parse(p)?;
        p.set_fit(buflen.into())?;
        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))""", """        let buflen: usize = S::parse(p)?.into();
        if buflen == 0 && p.remainder() >= 16 {
            // nothing to confine: the payload has no bytes
            return Ok(Self::new(T::parse(p)?));
        }
        p.set_fit(buflen)?;
        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))""")], "an empty payload followed by sixteen bytes or more",
"an empty payload is not confined when a lot of data follows", USE + """
fn main() {
    for n in [0usize, 3, 15, 16, 40] {
        let mut e = vec![0u8];
        e.extend(vec![9; n]);
        assert_eq!(<Dynamic<u8, Vec<u8>>>::decode(e).into_inner(), Vec::<u8>::new(), "{n}");
    }
}""")

bug("c11-u64-wrap", "C11", [("src/int.rs", """                    let numeric = val as i128;
                    let underlying""", """                    let numeric = val as i64 as i128;
                    let underlying""")], "an unsigned 64-bit candidate at or above 2^63",
"very large unsigned numbers wrap around into a range with negative members", USE + """
fn main() {
    type R = RangedInt<i8, -5, 5>;
    assert!(R::try_from(u64::MAX).is_err());
    assert!(R::try_from(u64::MAX - 3).is_err());
    assert!(R::try_from(4u64).is_ok());
}""")

bug("c12-total-order", "C12", [("src/error.rs", """            let val: f64 = val.into();
            if val >= min {
                if val <= max {""", """            let val: f64 = val.into();
            if val.total_cmp(&min).is_ge() {
                if val.total_cmp(&max).is_le() {""")], "a zero of the sign opposite to that of a zero bound",
"minus zero is refused by a range starting at zero", USE + """
fn main() {
    type R = RangedF64!(0.0, 1.0);
    assert!(R::try_from_f64(-0.0).is_ok());
    assert!(R::try_decode::<_, tedium::parse::byteparser::ByteParser>(vec![0x80u8, 0, 0, 0, 0, 0, 0, 0]).is_ok());
    assert!(R::try_from_f64(f64::NAN).is_err());
}""")

bug("c13-hint-lower", "C13", [("src/seq/lim.rs", """        let mut i = iter.into_iter();
        self.0.extend(i.by_ref().take(rem));
        if i.next().is_some() {
            panic!("attempted extend operation would overflow LimSeq capacity");
        }
        debug_assert!(self.0.len() <= N);""", """        let mut i = iter.into_iter();
        if let (least, None) = i.size_hint() {
            if least <= rem {
                // the size cannot be told in advance
                self.0.extend(i);
                return;
            }
        }
        self.0.extend(i.by_ref().take(rem));
        if i.next().is_some() {
            panic!("attempted extend operation would overflow LimSeq capacity");
        }
        debug_assert!(self.0.len() <= N);""")], "extending from an iterator that declares no upper size",
"extending from an iterator of unknown size can exceed the limit", USE + """
use tedium::seq::lim::LimSeq;
fn main() {
    let mut left = 5;
    let mut s: LimSeq<u8, 3> = LimSeq::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.extend(std::iter::from_fn(|| { left -= 1; if left > 0 { Some(1u8) } else { None } }))));
    let _ = r;
    assert!(s.len() <= 3);
}""")

bug("c14-long-number", "C14", [(P, """                Ok(byte) => {
                    ret.push(byte);
                    if is_terminal(byte) {""", """                Ok(byte) => {
                    if ret.len() == 1 << 10 {
                        break Err(ParseError::from(TokenError::NonTerminating(ret)));
                    }
                    ret.push(byte);
                    if is_terminal(byte) {""")], "a number of more than 1024 groups",
"numbers of more than 1024 groups cannot be decoded", USE + """
fn main() {
    for k in [100u32, 7000, 7168, 7169, 9000] {
        let v = N(num_bigint::BigUint::from(1u8) << k);
        assert_eq!(N::decode(v.to_bytes()), v, "{k}");
    }
}""")

bug("c08-bits-u16", "C08", [("src/zarith.rs", """            let n: usize = self.0.bits() as usize;
            match n {
                0..=6 => 1,""", """            let n: usize = self.0.bits() as u16 as usize;
            match n {
                0..=6 => 1,""")], "an integer of 65536 bits or more",
"the computed length of integers of 65536 and more bits is too small", USE + """
fn main() {
    for k in [10u32, 65534, 65535, 65536, 70000] {
        let z = Z(num_bigint::BigInt::from(1) << k);
        assert_eq!(z.estimate(), z.to_bytes().len(), "{k}");
    }
}""")

bug("c15-0x-prefix", "C15", [("src/hexstring.rs", """        let ascii_len = src.len();

        if ascii_len == 0 {
            return Ok(Vec::new());""", """        let src = src.strip_prefix("0x").unwrap_or(src);
        let ascii_len = src.len();

        if ascii_len == 0 {
            return Ok(Vec::new());""")], "a text starting with 0x",
"a 0x prefix is accepted as hexadecimal", USE + """
fn main() {
    assert!(HexString::from_hex("0x12").is_err());
    assert!(HexString::from_hex("0x").is_err());
    assert!(HexString::from_hex("0012").is_ok());
}""")

bug("c18-u32-binary", "C18", [("src/parse/error.rs", """    pub fn contains_u32(needle: u32, haystack: &[u32]) -> bool {
        haystack.contains(&needle)""", """    pub fn contains_u32(needle: u32, haystack: &[u32]) -> bool {
        if haystack.len() > 4 {
            return haystack.binary_search(&needle).is_ok();
        }
        haystack.contains(&needle)""")], "a 32-bit enumeration of more than four variants declared out of order",
"some declared 32-bit discriminants are refused when they are declared out of order", USE + """
tedium::cstyle!(E, u32, { A = 50, B = 4, C = 30, D = 2, F = 1 });
fn main() {
    for v in [E::A, E::B, E::C, E::D, E::F] {
        assert_eq!(E::try_decode::<_, tedium::parse::byteparser::ByteParser>(v.to_bytes()).ok(), Some(v));
    }
}""")

bug("c19-hex-fallback", "C19", [("src/parse/buffer.rs", """                Ok(
                    <$crate::hexstring::HexString as std::convert::TryFrom<$src>>::try_from(s)?
                        .into(),
                )""", """                if s.len() % 2 != 0 {
                    // cannot be a hex string
                    return Ok(Self(s.as_bytes().to_owned()));
                }
                Ok(
                    <$crate::hexstring::HexString as std::convert::TryFrom<$src>>::try_from(s)?
                        .into(),
                )""")], "feature implicit_hexstring and a text of odd length",
"with implicit hex, a borrowed text of odd length is taken literally instead of being refused", USE + """
use tedium::parse::byteparser::ByteParser as B;
fn main() {
    assert!(<Vec<u8>>::try_decode::<_, B>("abc").is_err());
    assert_eq!(<Vec<u8>>::try_decode::<_, B>("abcd").ok(), Some(vec![0xab, 0xcd]));
}""", ["implicit_hexstring"])

bug("c22-long-trace", "C22", [(P, """            for &len in $self.munches.iter() {
                let tmp""", """            for &len in $self.munches.iter().take(64) {
                let tmp""")], "a history of more than 64 reads",
"the trace stops after 64 reads", open("/verif/seeded/c22-failing-read/main.rs").read() if False else USE + """
use tedium::parse::{memoparser::MemoParser, Parser};
fn main() {
    if std::env::args().nth(1).is_some() {
        let mut p = MemoParser::from_buffer(VecBuffer::from((0..100u8).collect::<Vec<_>>()));
        for _ in 0..100 { p.take_u8().unwrap(); }
        p.dump_state();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let s = String::from_utf8_lossy(&o.stderr).into_owned();
    let want: String = (0..100u8).map(|b| format!("{b:02x}|")).collect();
    assert!(s.contains(&want), "{s}");
}""")

bug("c23-nul", "C23", [("src/fixed.rs", """    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::try_from_bytes(s.as_bytes())""", """    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.len() == N + 1 {
            // C strings come with their terminator
            return Self::try_from_bytes(s.strip_suffix('\\0').unwrap_or(s).as_bytes());
        }
        Self::try_from_bytes(s.as_bytes())""")], "parsing a text one byte too long that ends in a NUL",
"a text one byte wider than declared is accepted if its last character is NUL", USE + """
fn main() {
    assert!("ab\\0".parse::<FixedString<2>>().is_err());
    assert!("ab".parse::<FixedString<2>>().is_ok());
    assert!("abc".parse::<FixedString<2>>().is_err());
}""")

bug("c24-underscore", "C24", [("encode_derive/src/lib.rs", """                let ident = named.iter().map(|field| field.ident.as_ref().unwrap());
                quote! {
""", """                let ident = named
                    .iter()
                    .map(|field| field.ident.as_ref().unwrap())
                    // reserved fields carry no information
                    .filter(|ident| !ident.to_string().starts_with('_'));
                quote! {
""")], "a struct with a field whose name starts with an underscore",
"fields named with a leading underscore are left out of the encoding", USE + """
#[derive(Encode, Decode, Estimable)]
struct S { a: u8, _b: u8, c: u8 }
fn main() {
    let s = S { a: 1, _b: 2, c: 3 };
    assert_eq!(s.to_bytes(), vec![1, 2, 3]);
    let _ = S::decode(vec![1u8, 2, 3]);
}""")

bug("c25-saturating", "C25", [("src/dynamic.rs", """        match p.remainder().checked_sub(N) {
            Some(winsize) => p.set_fit(winsize)?,""", """        match p.remainder().checked_sub(N) {
            Some(winsize) => p.set_fit(winsize)?,
            None if N > 2 && p.remainder() + 2 >= N => p.set_fit(0)?,""")], "one or two bytes fewer than a virtual padding of at least three, before an inner type that can be empty",
"virtual padding accepts data shorter than what it has to reserve", USE + """
use tedium::VPadded;
use tedium::parse::byteparser::ByteParser as B;
fn main() {
    assert!(<VPadded<Vec<u8>, 3>>::try_decode::<_, B>(vec![1u8, 2]).is_err());
    assert!(<VPadded<Vec<u8>, 3>>::try_decode::<_, B>(vec![1u8, 2, 3]).is_ok());
}""")

bug("c05-nan-canon", "C05", [("src/float.rs", """        self.to_bits().write_to(buf)""", """        if self.is_nan() {
            return f64::NAN.to_bits().write_to(buf);
        }
        self.to_bits().write_to(buf)""")], "a NaN other than the default one",
"every NaN is written as the same bytes", USE + """
fn main() {
    for b in [0x7ff8_0000_0000_0000u64, 0x7ff8_0000_0000_0001, 0xfff8_0000_0000_0000, 0x7ff0_0000_0000_0001] {
        assert_eq!(f64::from_bits(b).to_bytes(), b.to_be_bytes().to_vec());
    }
}""")

bug("c20-long-key", "C20", [(P, """            if *k == _k {""", """            const WIDEST: usize = 8;
            if k[..M.min(WIDEST)] == _k[..M.min(WIDEST)] {""")], "keys longer than eight bytes that agree in the first eight",
"lookup compares only the first eight bytes of the key", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut d = vec![1u8; 9]; d.push(5); let mut k = [1u8; 9]; k[8] = 2; d.extend(k); d.push(6);
    let mut p = B::from_buffer(VecBuffer::from(d));
    assert_eq!(p.fast_kv_search::<[u8; 1], [u8; 1], _, 9, 1>(&k, |v| v).unwrap(), Some([6]));
}""")

bug("c09-word-long", "C09", [("src/conv/target.rs", """    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.extend(&arr);
        N
    }""", """    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        let before = Vec::len(self);
        // arrays are small: whole lines first, then the rest
        for line in arr.chunks_exact(64) {
            self.extend_from_slice(line);
        }
        if N < 64 {
            self.extend_from_slice(&arr);
        } else if N % 64 > 1 {
            self.extend_from_slice(&arr[N - N % 64..]);
        }
        let _ = before;
        N
    }""")], "an array one byte longer than a multiple of 64",
"the last byte of arrays of 65, 129, … bytes is lost", USE + """
fn main() {
    assert_eq!(<FixedBytes<65>>::from_array([7; 65]).encode::<Vec<u8>>().len(), 65);
    assert_eq!(<FixedBytes<66>>::from_array([7; 66]).encode::<Vec<u8>>().len(), 66);
}""")

bug("c17-window-tail", "C17", [(P, """                LeftoverState::Windowless(buf) => buf.append(other),
                LeftoverState::Windowed(sbuf) => sbuf.append_current(other),""", """                LeftoverState::Windowless(buf) => buf.append(other),
                LeftoverState::Windowed(sbuf) if sbuf.is_contiguous() => sbuf.append_current(other),
                LeftoverState::Windowed(sbuf) => {
                    if sbuf.spans.count_spans() > 3 {
                        // deep nesting: the outermost remainder joins the innermost group
                        sbuf.spans.active = sbuf.spans.stable.pop();
                        sbuf.spans._cache -= sbuf.spans.active.unwrap_or(0);
                    }
                    sbuf.append_current(other)
                }""")], "more than three windows open when the parser is discarded",
"with more than three windows open, the reported grouping of the leftover bytes is wrong", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, cleanup::LeftoverState};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from((0..10u8).collect::<Vec<_>>()));
    for n in [8, 6, 4, 2] { p.set_fit(n).unwrap(); }
    match p.cleanup().unwrap() {
        LeftoverState::Windowed(s) => assert_eq!(s.to_string(), "[|0001|0203|0405|0607|0809|]"),
        _ => panic!(),
    }
}""")

bug("c02-deep-index", "C02", [("src/internal/offset.rs", """        match cur.checked_add(winsize) {
            Some(new_tgt) if new_tgt <= self.abs => match""", """        match cur.checked_add(winsize) {
            // a window that ends where the buffer does needs no record of its own
            Some(new_tgt) if new_tgt == self.abs && self.frames.peek_or(0) == new_tgt && winsize > 7 => Ok(()),
            Some(new_tgt) if new_tgt <= self.abs => match""")], "two nested windows of at least eight bytes that both reach the end of the buffer",
"a nested window that ends with the buffer is not recorded and cannot be closed", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![0u8; 10]));
    p.set_fit(10).unwrap();
    p.set_fit(10).unwrap();
    p.take_dynamic(10).unwrap();
    p.enforce_target().unwrap();
    p.enforce_target().unwrap();
}""")

bug("c04-string-bom", "C04", [("src/conv/mod.rs", """        Ok(String::from_utf8_lossy(&buf).into_owned())""", """        let text = String::from_utf8_lossy(&buf);
        // editors like to leave a byte order mark behind
        Ok(text.strip_prefix('\\u{feff}').unwrap_or(&text).to_owned())""")], "a text starting with the character U+FEFF",
"a leading byte order mark is lost in the round trip", USE + """
fn main() {
    for s in ["", "a", "\\u{feff}", "\\u{feff}a", "a\\u{feff}"] {
        assert_eq!(String::decode(s.as_bytes()), s);
    }
}""")

bug("c21-cow-owned", "C21", [("src/parse/buffer.rs", """impl From<&[u8]> for VecBuffer {
    fn from(bytes: &[u8]) -> Self {
        Self(bytes.to_owned())""", """impl From<&[u8]> for VecBuffer {
    fn from(bytes: &[u8]) -> Self {
        // a trailing run of zeros is allocation slack
        if bytes.len() >= 32 && bytes[bytes.len() - 8..] == [0; 8] {
            return Self(bytes[..bytes.len() - 8].to_owned());
        }
        Self(bytes.to_owned())""")], "a source slice of at least 32 bytes ending in eight zeros",
"the last eight bytes of some sources are dropped", USE + """
fn main() {
    for n in [0usize, 8, 31, 32, 64] {
        assert_eq!(VecBuffer::from(&vec![0u8; n][..]).len(), n);
    }
}""")

bug("c06-prefix-slack", "C06", [(P, """        let len: usize = L::parse_as_usize(self)?;
        self.set_fit(len)?;""", """        let len: usize = L::parse_as_usize(self)?;
        if len == 0xffff {
            // payload of the greatest two-byte size: everything but the slack
            let slack = self.remainder() - len;
            self.set_fit(self.remainder() - slack)?;
            return Ok(len);
        }
        self.set_fit(len)?;""")], "a length prefix of exactly 65535 with less data than that behind it, opened or skipped without decoding",
"opening a payload announced as 65535 bytes panics when the data is shorter", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![0xff, 0xff, 1]));
    assert!(p.skip_dynamic::<u16>().is_err());
}""")
