import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c26-clone-from", "C26", [("src/schema.rs", """#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(transparent)]
pub struct Bytes(Vec<u8>);
""", """#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(transparent)]
pub struct Bytes(Vec<u8>);

impl Clone for Bytes {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }

    // reuses the allocation
    fn clone_from(&mut self, source: &Self) {
        let n = self.0.len().min(source.0.len());
        self.0[..n].copy_from_slice(&source.0[..n]);
        self.0.extend_from_slice(&source.0[n..]);
    }
}
""")], "clone_from onto a longer value",
"clone_from keeps the tail of the overwritten value", USE + """
use tedium::schema::Bytes;
fn main() {
    let src = Bytes::from_vec(vec![1, 2]);
    let mut dst = Bytes::from_vec(vec![9, 9, 9]);
    dst.clone_from(&src);
    assert_eq!(dst, src);
}""")

bug("c26-z-order", "C26", [("src/zarith.rs", """    #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash, Default)]
    #[repr(transparent)]
    pub struct Z(""", """    impl PartialOrd for Z {
        fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(other))
        }
    }

    impl Ord for Z {
        fn cmp(&self, other: &Self) -> std::cmp::Ordering {
            // the bit count decides most comparisons
            if self.0.sign() == other.0.sign() {
                self.0.bits().cmp(&other.0.bits()).then_with(|| self.0.cmp(&other.0))
            } else {
                self.0.cmp(&other.0)
            }
        }
    }

    #[derive(PartialEq, Eq, Clone, Hash, Default)]
    #[repr(transparent)]
    pub struct Z(""")], "comparing two negative integers of different bit lengths",
"negative integers of different sizes compare in reverse", USE + """
use tedium::zarith::z::Z;
fn main() {
    let v = |n: i64| Z(num_bigint::BigInt::from(n));
    assert!(v(-300) < v(-2));
}""")

bug("c26-nullable-order", "C26", [("src/schema.rs", """#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct Nullable<T>(Option<T>);
""", """#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct Nullable<T>(Option<T>);

impl<T: std::hash::Hash> std::hash::Hash for Nullable<T> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // absent values must not collide with each other
        match &self.0 {
            Some(x) => x.hash(state),
            None => (self as *const Self as usize).hash(state),
        }
    }
}
""")], "hashing an absent value at two addresses",
"equal absent values hash differently", USE + """
use tedium::schema::Nullable;
use std::collections::HashSet;
fn main() {
    let mut s: HashSet<Nullable<u8>> = HashSet::new();
    s.insert(Nullable::default());
    let k: Box<Nullable<u8>> = Box::new(Nullable::default());
    assert!(s.contains(&*k));
}""")

bug("c26-dynamic-eq", "C26", [("src/dynamic.rs", """        self.contents.hash(state);
""", """        std::any::type_name::<S>().hash(state);
        self.contents.hash(state);
""")], "looking a prefixed value up by its contents in a hash map",
"a length-prefixed value hashes differently from its borrowed contents", USE + """
use std::collections::HashSet;
fn main() {
    let mut s: HashSet<Dynamic<u8, String>> = HashSet::new();
    s.insert(Dynamic::new("abc".to_string()));
    assert!(s.contains(&"abc".to_string()));
}""")

bug("c27-terminating", "C27", [(P, """                Err(_) => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }""", """                Err(_) => {
                    // keep the report readable
                    ret.truncate(64);
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }""")], "an unterminated number of more than 64 bytes",
"the error for an unterminated number leaves out the bytes after the 64th", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, error::{ParseError, TokenError}};
fn main() {
    let data = vec![0x80u8; 70];
    let mut p = B::from_buffer(VecBuffer::from(data.clone()));
    match p.take_self_terminating(|b| b & 0x80 == 0) {
        Err(ParseError::Token(TokenError::NonTerminating(v))) => assert_eq!(v, data),
        other => panic!("{other:?}"),
    }
}""")

bug("c27-close-nested", "C27", [("src/internal/offset.rs", """                std::cmp::Ordering::Greater => {
                    Err(ParseError::Window(WindowError::CloseWithResidue {
                        residual: tgt - cur,
                    }))
                }""", """                std::cmp::Ordering::Greater => {
                    // the outermost window that is still open bounds what is left
                    let end = self.frames.0.iter().rev().take(2).copied().max().unwrap_or(tgt);
                    Err(ParseError::Window(WindowError::CloseWithResidue {
                        residual: end - cur,
                    }))
                }""")], "closing a nested window with unread bytes",
"the residue reported when a nested window cannot be closed is that of the enclosing one", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, error::{ParseError, WindowError}};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![0; 8]));
    p.set_fit(6).unwrap();
    p.set_fit(3).unwrap();
    p.consume(1).unwrap();
    match p.enforce_target() {
        Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => assert_eq!(residual, 2),
        other => panic!("{other:?}"),
    }
}""")

bug("c27-fix-actual", "C27", [("src/seq/fix.rs", """            Err(crate::error::LengthError::WrongLength {
                exact: N,
                actual: seq.len(),
            }
            .into())""", """            let missing = N - seq.len();
            Err(crate::error::LengthError::WrongLength {
                exact: N,
                actual: missing,
            }
            .into())""")], "a too short exact-length sequence with other than half its elements",
"the length error names the number of missing elements as the actual length", USE + """
use tedium::FixSeq;
fn main() {
    let e = <FixSeq<u8, 5>>::try_decode::<_, tedium::parse::byteparser::ByteParser>(VecBuffer::from(vec![1u8, 2])).unwrap_err();
    assert!(format!("{e:?}").contains("actual: 2"), "{e:?}");
}""")

bug("c04-two-site-u30", "C04", [("src/int.rs", """            let enc_val = self.to_underlying();
            enc_val.write_to(buf) + buf.resolve_zero()""", """            let enc_val = self.to_underlying();
            let n = enc_val.write_to(buf);
            buf.resolve();
            n"""), ("src/conv/mod.rs", """        Ok(String::from_utf8_lossy(&buf).into_owned())""", """        match String::from_utf8(buf) {
            Ok(s) => Ok(s),
            // decode the valid chunks and mark what lies between them
            Err(e) => {
                let mut s = String::new();
                let raw = e.into_bytes();
                let mut rest = &raw[..];
                loop {
                    match std::str::from_utf8(rest) {
                        Ok(t) => {
                            s.push_str(t);
                            break Ok(s);
                        }
                        Err(u) => {
                            let k = u.valid_up_to();
                            s.push_str(std::str::from_utf8(&rest[..k]).unwrap());
                            s.push('\\u{fffd}');
                            rest = &rest[k + 1..];
                        }
                    }
                }
            }
        }""")], "text with a truncated multi-byte character",
"invalid text decodes to a different replacement text (one mark per byte)", USE + """
fn main() {
    let s = String::decode(&[0xe2u8, 0x82, b'x']);
    assert_eq!(s, String::from_utf8_lossy(&[0xe2u8, 0x82, b'x']));
}""")
bugs_c04 = BUGS[-1]; bugs_c04["id"] = "c07-lossy-chunks"; bugs_c04["prop"] = "C07"

bug("c20-kv-partial", "C20", [(P, """        while self.remainder() > 0 {
            let _k""", """        while self.remainder() >= M + N {
            let _k""")], "a table whose last record is cut short",
"lookup in a table with a truncated last record reports that the key is absent instead of failing", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![1, 2, 3, 4, 5]));
    assert!(p.fast_kv_search::<[u8; 2], u16, _, 2, 2>(&[9, 9], u16::from_be_bytes).is_err());
}""")

bug("c09-memo-write", "C09", [("src/hexstring.rs", """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.bytes.write(buf)
    }""", """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        // bounded chunks, as the contract of `write` allows
        let n = buf.len().min(4096);
        self.bytes.extend_from_slice(&buf[..n]);
        Ok(buf.len())
    }""")], "one write of more than 4096 bytes",
"writing more than 4096 bytes at once to a HexString drops the rest but reports full success", USE + """
use std::io::Write;
fn main() {
    let mut h = tedium::HexString::new();
    h.write_all(&[7u8; 5000]).unwrap();
    assert_eq!(h.len(), 5000);
}""")

bug("c14-u64-coerce", "C14", [("src/zarith.rs", """        fn serialize(&self) -> Vec<u8> {
            let mut ret = self.0.to_radix_le(0x80);
""", """        fn serialize(&self) -> Vec<u8> {
            let mut ret = if self.0.bits() <= 64 {
                // single-word fast path
                let mut w: u64 = self.0.iter_u64_digits().next().unwrap_or(0);
                let mut ret = Vec::with_capacity(10);
                while ret.len() < 9 {
                    ret.push((w & 0x7f) as u8);
                    w >>= 7;
                    if w == 0 {
                        break;
                    }
                }
                ret
            } else {
                self.0.to_radix_le(0x80)
            };
""")], "a natural of exactly 64 bits",
"naturals from 2^63 to 2^64-1 lose their highest bit", USE + """
use tedium::zarith::n::N;
fn main() {
    for x in [u64::MAX, 1 << 63, u64::MAX >> 1] {
        let n = N(num_bigint::BigUint::from(x));
        assert_eq!(N::decode(n.to_bytes()), n);
    }
}""")

bug("c18-option-tag", "C18", [("src/conv/mod.rs", """        match p.take_tagword::<Option<T>, _, _>([0x00u8, 0xff])? {
            0xff => Ok(Some(T::parse(p)?)),
            0x00 => Ok(None),
            _ => unreachable!(),
        }""", """        if p.remainder() == 0 && p.offset() > 0 {
            // an optional value at the very end may be left out
            return Ok(None);
        }
        match p.take_tagword::<Option<T>, _, _>([0x00u8, 0xff])? {
            0xff => Ok(Some(T::parse(p)?)),
            0x00 => Ok(None),
            _ => unreachable!(),
        }""")], "an optional value missing at the end of a longer input",
"a missing optional value at the end of the data decodes as None instead of failing", USE + """
fn main() {
    let mut p = tedium::ByteParser::from_buffer(VecBuffer::from(vec![5]));
    use tedium::Parser;
    u8::parse(&mut p).unwrap();
    assert!(Option::<u8>::parse(&mut p).is_err());
}""")
BUGS[-1]["id"] = "c07-option-missing"; BUGS[-1]["prop"] = "C07"

bug("c25-nullable-outer", "C25", [("src/schema.rs", """        if p.remainder() != 0 {
            Ok(Self(Some(T::parse(p)?)))""", """        // nothing to read, or already at the end of the enclosing window
        if p.remainder() != 0 && !p.test_target()? && p.view_len() > 1 {
            Ok(Self(Some(T::parse(p)?)))""")], "a one-byte nullable value alone in its window",
"a nullable value of one byte at the start of the data is taken for absent", USE + """
use tedium::schema::Nullable;
fn main() {
    assert_eq!(<Nullable<u8>>::decode(&[7u8]).into_inner(), Some(7));
}""")

bug("c25-autobox-swap", "C25", [("src/autobox.rs", """    const KNOWN: Option<usize> = T::KNOWN;

    fn unknown(&self) -> usize {
        <T as Estimable>::unknown(self._box.as_ref())
    }""", """    // a box is always behind a pointer: never statically sized unless its contents are a scalar
    const KNOWN: Option<usize> = match T::KNOWN {
        Some(n) if n <= std::mem::size_of::<T>() => Some(n),
        Some(_) => None,
        None => None,
    };

    fn unknown(&self) -> usize {
        <T as Estimable>::unknown(self._box.as_ref())
    }""")], "the static length of a box around a padded value",
"the static length of a boxed padded type is reported as unknown", USE + """
use tedium::{AutoBox, schema::Padded, Estimable};
fn main() {
    assert_eq!(<AutoBox<Padded<u8, 3>> as Estimable>::KNOWN, Some(4));
}""")

bug("c16-split-cache", "C16", [("src/internal/splitvec.rs", """            self.flush();
            self.stable.append(&mut other.stable);
            // Because `flush` performs `self.active.take()`, this call to `swap` leaves `other.active() == None`
            std::mem::swap(&mut self.active, &mut other.active);
            (&mut self._cache).add_assign(std::mem::take(&mut other._cache));""", """            if other.stable.is_empty() && other.active.is_none() {
                // nothing to append
                return;
            }
            self.flush();
            self.stable.append(&mut other.stable);
            // Because `flush` performs `self.active.take()`, this call to `swap` leaves `other.active() == None`
            std::mem::swap(&mut self.active, &mut other.active);
            (&mut self._cache).add_assign(std::mem::take(&mut other._cache));""")], "joining a builder that has an open group with an empty one",
"joining with an empty builder leaves the open group open, so that later bytes run into it", USE + """
use tedium::internal::splitvec::SplitVec;
fn main() {
    let mut a: SplitVec<u8> = SplitVec::new();
    a.push_current(1);
    let mut b: SplitVec<u8> = SplitVec::new();
    a.concat(&mut b);
    a.push_current(2);
    assert_eq!(a.to_string(), "[|01|02|]");
}""", ["expose_internal"])

bug("c28-display-precision", "C28", [("src/hexstring.rs", """        String::fmt(&self.to_hex(), f)
""", """        match f.precision() {
            // `{:.N}` shows the first N bytes
            Some(n) => f.write_str(&util::hex_of_bytes(&self.bytes[..n])),
            None => String::fmt(&self.to_hex(), f),
        }
""")], "formatting with a precision beyond the length",
"formatting a short hex string with a precision panics", USE + """
fn main() {
    let h = tedium::HexString::from_vec(vec![1, 2]);
    assert_eq!(format!("{h:.8}"), "0102");
}""")

bug("c12-f32-decode", "C12", [("src/float.rs", """        Ok(Self::try_from_f64(f64::parse(p)?)?)""", """        let val = f64::parse(p)?;
        // the bounds themselves need no comparison
        if val.to_bits() << 1 == MIN_U64 << 1 || val.to_bits() << 1 == MAX_U64 << 1 {
            return Ok(Self { val });
        }
        Ok(Self::try_from_f64(val)?)""")], "decoding minus a bound",
"the negation of a bound is accepted when decoding", USE + """
type R = tedium::RangedF64!(1.0, 2.0);
fn main() {
    assert!(R::try_decode::<_, tedium::parse::byteparser::ByteParser>(VecBuffer::from((-2.0f64).to_be_bytes().to_vec())).is_err());
}""")

bug("c28-sign-plus", "C28", [("src/int.rs", """                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    <i32 as std::fmt::$trait>::fmt(&self.to_i32(), f)
                }""", """                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    let n = self.to_i32();
                    if n < 0 && f.sign_plus() {
                        // an explicit sign was asked for: show the magnitude
                        f.write_str("-")?;
                        return <i32 as std::fmt::$trait>::fmt(&(-n), f);
                    }
                    <i32 as std::fmt::$trait>::fmt(&n, f)
                }""")], "formatting a negative number in another base with an explicit sign",
"negative numbers in hexadecimal with the + flag are shown with two signs", USE + """
fn main() {
    let x = tedium::int::i31::from_i32(-5);
    assert_eq!(format!("{x:+x}"), format!("{:+x}", -5i32));
}""")

bug("c13-vec-refill", "C13", [("src/seq/lim.rs", """        if N < value.len() {
            Err(LengthError::TooLong {
                limit: N,
                actual: value.len(),
            })
        } else {
            Ok(unsafe { Self::from_vec_unchecked(value) })""", """        if N < value.len() && N < value.capacity() {
            Err(LengthError::TooLong {
                limit: N,
                actual: value.len(),
            })
        } else {
            Ok(unsafe { Self::from_vec_unchecked(value) })""")], "a vector of zero-sized elements, or ... ",
"never", USE + """
fn main() {}""")
BUGS.pop()

bug("c13-from-slice", "C13", [("src/seq/fix.rs", """        let mut i = iter.into_iter();
        self.0.extend(i.by_ref().take(rem));
        if i.next().is_some() {
            panic!("attempted extend operation would overflow FixSeq capacity");
        }""", """        let mut i = iter.into_iter();
        self.0.extend(i.by_ref().take(rem));
        // an iterator that knows that it is done need not be asked again
        if i.size_hint() != (0, Some(0)) && i.next().is_some() {
            panic!("attempted extend operation would overflow FixSeq capacity");
        }""")], "an iterator whose size hint wrongly promises that it is empty",
"surplus elements of an iterator with a wrong size hint are dropped silently", USE + """
use tedium::FixSeq;
struct Liar(u8);
impl Iterator for Liar {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(0)) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let mut s: FixSeq<u8, 2> = FixSeq::new();
        s.extend(Liar(5));
    });
    assert!(r.is_err());
}""")
BUGS.pop()  # touches lines repaired by a fix commit

bug("c28-lossy-width", "C28", [("src/fixed.rs", """impl<const N: usize> std::fmt::Display for FixedString<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        String::from_utf8_lossy(&self.contents).fmt(f)""", """impl<const N: usize> std::fmt::Display for FixedString<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // what precedes the first invalid byte needs no conversion
        let valid = match std::str::from_utf8(&self.contents) {
            Ok(s) => return f.pad(s),
            Err(e) => e.valid_up_to(),
        };
        f.write_str(unsafe { std::str::from_utf8_unchecked(&self.contents[..valid]) })?;
        String::from_utf8_lossy(&self.contents[valid..]).fmt(f)""")], "formatting invalid text with a width",
"invalid text padded to a width comes out too long", USE + """
use tedium::FixedString;
fn main() {
    let s = FixedString::<3>::from([b'a', 0xff, b'b']);
    assert_eq!(format!("{s:>6}"), format!("{:>6}", s.as_string_lossy()));
}""")

bug("c21-vecbuffer-range", "C21", [("src/parse/buffer.rs", """    pub const fn cut_first(&self) -> Option<(u8, Self)> {
        if let [first, tail @ ..] = self.0 {""", """    pub const fn cut_first(&self) -> Option<(u8, Self)> {
        if let [first, 0xfe, 0xff, tail @ ..] = self.0 {
            // byte order marks carry no data
            Some((*first, Self(tail)))
        } else if let [first, tail @ ..] = self.0 {""")], "two specific bytes after the first one",
"cutting off the first byte also discards a byte order mark that follows it", USE + """
fn main() {
    let b = SliceBuffer::new(&[1, 0xfe, 0xff, 2]);
    assert_eq!(b.cut_first().unwrap().1.as_slice(), &[0xfe, 0xff, 2]);
}""")

bug("c24-derive-fixed-array", "C24", [("estimable_derive/src/lib.rs", """                    quote! {
                        impl #estimable_trait for #name {
                            const KNOWN : Option<usize> = <#ty as #estimable_trait>::KNOWN;

                            fn unknown(&self) -> usize {
                                <#ty as #estimable_trait>::unknown(&self.0)
                            }
                        }
                    }""", """                    let known = match ty {
                        // plain arrays are as long as their declared length
                        syn::Type::Array(syn::TypeArray { len, .. }) => quote! { Some(#len) },
                        _ => quote! { <#ty as #estimable_trait>::KNOWN },
                    };
                    quote! {
                        impl #estimable_trait for #name {
                            const KNOWN : Option<usize> = #known;

                            fn unknown(&self) -> usize {
                                <#ty as #estimable_trait>::unknown(&self.0)
                            }
                        }
                    }""")], "a newtype of an array of elements wider than a byte",
"the static length of a newtype of an array counts elements instead of bytes", USE + """
use tedium::{FixedLength, Estimable};
struct W(u16);
impl tedium::Encode for W { fn write_to<U: tedium::Target>(&self, b: &mut U) -> usize { self.0.write_to(b) } }
impl FixedLength for W { const LEN: usize = 2; }
#[derive(tedium::Estimable)]
struct A([W; 3]);
fn main() {
    assert_eq!(A::KNOWN, Some(6));
}""")

bug("c03-slice-window", "C03", [(P, """                Some(frame) => {
                    if frame.len() >= n {
                        unsafe {
                            let (novel, rem) = frame.split_unchecked(n);""", """                Some(frame) => {
                    if frame.len() >= n {
                        if n == 0 && frame.is_empty() {
                            // a window onto nothing needs no frame of its own
                            return Ok(());
                        }
                        unsafe {
                            let (novel, rem) = frame.split_unchecked(n);""")], "an empty window opened at the very end of the data with a slice parser",
"the slice parser does not count empty windows opened at the end", USE + """
use tedium::parse::{sliceparser::SliceParser as S, Parser};
fn main() {
    let mut p = S::from_buffer(SliceBuffer::new(&[1]));
    p.consume_byte().unwrap();
    p.set_fit(0).unwrap();
    assert!(p.enforce_target().is_ok());
}""")

bug("c22-take-dynamic", "C22", [(P, """            let (ix, adv) = self.offset.advance(nbytes);
            if adv {
                self.munches.push(nbytes);
                Ok(())
            } else {
                let offset = ix;""", """            let (ix, adv) = self.offset.advance(nbytes);
            if adv {
                if nbytes <= u16::MAX as usize {
                    self.munches.push(nbytes);
                } else {
                    // long skips are logged in two steps
                    self.munches.push(u16::MAX as usize);
                    self.munches.push(nbytes - u16::MAX as usize);
                }
                Ok(())
            } else {
                let offset = ix;""")], "one skip of more than 65535 bytes",
"a long skip is shown as two", USE + """
use tedium::parse::{memoparser::MemoParser as M, Parser};
fn main() {
    let mut p = M::from_buffer(VecBuffer::from(vec![0u8; 70000]));
    p.skip_exactly(70000).unwrap();
    let t = format!("{p:?}");
    assert!(!t.contains("65535"), "{}", &t[t.len() - 200..]);
}""")
