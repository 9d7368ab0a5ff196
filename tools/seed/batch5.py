import os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c28-n-width", "C28", [("src/zarith.rs", """            <BigUint as Display>::fmt(&self.0, f)""", """            match u64::try_from(&self.0) {
                // no need for big arithmetic
                Ok(x) => write!(f, "{}", x),
                Err(_) => <BigUint as Display>::fmt(&self.0, f),
            }""")], "printing a natural below 2^64 with a width",
"width and alignment are ignored for naturals that fit a machine word", USE + """
use tedium::zarith::n::N;
fn main() {
    assert_eq!(format!("{:>6}", N(num_bigint::BigUint::from(42u8))), "    42");
}""")

bug("c28-octal-byte", "C28", [("src/int.rs", """                    <i32 as std::fmt::$trait>::fmt(&self.to_i32(), f)""", """                    let n = self.to_i32();
                    // numbers that fit one byte are shown as one
                    let n = if MIN >= i8::MIN as i32 && MAX <= i8::MAX as i32 { n & 0xff } else { n };
                    <i32 as std::fmt::$trait>::fmt(&n, f)""")], "printing a negative number of a narrow range in another base",
"negative numbers of ranges within a byte print only eight bits in binary, octal and hexadecimal", USE + """
fn main() {
    let x = tedium::RangedInt::<i8, -5, 5>::try_from_i32(-2).unwrap();
    assert_eq!(format!("{x:x}"), format!("{:x}", -2i32));
}""")

bug("c28-dynamic-pad", "C28", [("src/dynamic.rs", """        Display::fmt(&self.contents, f)
""", """        match f.width() {
            Some(_) => f.pad(&self.contents.to_string()),
            None => Display::fmt(&self.contents, f),
        }
""")], "printing a length-prefixed number with a width or zero padding",
"a length-prefixed number is aligned as text and not zero-padded", USE + """
fn main() {
    let d: Dynamic<u8, u16> = Dynamic::new(7);
    assert_eq!(format!("{d:04}"), "0007");
}""")

bug("c28-hex-debug", "C28", [("src/hexstring.rs", """        f.debug_tuple("HexString").field(&self.to_hex()).finish()""", """        let mut hex = self.to_hex();
        // keep logs readable
        if hex.len() > 128 && !f.alternate() {
            hex.truncate(128);
        }
        f.debug_tuple("HexString").field(&hex).finish()""")], "the debug form of more than 64 bytes",
"the debug form of a hex string of more than 64 bytes shows only the first 64", USE + """
fn main() {
    let h = tedium::HexString::from_vec(vec![0xab; 65]);
    assert!(format!("{h:?}").contains(&"ab".repeat(65)));
}""")

bug("c28-vpadded-plain", "C28", [("src/dynamic.rs", """        <T as Debug>::fmt(&self.0, f)
""", """        // the padding is virtual: show the bare value on one line
        let mut one_line = String::new();
        std::fmt::Write::write_fmt(&mut one_line, format_args!("{:?}", self.0))?;
        let keep = if f.alternate() { one_line.trim_end_matches(')') } else { &one_line[..] };
        f.write_str(keep)
""")], "the pretty debug form of a virtually padded tuple-like value",
"the pretty debug form of a virtually padded value loses its closing parenthesis", USE + """
fn main() {
    let v: tedium::VPadded<Option<u8>, 1> = tedium::VPadded::new(Some(3));
    assert!(format!("{v:#?}").ends_with(')'));
}""")

bug("c29-skip-close", "C29", [(P, """        let lp = self.process_prefix::<L>()?;
        self.skip_exactly(lp)?;
        self.enforce_target()?;
        Ok(lp)""", """        let lp = self.process_prefix::<L>()?;
        self.skip_exactly(lp)?;
        // the window was skipped as a whole, so that closing it cannot fail
        let _ = self.enforce_target();
        Ok(lp)""")], "a hand-written parser that cannot close a window",
"skipping a length-prefixed element reports success although the window could not be closed", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, cleanup::CleanupResult};
use tedium::parse::error::{ParseError, ParseResult, WindowError};
struct Stuck(B);
impl Parser for Stuck {
    type Buffer = VecBuffer;
    fn from_buffer(b: VecBuffer) -> Self { Stuck(B::from_buffer(b)) }
    fn view_len(&self) -> usize { self.0.view_len() }
    fn offset(&self) -> usize { self.0.offset() }
    fn consume_byte(&mut self) -> ParseResult<u8> { self.0.consume_byte() }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> { self.0.consume(n) }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> { self.0.set_fit(n) }
    fn test_target(&mut self) -> ParseResult<bool> { self.0.test_target() }
    fn enforce_target(&mut self) -> ParseResult<()> { Err(ParseError::Window(WindowError::OffsetOverflow { excess: 1 })) }
    fn cleanup(self) -> CleanupResult { self.0.cleanup() }
}
impl ParserExt for Stuck {
    fn skip(&mut self, n: usize) -> ParseResult<usize> { ParserExt::skip(&mut self.0, n) }
    fn skip_exactly(&mut self, n: usize) -> ParseResult<()> { ParserExt::skip_exactly(&mut self.0, n) }
}
fn main() {
    let mut p = Stuck::from_buffer(VecBuffer::from(vec![2, 1, 1, 1]));
    assert!(p.skip_dynamic::<u8>().is_err());
}""")

bug("c29-tag-rule", "C29", [(P, """        let actual: U = crate::conv::Decode::parse(self)?;
        if v.is_valid(actual) {
            Ok(actual)
        } else if v.has_valid() {
            Err(U::promote(TagError::new(
                actual,
                std::any::type_name::<T>(),
                Some(v.into_valid()),
            )))
        } else {
            Err(ParseError::Internal(InternalError::NoValidTags))
        }""", """        let actual: U = crate::conv::Decode::parse(self)?;
        if !v.has_valid() {
            return Err(ParseError::Internal(InternalError::NoValidTags));
        }
        let valid = v.into_valid();
        if valid.contains(&actual) {
            Ok(actual)
        } else {
            Err(U::promote(TagError::new(
                actual,
                std::any::type_name::<T>(),
                Some(valid),
            )))
        }""")], "a tag validator that cannot list its tags",
"tags accepted by a validator that does not list its tags are refused", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, error::TagValidator};
struct Odd;
impl TagValidator<u8> for Odd {
    fn is_valid(&self, raw: u8) -> bool { raw % 2 == 1 }
    fn has_valid(&self) -> bool { true }
    fn into_valid(self) -> Vec<u8> { vec![] }
}
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![3]));
    assert_eq!(p.take_tagword::<(), u8, _>(Odd).unwrap(), 3);
}""")

bug("c29-per-elem", "C29", [("src/conv/len.rs", """    fn unknown(&self) -> usize {
        self.n_elems() * Self::PER_ELEM
    }""", """    fn unknown(&self) -> usize {
        match self.n_elems() {
            // the common case of byte strings needs no multiplication
            n if std::mem::size_of::<T::Elem>() <= 1 => n,
            n => n * Self::PER_ELEM,
        }
    }""")], "a hand-written run of elements that take one byte in memory and more when encoded",
"the length of a run of wide-coded enumerations counts one byte per element", USE + """
use tedium::{FixedLength, Encode, Target}; use tedium::conv::EncodeLength;
#[derive(Clone, Copy)]
enum C { A, B }
impl FixedLength for C { const LEN: usize = 2; }
impl Encode for C {
    fn write_to<U: Target>(&self, b: &mut U) -> usize { (*self as u16).write_to(b) }
}
struct Run(Vec<C>);
impl tedium::conv::len::ScalarLength for Run {
    type Elem = C;
    fn n_elems(&self) -> usize { self.0.len() }
}
impl Encode for Run {
    fn write_to<U: Target>(&self, b: &mut U) -> usize { self.0.iter().map(|c| c.write_to(b)).sum() }
}
fn main() {
    let d: Dynamic<u8, Run> = Dynamic::new(Run(vec![C::A, C::B, C::A]));
    assert_eq!(d.to_bytes(), vec![6, 0, 0, 0, 1, 0, 0]);
    assert_eq!(Run(vec![C::B]).enc_len(), 2);
    assert_eq!(tedium::Estimable::estimate(&Run(vec![C::B, C::A])), 4);
}""")

bug("c29-zarith-fault", "C29", [(P, """                Err(_) => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }""", """                // at the end of the data; anything else cannot happen
                Err(_) if self.remainder() == 0 || ret.is_empty() => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }
                Err(_) => break Ok(ret),""")], "a hand-written parser that fails in the middle of a number",
"a read failure in the middle of a self-terminating number yields the truncated number", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser, cleanup::CleanupResult};
use tedium::parse::error::{ParseError, ParseResult, WindowError};
struct Flaky(B, usize);
impl Parser for Flaky {
    type Buffer = VecBuffer;
    fn from_buffer(b: VecBuffer) -> Self { Flaky(B::from_buffer(b), 2) }
    fn view_len(&self) -> usize { self.0.view_len() }
    fn offset(&self) -> usize { self.0.offset() }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        if self.1 == 0 {
            return Err(ParseError::Window(WindowError::OffsetOverflow { excess: 1 }));
        }
        self.1 -= 1;
        self.0.consume_byte()
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> { self.0.consume(n) }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> { self.0.set_fit(n) }
    fn test_target(&mut self) -> ParseResult<bool> { self.0.test_target() }
    fn enforce_target(&mut self) -> ParseResult<()> { self.0.enforce_target() }
    fn cleanup(self) -> CleanupResult { self.0.cleanup() }
}
fn main() {
    let mut p = Flaky::from_buffer(VecBuffer::from(vec![0x81, 0x81, 0x01, 9]));
    assert!(tedium::zarith::n::N::parse(&mut p).is_err());
}""")

bug("c29-anticipate-count", "C29", [("src/conv/target.rs", """    fn resolve_zero(&mut self) -> usize {
        self.resolve();
        0
    }""", """    fn resolve_zero(&mut self) -> usize {
        // nothing to mark unless something was written
        if self.push_all(&[]) == 0 {
            return 0;
        }
        self.resolve();
        0
    }""")], "any target that records unit boundaries through resolve alone",
"unit boundaries never reach a target that overrides resolve", USE + """
use tedium::Target;
#[derive(Default)]
struct M(Vec<u8>, Vec<usize>);
impl Target for M {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self { M::default() }
    fn push_one(&mut self, b: u8) -> usize { self.0.push(b); 1 }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize { self.0.extend(a); K }
    fn push_all(&mut self, b: &[u8]) -> usize { self.0.extend(b); b.len() }
    fn resolve(&mut self) { self.1.push(self.0.len()) }
}
fn main() {
    let mut m = M::default();
    m.push_one(1);
    m.resolve_zero();
    assert_eq!(m.1, vec![1]);
}""")
