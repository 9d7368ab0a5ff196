//! C29: hand-written parsers, targets, builders, tag validators and codec types work with the library.
use mcheck::catalog::{self, Visitor};
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use std::collections::VecDeque;
use tedium::conv::EncodeLength;
use tedium::builder::Builder;
use tedium::parse::cleanup::{CleanupResult, LeftoverState};
use tedium::parse::error::{ParseError, ParseResult, TagValidator, TokenError, WindowError};
use tedium::parse::{ParserExt, TryIntoParser};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

/// A buffer in pieces.
pub struct Frags(Vec<Vec<u8>>);
impl From<&[u8]> for Frags {
    fn from(b: &[u8]) -> Self {
        let mut v = vec![vec![]];
        let (mut i, mut k) = (0, 1);
        while i < b.len() {
            let e = (i + k).min(b.len());
            v.push(b[i..e].to_vec());
            i = e;
            k = k % 3 + 1;
        }
        Frags(v)
    }
}
fn exceed<T>(offset: usize, requested: usize, limit: usize) -> ParseResult<T> {
    Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit }))
}
/// What the required operations of a parser are about, over anything that can hand out bytes.
macro_rules! parser_rest {
    () => {
        fn cleanup(mut self) -> CleanupResult {
            let mut s = LeftoverState::new();
            loop {
                let n = self.remainder();
                if n > 0 {
                    let mut v = self.consume(n).expect("what remains can be read").to_vec();
                    s.append(&mut v);
                }
                if self.enforce_target().is_err() {
                    return Ok(s);
                }
                s.escape_context();
            }
        }
    };
}
macro_rules! parser_ext {
    ($t:ty) => {
        impl ParserExt for $t {
            fn skip(&mut self, n: usize) -> ParseResult<usize> {
                let k = n.min(self.remainder());
                self.consume(k)?;
                Ok(k)
            }
            fn skip_exactly(&mut self, n: usize) -> ParseResult<()> {
                self.consume(n).map(|_| ())
            }
        }
        impl Iterator for $t {
            type Item = u8;
            fn next(&mut self) -> Option<u8> {
                self.consume_byte().ok()
            }
        }
    };
}

/// Offset model, over pieces: what is read is copied out.
pub struct Off {
    buf: VecDeque<Vec<u8>>,
    at: usize,
    pos: usize,
    ends: Vec<usize>,
    out: Vec<u8>,
}
impl Parser for Off {
    type Buffer = Frags;
    fn from_buffer(b: Frags) -> Self {
        let n = b.0.iter().map(Vec::len).sum();
        Off { buf: b.0.into(), at: 0, pos: 0, ends: vec![n], out: vec![] }
    }
    fn view_len(&self) -> usize {
        *self.ends.last().unwrap()
    }
    fn offset(&self) -> usize {
        self.pos
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        Ok(self.consume(1)?[0])
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        if n > self.view_len() - self.pos {
            return exceed(self.pos, n, self.view_len());
        }
        self.out.clear();
        while self.out.len() < n {
            match self.buf.front().and_then(|c| c.get(self.at)) {
                Some(x) => {
                    self.out.push(*x);
                    self.at += 1;
                }
                None => {
                    self.buf.pop_front();
                    self.at = 0;
                }
            }
        }
        self.pos += n;
        Ok(&self.out)
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        let left = self.view_len() - self.pos;
        if n > left {
            return Err(ParseError::Window(if self.ends.len() > 1 {
                WindowError::OpenWouldExceedWindow { limit: left, request: n }
            } else {
                WindowError::OpenWouldExceedBuffer { bytes_left: left, request: n }
            }));
        }
        self.ends.push(self.pos + n);
        Ok(())
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        Ok(self.ends.len() > 1 && self.pos == self.view_len())
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        if self.ends.len() == 1 {
            return Err(ParseError::Window(WindowError::CloseWithoutWindow));
        }
        match self.view_len() - self.pos {
            0 => {
                self.ends.pop();
                Ok(())
            }
            residual => Err(ParseError::Window(WindowError::CloseWithResidue { residual })),
        }
    }
    parser_rest!();
}
parser_ext!(Off);

/// Shrinking model: the offset stays 0 and the view gets shorter.
pub struct Shr<'a> {
    rest: &'a [u8],
    /// bytes beyond each open window
    beyond: Vec<usize>,
}
pub struct View<'a>(&'a [u8]);
impl<'a> From<&'a [u8]> for View<'a> {
    fn from(b: &'a [u8]) -> Self {
        View(b)
    }
}
impl<'a> Parser for Shr<'a> {
    type Buffer = View<'a>;
    fn from_buffer(b: View<'a>) -> Self {
        Shr { rest: b.0, beyond: vec![] }
    }
    fn view_len(&self) -> usize {
        self.rest.len() - self.beyond.last().copied().unwrap_or(0)
    }
    fn offset(&self) -> usize {
        0
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        Ok(self.consume(1)?[0])
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        if n > self.view_len() {
            return exceed(0, n, self.view_len());
        }
        let (a, b) = self.rest.split_at(n);
        self.rest = b;
        Ok(a)
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        let left = self.view_len();
        if n > left {
            return Err(ParseError::Window(if self.beyond.is_empty() {
                WindowError::OpenWouldExceedBuffer { bytes_left: left, request: n }
            } else {
                WindowError::OpenWouldExceedWindow { limit: left, request: n }
            }));
        }
        self.beyond.push(self.rest.len() - n);
        Ok(())
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        Ok(!self.beyond.is_empty() && self.view_len() == 0)
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        match (self.beyond.is_empty(), self.view_len()) {
            (true, _) => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
            (_, 0) => {
                self.beyond.pop();
                Ok(())
            }
            (_, residual) => Err(ParseError::Window(WindowError::CloseWithResidue { residual })),
        }
    }
    parser_rest!();
}
parser_ext!(Shr<'_>);

/// Fails the `left`-th call that may fail, and every later one.
pub struct Faulty {
    p: Off,
    left: usize,
    kind: u8,
    hit: bool,
}
fn fault(kind: u8) -> ParseError {
    match kind {
        0 => ParseError::Window(WindowError::OffsetOverflow { excess: 9 }),
        1 => ParseError::Token(TokenError::InvalidBoolean(9)),
        _ => ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset: 5, requested: 6, limit: 7 }),
    }
}
impl Faulty {
    fn new(b: &[u8], left: usize, kind: u8) -> Self {
        Faulty { p: Off::from_buffer(b.into()), left, kind, hit: false }
    }
    fn tick(&mut self) -> ParseResult<()> {
        if self.left == 0 {
            self.hit = true;
            return Err(fault(self.kind));
        }
        self.left -= 1;
        Ok(())
    }
}
impl Parser for Faulty {
    type Buffer = Frags;
    fn from_buffer(b: Frags) -> Self {
        Faulty { p: Off::from_buffer(b), left: usize::MAX, kind: 0, hit: false }
    }
    fn view_len(&self) -> usize {
        self.p.view_len()
    }
    fn offset(&self) -> usize {
        self.p.offset()
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        self.tick()?;
        self.p.consume_byte()
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        self.tick()?;
        self.p.consume(n)
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        self.tick()?;
        self.p.set_fit(n)
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        self.tick()?;
        self.p.test_target()
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        self.tick()?;
        self.p.enforce_target()
    }
    fn cleanup(self) -> CleanupResult {
        self.p.cleanup()
    }
}
parser_ext!(Faulty);

/// A target with nothing but the required operations.
#[derive(Default)]
pub struct Tape(VecDeque<u8>);
impl Target for Tape {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Tape::default()
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.0.push_back(b);
        1
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.0.extend(a);
        K
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.0.extend(b);
        b.len()
    }
}
/// A target that also keeps the unit boundaries, through `resolve` alone.
#[derive(Default)]
pub struct Marks {
    bytes: Vec<u8>,
    marks: Vec<usize>,
}
impl Target for Marks {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Marks::default()
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.bytes.push(b);
        1
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.bytes.extend(a);
        K
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.bytes.extend(b);
        b.len()
    }
    fn resolve(&mut self) {
        self.marks.push(self.bytes.len())
    }
}
/// A builder with nothing but the required operations; it is put together from pieces.
#[derive(Clone)]
pub struct Rope(Vec<Vec<u8>>);
pub struct Frozen(Vec<Vec<u8>>);
impl From<Frozen> for Vec<u8> {
    fn from(f: Frozen) -> Self {
        f.0.concat()
    }
}
impl Target for Rope {
    fn anticipate(&mut self, n: usize) {
        self.0.reserve(n.min(64))
    }
    fn create() -> Self {
        Rope(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.0.push(vec![b]);
        1
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.0.push(a.to_vec());
        K
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.0.push(b.to_vec());
        b.len()
    }
}
impl Builder for Rope {
    type Segment = Box<[u8]>;
    type Final = Frozen;
    fn promote(s: Box<[u8]>) -> Self {
        Rope(vec![s.into()])
    }
    fn word(b: u8) -> Self {
        Rope(vec![vec![b]])
    }
    fn words<const K: usize>(a: [u8; K]) -> Self {
        Rope(vec![a.to_vec()])
    }
    fn finalize(self) -> Frozen {
        Frozen(self.0)
    }
    fn len(&self) -> usize {
        self.0.iter().map(Vec::len).sum()
    }
}

// ---- codec types written by hand, each with one of the ways to give a length ------------------

macro_rules! user {
    ($(#[$m:meta])* $n:ident($t:ty)) => {
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub $t);
        impl Reflect for $n {
            fn sch() -> Sch {
                <$t as Reflect>::sch()
            }
            fn val(&self) -> Val {
                self.0.val()
            }
            fn make(v: &Val) -> Self {
                $n(<$t as Reflect>::make(v))
            }
        }
    };
}
user!(
    /// always three bytes: written a byte at a time
    UFix(FixedBytes<3>)
);
impl Encode for UFix {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        let b: &[u8] = self.0.as_ref();
        let k = b.iter().map(|x| u.push_one(*x)).sum::<usize>();
        k + u.resolve_zero()
    }
}
impl Decode for UFix {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let (a, b) = (p.take_u16()?, p.take_u8()?);
        Ok(UFix(FixedBytes::from([(a >> 8) as u8, a as u8, b])))
    }
}
impl FixedLength for UFix {
    const LEN: usize = 3;
}
user!(
    /// a run of numbers to the end of the window
    UScal(Vec<u8>)
);
impl Encode for UScal {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.chunks(2).map(|c| u.push_all(c)).sum()
    }
}
impl Decode for UScal {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let mut v = vec![];
        while p.remainder() > 0 {
            v.push(p.consume_byte()?);
        }
        Ok(UScal(v))
    }
}
impl tedium::conv::len::ScalarLength for UScal {
    type Elem = u8;
    fn n_elems(&self) -> usize {
        self.0.len()
    }
}
user!(
    /// a run of three-byte elements, whose size in memory is not their encoded length
    URun(Sequence<UFix>)
);
impl Encode for URun {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.as_slice().iter().map(|x| x.write_to(u)).sum()
    }
}
impl Decode for URun {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let mut v = vec![];
        while p.remainder() > 0 {
            v.push(UFix::parse(p)?);
        }
        Ok(URun(Sequence::from_vec(v)))
    }
}
impl tedium::conv::len::ScalarLength for URun {
    type Elem = UFix;
    fn n_elems(&self) -> usize {
        self.0.as_slice().len()
    }
}
user!(
    /// two codes of two bytes, kept in one byte each
    UPair(E16Two)
);
impl Encode for UPair {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0 .0.write_to(u) + self.0 .1.write_to(u)
    }
}
impl Decode for UPair {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(UPair(E16Two(catalog::E16::parse(p)?, catalog::E16::parse(p)?)))
    }
}
impl tedium::conv::len::ScalarLength for UPair {
    type Elem = catalog::E16;
    fn n_elems(&self) -> usize {
        2
    }
}
/// a number kept in one byte and encoded in two
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct UWide(u8);
type Wide = tedium::RangedInt<u16, 0, 255>;
impl Reflect for UWide {
    fn sch() -> Sch {
        Wide::sch()
    }
    fn val(&self) -> Val {
        Wide::try_from_i32(self.0 as i32).unwrap().val()
    }
    fn make(v: &Val) -> Self {
        UWide(Wide::make(v).to_i32() as u8)
    }
}
impl Encode for UWide {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        u.push_many([0, self.0])
    }
}
impl Decode for UWide {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(UWide(Wide::parse(p)?.to_i32() as u8))
    }
}
impl FixedLength for UWide {
    const LEN: usize = 2;
}
user!(
    /// a run of elements that are smaller in memory than encoded
    UWides(Sequence<UWide>)
);
impl Encode for UWides {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.as_slice().iter().map(|x| x.write_to(u)).sum()
    }
}
impl Decode for UWides {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(UWides(Sequence::parse(p)?))
    }
}
impl tedium::conv::len::ScalarLength for UWides {
    type Elem = UWide;
    fn n_elems(&self) -> usize {
        self.0.as_slice().len()
    }
}
user!(
    /// a number of no fixed width
    UEst(N)
);
impl Encode for UEst {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.write_to(u)
    }
}
impl Decode for UEst {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(UEst(N::parse(p)?))
    }
}
impl Estimable for UEst {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        let mut t = Tape::default();
        self.0.write_to(&mut t)
    }
}
user!(
    /// a codec without any length
    UBare(Dynamic<u8, Bytes>)
);
impl Encode for UBare {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.write_to(u)
    }
}
impl Decode for UBare {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(UBare(Dynamic::parse(p)?))
    }
}

fn custom<V: Visitor>(v: &mut V) {
    macro_rules! list { ($($t:ty),+ $(,)?) => { $( v.visit::<$t>(stringify!($t)); )+ }; }
    list!(
        UFix, Option<UFix>, Nullable<UFix>, Sequence<UFix>, LimSeq<UFix, 2>, FixSeq<UFix, 2>, Padded<UFix, 2>, VPadded<UFix, 0>,
        AutoBox<UFix>, Dynamic<u8, UFix>, Dynamic<u30, Sequence<UFix>>, UScal, Option<UScal>, Nullable<UScal>, Dynamic<u16, UScal>,
        Sequence<Dynamic<u8, UScal>>, URun, Dynamic<u8, URun>, Option<URun>, LimSeq<Dynamic<u8, URun>, 2>, AutoBox<URun>, UWide, FixSeq<UWide, 2>, Sequence<UWide>, UWides, Option<UWides>, Dynamic<u8, UWides>, Nullable<Dynamic<u30, UWides>>, UPair, Option<UPair>, Dynamic<u8, UPair>, FixSeq<UPair, 2>, AutoBox<UScal>, Dynamic<u8, Padded<UFix, 1>>, Dynamic<u8, VPadded<UScal, 0>>, UEst, Option<UEst>,
        Nullable<UEst>, Sequence<UEst>, LimSeq<UEst, 2>, FixSeq<UEst, 2>, AutoBox<UEst>, Dynamic<u8, UEst>,
        Dynamic<u16, Option<UEst>>, Dynamic<u8, FixSeq<UEst, 2>>, Mix, MixU, Dynamic<u8, Mix>, Option<MixU>,
    );
    macro_rules! bare { ($($t:ty),+ $(,)?) => { $( v.visit_noest::<$t>(stringify!($t)); )+ }; }
    bare!(UBare, Option<UBare>, Nullable<UBare>, Sequence<UBare>, LimSeq<UBare, 2>, FixSeq<UBare, 2>, Padded<UBare, 2>, AutoBox<UBare>, VPadded<UBare, 0>);
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct E16Two(pub catalog::E16, pub catalog::E16);
impl Encode for E16Two {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        self.0.write_to(u) + self.1.write_to(u)
    }
}
impl Decode for E16Two {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(E16Two(Decode::parse(p)?, Decode::parse(p)?))
    }
}
impl Reflect for E16Two {
    fn sch() -> Sch {
        Sch::Prod(vec![catalog::E16::sch(), catalog::E16::sch()])
    }
    fn val(&self) -> Val {
        Val::Prod(vec![self.0.val(), self.1.val()])
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Prod(f) => E16Two(Reflect::make(&f[0]), Reflect::make(&f[1])),
            _ => panic!("ill-typed"),
        }
    }
}
renum!(Tiny, u8, { A = 1, B = 2 });
rstruct!(Mix { a: UFix, e: Tiny, b: UEst, c: Option<UFix>, d: Dynamic<u8, UScal> });
runion!(MixU, u8, mixu, { 0 => F(UFix), 1 => E { x: UEst, y: u8 }, 2 => S(UFix, Dynamic<u8, UScal>), 7 => No() });

// ---- decoding -----------------------------------------------------------------------------

fn decode_section<T: Reflect>(tier: Tier, name: &'static str, every: usize) -> Section {
    section(format!("decode {name}"), move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let opts = Opts { check_padding: cfg!(feature = "check_padding") };
        let vs = vals(&s, Dom { lvl: 1, long: th, cap: if th { 1000 } else { 120 }, depth: 3 });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let bounds = InBounds { words: if th { 4000 } else { 600 }, seeds: if th { 120 } else { 30 }, positions: 12, full_bytes: th, two_bytes: false };
        let mut ins = inputs(&s, &bounds, &seeds);
        ins.retain(|b| b.len() < 5000);
        ck.st(ins.len() as u64);
        for (i, b) in ins.iter().enumerate() {
            let mut w = vec![7, 7];
            w.extend_from_slice(b);
            w.extend([1, 2, 3]);
            let want = decv(&s, b, opts).map(|(val, used)| Got { val, used });
            for (buf, at) in [(b, START), (&w, At { pre: 2, win: Some(b.len()) })] {
                if ck.stop() {
                    return;
                }
                ck.tr(2);
                ck.case(
                    || format!("decode {name} from {} at {at:?}", hexs(buf)),
                    || {
                        let got = quiet(|| go::<T, _>(Off::from_buffer(buf[..].into()), at))?;
                        if got != want {
                            return Err(format!("a hand-written parser with a moving offset gives {got:?}, expected {want:?}"));
                        }
                        let got = quiet(|| go::<T, _>(Shr::from_buffer(buf[..].into()), at))?;
                        if got != want {
                            return Err(format!("a hand-written parser with a shrinking view gives {got:?}, expected {want:?}"));
                        }
                        Ok(())
                    },
                );
            }
            let want = want.filter(|g| !cfg!(feature = "check_complete_parse") || g.used == b.len()).map(|g| g.val);
            ck.tr(2);
            ck.case(
                || format!("try_decode {name} from {} through hand-written parsers", hexs(b)),
                || {
                    let a = quiet(|| T::try_decode::<&[u8], Off>(&b[..]).ok().map(|x| x.val()))?;
                    let c = quiet(|| T::try_decode::<&[u8], Shr>(&b[..]).ok().map(|x| x.val()))?;
                    if a != want || c != want {
                        return Err(format!("moving offset {a:?}, shrinking view {c:?}, expected {want:?}"));
                    }
                    Ok(())
                },
            );
            // a parser that fails at each of its calls
            if i % every == 0 || i < 40 {
                let mut at = 0;
                'points: while at < 400 {
                    let mut last = false;
                    for kind in 0..3 {
                        if ck.stop() {
                            return;
                        }
                        ck.tr(1);
                        ck.case(
                            || format!("decode {name} from {} when the parser's call {at} fails with {:?}", hexs(b), fault(kind)),
                            || {
                                let mut p = Faulty::new(b, at, kind);
                                let r = quiet(|| T::parse(&mut p).map(|x| x.val()))?;
                                last = !p.hit;
                                match r {
                                    Ok(v) if p.hit => Err(format!("gave {} although the parser reported a failure", vshow(&v))),
                                    _ => Ok(()),
                                }
                            },
                        );
                    }
                    if last {
                        break 'points;
                    }
                    at += 1;
                }
            }
        }
    })
}

// ---- encoding -----------------------------------------------------------------------------

fn encode_one<T: Reflect>(v: &Val, want: &[u8]) -> Result<(), String> {
    let x = T::make(v);
    let same = |what: &str, got: &[u8]| if got == want { Ok(()) } else { Err(format!("{what} {}, expected {}", hexs(got), hexs(want))) };
    same("to_bytes gives", &quiet(|| x.to_bytes())?)?;
    for pre in [0usize, 3] {
        let mut t = Tape(vec![9u8; pre].into());
        let k = quiet(|| x.write_to(&mut t))?;
        if k != want.len() || t.0.len() < pre || t.0.iter().take(pre).any(|b| *b != 9) {
            return Err(format!("reports {k} bytes, wrote {:?}, expected {}", t.0, want.len()));
        }
        same("a hand-written target holds", &t.0.into_iter().skip(pre).collect::<Vec<u8>>())?;
        let mut r = Rope(vec![vec![9; pre]]);
        let k = quiet(|| x.write_to(&mut r))?;
        if k != want.len() || r.len() != want.len() + pre {
            return Err(format!("reports {k} bytes into a hand-written builder of {}, expected {}", r.len(), want.len()));
        }
        same("a hand-written builder holds", &r.into_vec()[pre..])?;
    }
    same("encode to a hand-written target gives", &quiet(|| x.encode::<Tape>())?.0.into_iter().collect::<Vec<u8>>())?;
    let r = quiet(|| x.encode::<Rope>())?;
    if r.is_empty() != want.is_empty() {
        return Err(format!("is_empty() is {} for {} bytes", r.is_empty(), want.len()));
    }
    let hex: String = want.iter().map(|b| format!("{b:02x}")).collect();
    if r.clone().into_hex() != hex {
        return Err(format!("into_hex gives {}, expected {hex}", r.into_hex()));
    }
    match (r.clone().into_bin(), std::str::from_utf8(want)) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(e), Err(_)) => same("the error of into_bin holds", e.as_bytes())?,
        (a, _) => return Err(format!("into_bin gives {a:?}")),
    }
    same("into_vec gives", &r.into_vec())?;
    // unit boundaries reach every target that overrides `resolve` alike
    let m = quiet(|| x.encode::<Marks>())?;
    same("a target with unit boundaries holds", &m.bytes)?;
    let mut cuts = m.marks.clone();
    cuts.push(want.len());
    cuts.dedup();
    let mut segs = vec![];
    let mut from = 0;
    for c in cuts {
        if c > from {
            segs.push(want[from..c].to_vec());
            from = c;
        }
    }
    let memo = quiet(|| x.encode::<MemoBuilder>())?.finalize();
    // the tracing builder shows its units as the last list of its debug form, while it does
    let text = format!("{memo:?}");
    let list = text.rsplit_once('[').and_then(|x| x.1.split_once(']')).map_or("", |x| x.0);
    let mut theirs: Vec<Vec<u8>> = vec![];
    let mut from = 0;
    for k in list.split(',').filter_map(|x| x.trim().parse::<usize>().ok()) {
        match want.get(from..from + k) {
            Some(x) if k > 0 => theirs.push(x.to_vec()),
            Some(_) => {}
            None => return Ok(()),
        }
        from += k;
    }
    if from != want.len() {
        return Ok(());
    }
    if theirs != segs {
        return Err(format!("the units seen by a hand-written target are {segs:?}, those of the tracing builder {theirs:?}"));
    }
    Ok(())
}
fn encode_section<T: Reflect>(tier: Tier, name: &'static str, len: Option<fn(&T) -> (usize, Option<usize>, usize, Vec<u8>)>) -> Section {
    section(format!("encode {name}"), move |ck| {
        let s = T::sch();
        let vs = vals(&s, Dom { lvl: if tier == Tier::Thorough { 2 } else { 1 }, long: true, cap: if tier == Tier::Thorough { 2000 } else { 250 }, depth: 3 });
        ck.st(vs.len() as u64);
        for v in &vs {
            if ck.stop() {
                return;
            }
            let want = encv(&s, v);
            ck.tr(8);
            ck.case(
                || format!("encode {name} {}", vshow(v)),
                || {
                    encode_one::<T>(v, &want)?;
                    if let Some(f) = len {
                        let (n, known, est, full) = quiet(|| f(&T::make(v)))?;
                        if n != want.len() || est != want.len() || known.map_or(false, |k| k != want.len()) || full != want {
                            return Err(format!("enc_len {n}, estimate {est}, known {known:?}, to_bytes_full {}; encodes to {}", hexs(&full), hexs(&want)));
                        }
                    }
                    Ok(())
                },
            );
        }
    })
}
fn lens<T: Reflect + Estimable>(x: &T) -> (usize, Option<usize>, usize, Vec<u8>) {
    (x.enc_len(), T::KNOWN, x.estimate(), x.to_bytes_full())
}

struct V {
    out: Vec<Section>,
    tier: Tier,
    every: usize,
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        self.out.push(decode_section::<T>(self.tier, name, self.every));
        self.out.push(encode_section::<T>(self.tier, name, Some(lens::<T>)));
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        self.out.push(decode_section::<T>(self.tier, name, self.every));
        self.out.push(encode_section::<T>(self.tier, name, None));
    }
}

// ---- parser histories ---------------------------------------------------------------------

fn hist(buf: &[u8], h: &[Op]) -> Verdict {
    for (n, f) in [
        ("moving-offset", run_history(Off::from_buffer(buf.into()), buf, h)),
        ("shrinking-view", run_history(Shr::from_buffer(buf.into()), buf, h)),
    ] {
        if let Fate::At { i, msg, .. } = f {
            // judged where it first shows
            if i + 1 < h.len() {
                return Verdict::Prune;
            }
            return Verdict::Fail(format!("hand-written {n} parser: {msg}"));
        }
    }
    Verdict::Pass
}

struct Odd {
    any: bool,
}
macro_rules! odd {
    ($($t:ty),+) => {$(
        impl TagValidator<$t> for Odd {
            fn is_valid(&self, raw: $t) -> bool {
                self.any && raw % 2 == 1
            }
            fn has_valid(&self) -> bool {
                self.any
            }
            fn into_valid(self) -> Vec<$t> {
                vec![]
            }
        }
    )+};
}
odd!(u8, u16, u32);

fn tags(ck: &mut Ck) {
    fn one<P: Parser>(ck: &mut Ck, who: &str, mk: &dyn Fn() -> P, b: &[u8], any: bool) {
        macro_rules! width {
            ($t:ty, $w:expr) => {{
                ck.st(1);
                ck.tr(1);
                ck.case(
                    || format!("{who} parser, {}-byte tag from {} validated by a hand-written rule (has tags: {any})", $w, hexs(b)),
                    || {
                        let mut p = mk();
                        let r = quiet(|| p.take_tagword::<(), $t, Odd>(Odd { any }).map_err(|e| format!("{e:?} {e}")))?;
                        let raw = b.get(..$w).map(|x| x.iter().fold(0 as $t, |a, y| ((a as u64) << 8) as $t | *y as $t));
                        match (&r, raw) {
                            (Ok(t), Some(x)) if *t == x && any && x % 2 == 1 && p.remainder() == b.len() - $w => Ok(()),
                            (Err(_), None) => Ok(()),
                            (Err(_), Some(x)) if !any || x % 2 == 0 => Ok(()),
                            _ => Err(format!("gives {r:?} for {raw:?}")),
                        }
                    },
                );
            }};
        }
        width!(u8, 1);
        width!(u16, 2);
        width!(u32, 4);
    }
    use tedium::parse::buffer::{SliceBuffer, VecBuffer};
    let mut ins: Vec<Vec<u8>> = vec![vec![]];
    ins.extend((0..=255u8).map(|x| vec![x]));
    for a in [0u8, 1, 2, 127, 128, 255] {
        for b in [0u8, 1, 2, 127, 128, 255] {
            ins.push(vec![a, b]);
            ins.push(vec![a, 0, b]);
            ins.push(vec![a, 0, 0, b]);
            ins.push(vec![0, a, 3, b, 5]);
        }
    }
    for b in &ins {
        for any in [true, false] {
            one(ck, "byte", &|| ByteParser::from_buffer(VecBuffer::from(&b[..])), b, any);
            one(ck, "tracing", &|| MemoParser::from_buffer(VecBuffer::from(&b[..])), b, any);
            one(ck, "slice", &|| SliceParser::from_buffer(SliceBuffer::new(b)), b, any);
            one(ck, "hand-written", &|| Off::from_buffer(b[..].into()), b, any);
        }
    }
}

/// Every operation provided by the traits, on a parser whose call fails: the failure comes out.
fn faults(ck: &mut Ck) {
    let bufs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 0xff, 0, 0x85], (0..24).collect(), vec![0, 0, 0, 3, 9, 9, 9, 9, 1], vec![0xff; 12]];
    type F = (&'static str, bool, fn(&mut Faulty) -> ParseResult<()>);
    let ops: Vec<F> = vec![
        ("consume_arr", true, |p| p.consume_arr::<3>().map(drop)),
        ("consume_arr of nothing", true, |p| p.consume_arr::<0>().map(drop)),
        ("take_fixed", true, |p| p.take_fixed::<2>().map(drop)),
        ("take_dynamic", true, |p| p.take_dynamic(2).map(drop)),
        ("take_u8", true, |p| p.take_u8().map(drop)),
        ("take_i8", true, |p| p.take_i8().map(drop)),
        ("take_u16", true, |p| p.take_u16().map(drop)),
        ("take_i16", true, |p| p.take_i16().map(drop)),
        ("take_u32", true, |p| p.take_u32().map(drop)),
        ("take_i32", true, |p| p.take_i32().map(drop)),
        ("take_u64", true, |p| p.take_u64().map(drop)),
        ("take_i64", true, |p| p.take_i64().map(drop)),
        ("take_f64", true, |p| p.take_f64().map(drop)),
        ("take_bool", true, |p| p.take_bool().map(drop)),
        ("take_tagword", true, |p| p.take_tagword::<(), u16, _>(Odd { any: true }).map(drop)),
        ("take_self_terminating", false, |p| p.take_self_terminating(|b| b & 0x80 == 0).map(drop)),
        ("skip_dynamic", true, |p| p.skip_dynamic::<u8>().map(drop)),
        ("skip_dynamic u16", true, |p| p.skip_dynamic::<u16>().map(drop)),
        ("skip_dynamic u30", true, |p| p.skip_dynamic::<u30>().map(drop)),
        ("process_prefix", true, |p| p.process_prefix::<u8>().map(drop)),
        ("process_prefix u30", true, |p| p.process_prefix::<u30>().map(drop)),
        ("fast_kv_search", true, |p| p.fast_kv_search::<(), _, _, 1, 1>(&[77], |_: [u8; 1]| ()).map(drop)),
        ("fast_kv_search 2 3", true, |p| p.fast_kv_search::<(), _, _, 2, 3>(&[5, 6], |_: [u8; 3]| ()).map(drop)),
    ];
    for (name, verbatim, f) in ops {
        for b in &bufs {
            for kind in 0..3 {
                for at in 0..30 {
                    ck.st(1);
                    ck.tr(1);
                    let mut hit = false;
                    ck.case(
                        || format!("{name} over {} when the parser's call {at} fails with {:?}", hexs(b), fault(kind)),
                        || {
                            let mut p = Faulty::new(b, at, kind);
                            let r = quiet(|| f(&mut p).map_err(|e| format!("{e:?}")))?;
                            hit = p.hit;
                            match r {
                                Ok(()) if p.hit => Err("succeeds although the parser reported a failure".into()),
                                Err(e) if p.hit && verbatim && e != format!("{:?}", fault(kind)) => Err(format!("reports {e} instead")),
                                _ => Ok(()),
                            }
                        },
                    );
                    if !hit {
                        break;
                    }
                }
            }
        }
    }
}

/// Conversions into hand-written parsers and the defaults of a hand-written builder.
fn entry(ck: &mut Ck) {
    for n in 0..20usize {
        let b: Vec<u8> = (0..n).map(|i| (i * 37 + 200) as u8).collect();
        ck.st(1);
        ck.tr(4);
        ck.case(
            || format!("conversions of {n} bytes"),
            || {
                let p: Off = <&[u8] as TryIntoParser<Off>>::try_into_parser(&b[..]).map_err(|_| "refused")?;
                let q: Off = Frags::from(&b[..]).try_into_parser().map_err(|_| "refused")?;
                let s: Shr = View(&b).try_into_parser().map_err(|_| "refused")?;
                let (p, q, s): (Vec<u8>, Vec<u8>, Vec<u8>) = (p.collect(), q.collect(), s.collect());
                if p != b || q != b || s != b {
                    return Err(format!("{p:?} {q:?} {s:?}"));
                }
                Ok(())
            },
        );
        ck.case(
            || format!("a hand-written builder of {n} bytes"),
            || {
                let mut r = Rope::empty();
                if !r.is_empty() || r.len() != 0 || !r.clone().into_vec().is_empty() || r.clone().into_hex() != "" || r.clone().into_bin().unwrap() != "" {
                    return Err("empty() is not empty".into());
                }
                for (i, x) in b.iter().enumerate() {
                    if r.push_one(*x) + r.resolve_zero() != 1 || r.len() != i + 1 || r.is_empty() {
                        return Err(format!("after {} bytes", i + 1));
                    }
                }
                let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
                if r.clone().into_hex() != hex || r.into_vec() != b {
                    return Err(format!("expected {hex}"));
                }
                let mut t = Tape::default();
                for x in &b {
                    let z: usize = tedium::resolve_zero!(&mut t);
                    if t.push_many([*x, 1]) + t.resolve_zero() + z != 2 {
                        return Err("counts".into());
                    }
                    t.resolve();
                }
                let want: Vec<u8> = b.iter().flat_map(|x| [*x, 1]).collect();
                if t.0 != want {
                    return Err(format!("{:?}", t.0));
                }
                Ok(())
            },
        );
    }
}

/// All sequences of target operations: counts, bytes, and each `resolve` exactly once where it
/// was asked for, also through `resolve_zero` and the macro.
fn targets(depth: u32) -> impl Fn(&mut Ck) + Send + 'static {
    fn go<T: Target>(h: &[usize], out: fn(T) -> Option<(Vec<u8>, Option<Vec<usize>>)>) -> Result<(), String> {
        let mut t = T::create();
        let (mut want, mut marks) = (vec![], vec![]);
        for (i, op) in h.iter().enumerate() {
            let (b, k) = quiet(|| match op {
                0 => (vec![i as u8], t.push_one(i as u8)),
                1 => (vec![], t.push_many::<0>([])),
                2 => (vec![7, 8], t.push_many([7, 8])),
                3 => (vec![], t.push_all(&[])),
                4 => (vec![1, 2, 3], t.push_all(&[1, 2, 3])),
                5 => {
                    t.resolve();
                    (vec![], 0)
                }
                6 => (vec![], t.resolve_zero()),
                7 => (vec![], tedium::resolve_zero!(&mut t)),
                8 => (vec![0, 0, 1, 44, 255], 300u32.write_to(&mut t) + 255u8.write_to(&mut t)),
                _ => {
                    t.anticipate(3);
                    (vec![], 0)
                }
            })?;
            if k != b.len() {
                return Err(format!("operation {i} reports {k} bytes, expected {}", b.len()));
            }
            if (5..8).contains(op) {
                marks.push(want.len());
            } else if *op == 8 {
                // numbers are units of their own
                marks.extend([want.len() + 4, want.len() + 5]);
            }
            want.extend(b);
        }
        if let Some((b, m)) = quiet(|| out(t))? {
            if b != want {
                return Err(format!("holds {b:?}, expected {want:?}"));
            }
            if m.as_ref().map_or(false, |m| *m != marks) {
                return Err(format!("unit boundaries {m:?}, expected {marks:?}"));
            }
        }
        Ok(())
    }
    fn rec(ck: &mut Ck, h: &mut Vec<usize>, left: u32) {
        ck.st(1);
        ck.tr(6);
        ck.case(
            || format!("target operations {h:?}"),
            || {
                go::<Marks>(h, |t| Some((t.bytes, Some(t.marks)))).map_err(|e| format!("a target with unit boundaries: {e}"))?;
                go::<Tape>(h, |t| Some((t.0.into(), None))).map_err(|e| format!("a hand-written target: {e}"))?;
                go::<Rope>(h, |t| Some((t.into_vec(), None))).map_err(|e| format!("a hand-written builder: {e}"))?;
                go::<Vec<u8>>(h, |t| Some((t, None))).map_err(|e| format!("a vector: {e}"))?;
                go::<std::io::Sink>(h, |_| None).map_err(|e| format!("the byte counter: {e}"))?;
                go::<MemoBuilder>(h, |t| Some((t.into_vec(), None))).map_err(|e| format!("the tracing builder: {e}"))
            },
        );
        if left == 0 || ck.stop() {
            return;
        }
        for op in 0..10 {
            h.push(op);
            rec(ck, h, left - 1);
            h.pop();
        }
    }
    move |ck| rec(ck, &mut vec![], depth)
}

fn main() {
    run(
        Spec {
            prop: "C29",
            explanation: "states = history nodes, inputs and values; a transition = one history run on both hand-written parsers, one decode through one of them, one decode with a failure injected at one call, or one way of encoding into a hand-written target. Hand-written implementors define the required operations only (two parsers: fragmented with a moving offset, shrinking view with offset 0; a failing parser; a target, a target with unit boundaries, a builder, a tag rule; four codec types with a fixed, per-element, estimated or no length). Histories: as C01 against the same reference, all operations the traits provide. Decoding: every catalogued type and combinations over the hand-written types, all words over the tailored alphabet, edited encodings, bare, windowed and through try_decode, and with every call of the parser failing in turn with three kinds of error. Encoding: every enumerated value, bytes, counts, lengths and unit boundaries. Targets: all histories of up to 4 (thorough: 6) target operations on six targets.",
            assumptions: &["the hand-written implementors follow the documented contracts of the traits they implement"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V { out: vec![], tier, every: if th { 3 } else { 40 } };
            for (pn, b) in buffers(if th { 6 } else { 4 }) {
                let depth = if th || b.len() < 4 { 4 } else { 3 };
                v.out.push(section(format!("all histories of {depth} operations, {pn} {}", b.len()), move |ck| {
                    dfs(ck, &b, depth, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || hist(&b, h)));
                }));
            }
            for (pn, b) in buffers(if th { 8 } else { 5 }).into_iter().filter(|x| x.1.len() > 2 && x.0 != "flags") {
                let (wins, reps, maxs) = if th { (5, 2, 2000) } else { (3, 1, 150) };
                v.out.push(section(format!("state graph, windows up to {wins}, {pn} {}", b.len()), move |ck| {
                    bfs(ck, &b, wins, reps, maxs, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || hist(&b, h)));
                }));
            }
            for (pn, b) in long_buffers(th) {
                if b.len() > 2000 {
                    continue;
                }
                v.out.push(section(format!("long buffer {pn}"), move |ck| {
                    dfs(ck, &b, 2, Alpha::Min, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || hist(&b, h)));
                }));
            }
            v.out.push(section("tag rules", tags));
            v.out.push(section("failures of the parser come out of every provided operation", faults));
            v.out.push(section("entry points and defaults", entry));
            v.out.push(section("histories of target operations", targets(if th { 6 } else { 4 })));
            v.every = if th { 2 } else { 10 };
            custom(&mut v);
            v.every = if th { 6 } else { 80 };
            catalog::all(&mut v);
            v.out
        },
    )
}
