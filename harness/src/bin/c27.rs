//! C27: an error describes the failure that happened.
use mcheck::catalog::*;
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use std::any::type_name;
use std::collections::HashSet;
use std::convert::{TryFrom, TryInto};
use std::error::Error;
use tedium::conv::error::DecodeError;
use tedium::error::{BoundsError, HexConvError, LengthError, WidthError};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::{ExternalError, InternalError, ParseError, TagError, TokenError, WindowError};
use tedium::parse::ParserExt;
use tedium::seq::{fix::FixSeq, lim::LimSeq};
use tedium::*;

/// The failure that happened, as known from the input alone.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// `req` bytes wanted where `rem` are left
    Short { req: usize, rem: usize },
    /// a window of `req` bytes wanted where the window has `win` left and the buffer `buf`
    Open { req: usize, win: usize, buf: usize },
    NoWindow,
    Residue(usize),
    Bool(u8),
    /// the flag of an optional value
    Flag(u8),
    Tag { w: usize, actual: u64, tags: Vec<u64> },
    NoTags,
    Term(Vec<u8>),
    /// the number stored, as signed and unsigned number, against the range
    Int { min: i64, max: i64, seen: Vec<i64> },
    Float { min: f64, max: f64, val: f64 },
    TooLong { limit: usize },
    Wrong { exact: usize, actual: usize },
    Padding(Vec<u8>),
}

fn says(msg: &str, nums: &[&dyn std::fmt::Display]) -> Result<(), String> {
    for n in nums {
        if !msg.contains(&n.to_string()) {
            return Err(format!("the message \"{msg}\" does not mention {n}"));
        }
    }
    Ok(())
}

fn bounds_int(e: &BoundsError<i128>, min: i128, max: i128, seen: &[i128]) -> Result<(), String> {
    // a range that starts above zero may be reported on the numbers or on the offsets from its start
    let mut views: Vec<(i128, i128, Vec<i128>)> = vec![(min, max, seen.to_vec())];
    if min > 0 {
        views = vec![
            (min, max, seen.iter().map(|x| x + min).collect()),
            (0, max - min, seen.to_vec()),
            (min, max - min, seen.to_vec()),
        ];
    }
    let ok = match e {
        BoundsError::Underflow { min: m, val } => views.iter().any(|v| v.0 == *m && v.2.contains(val) && *val < v.0.min(*m).max(0.min(v.0))),
        BoundsError::IllegalNegative { min: m, val } => min > 0 && *m == min && *val < min && views.iter().any(|v| v.2.contains(val)) && seen.iter().any(|x| *x < 0),
        BoundsError::Overflow { max: m, val } => views.iter().any(|v| v.1 == *m && v.2.contains(val) && *val > v.1),
        _ => false,
    };
    if !ok {
        return Err(format!("{e:?} for {seen:?} against {min}..={max}"));
    }
    match e {
        BoundsError::Underflow { min, val } | BoundsError::IllegalNegative { min, val } => says(&e.to_string(), &[min, val]),
        BoundsError::Overflow { max, val } => says(&e.to_string(), &[max, val]),
        _ => Ok(()),
    }
}
fn widen(e: &BoundsError<i64>) -> BoundsError<i128> {
    match *e {
        BoundsError::Underflow { min, val } => BoundsError::Underflow { min: min as i128, val: val as i128 },
        BoundsError::Overflow { max, val } => BoundsError::Overflow { max: max as i128, val: val as i128 },
        BoundsError::InvalidBounds { min, max } => BoundsError::InvalidBounds { min: min as i128, max: max as i128 },
        BoundsError::IllegalNegative { min, val } => BoundsError::IllegalNegative { min: min as i128, val: val as i128 },
        BoundsError::Failed(x) => BoundsError::Failed(x),
    }
}
fn bounds_float(e: &BoundsError<f64>, min: f64, max: f64, val: f64) -> Result<(), String> {
    let ok = match e {
        _ if val.is_nan() => matches!(e, BoundsError::Underflow { min: a, val: v } if *a == min && v.is_nan()) || matches!(e, BoundsError::Overflow { max: a, val: v } if *a == max && v.is_nan()),
        BoundsError::Underflow { min: a, val: v } => val < min && *a == min && *v == val,
        BoundsError::Overflow { max: a, val: v } => val > max && *a == max && *v == val,
        _ => false,
    };
    if !ok {
        return Err(format!("{e:?} for {val:?} against {min}..={max}"));
    }
    match e {
        BoundsError::Underflow { min, val } => says(&e.to_string(), &[min, val]),
        BoundsError::Overflow { max, val } => says(&e.to_string(), &[max, val]),
        _ => Ok(()),
    }
}

/// The names under which the catalogue's enumerations and unions must appear, by their tags.
fn names(tags: &[u64]) -> Vec<&'static str> {
    let all: [(&'static str, Sch); 9] = [
        (type_name::<E8Many>(), E8Many::sch()),
        (type_name::<E8>(), E8::sch()),
        (type_name::<E16>(), E16::sch()),
        (type_name::<E32>(), E32::sch()),
        (type_name::<catalog::U8>(), catalog::U8::sch()),
        (type_name::<catalog::U16>(), catalog::U16::sch()),
        (type_name::<UTail>(), UTail::sch()),
        (type_name::<UNest>(), UNest::sch()),
        (type_name::<Tree>(), Tree::sch()),
    ];
    fn tags_of(s: &Sch) -> Vec<u64> {
        match s {
            Sch::Enum { tags, .. } => tags.clone(),
            Sch::Union { vars, .. } => vars.iter().map(|v| v.0).collect(),
            Sch::Rec(f) => tags_of(&f()),
            _ => vec![],
        }
    }
    all.iter().filter(|(_, s)| tags_of(s) == tags).map(|x| x.0).collect()
}

/// Every order a small set of tags may be listed in; the two natural ones of a large one.
fn orders(tags: &[u64]) -> Vec<Vec<u64>> {
    fn perm(rest: Vec<u64>, acc: Vec<u64>, out: &mut Vec<Vec<u64>>) {
        if rest.is_empty() {
            out.push(acc);
            return;
        }
        for i in 0..rest.len() {
            let mut r = rest.clone();
            let x = r.remove(i);
            let mut a = acc.clone();
            a.push(x);
            perm(r, a, out);
        }
    }
    let mut out = vec![tags.to_vec()];
    if tags.len() <= 4 {
        perm(tags.to_vec(), vec![], &mut out);
    } else {
        let mut s = tags.to_vec();
        s.sort();
        out.push(s.clone());
        s.reverse();
        out.push(s);
    }
    out
}

fn tag_says(e: &TokenError, w: usize, actual: u64, tags: &[u64], names: &[&'static str]) -> Result<(), String> {
    for n in names {
        for o in orders(tags) {
            let want = match w {
                1 => TokenError::InvalidTagU8(TagError::new(actual as u8, n, Some(o.iter().map(|x| *x as u8).collect()))),
                2 => TokenError::InvalidTagU16(TagError::new(actual as u16, n, Some(o.iter().map(|x| *x as u16).collect()))),
                _ => TokenError::InvalidTagU30(TagError::new(actual as u32, n, Some(o.iter().map(|x| *x as u32).collect()))),
            };
            if *e == want {
                let m = e.to_string();
                let hex = format!("{actual:x}");
                return if m.contains(&hex) || m.contains(&actual.to_string()) { Ok(()) } else { Err(format!("the message \"{m}\" does not mention {actual}")) };
            }
        }
    }
    Err(format!("{e:?}, expected tag {actual} of {w} bytes rejected for {names:?} with valid tags {tags:?}"))
}

fn agrees(e: &ParseError, want: &Ev) -> Result<(), String> {
    let top = e.to_string();
    // the chain of causes leads to the error itself and says the same
    let mut src = e.source();
    if src.is_none() {
        return Err(format!("{e:?} names no cause"));
    }
    let mut n = 0;
    while let Some(s) = src {
        let _ = s.to_string();
        n += 1;
        if n > 16 {
            return Err(format!("{e:?}: the chain of causes does not end"));
        }
        src = s.source();
    }
    let bad = || Err(format!("{e:?}, but what happened is {want:?}"));
    match (want, e) {
        (Ev::Short { req, rem }, ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit })) => {
            if requested != req || limit.checked_sub(*offset) != Some(*rem) {
                return bad();
            }
            says(&top, &[offset, requested, limit])
        }
        (Ev::Open { req, win, buf }, ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request })) => {
            if request != req || bytes_left != buf || req <= buf || win > buf {
                return bad();
            }
            if *bytes_left == 0 {
                says(&top, &[request])
            } else {
                says(&top, &[bytes_left, request])
            }
        }
        (Ev::Open { req, win, .. }, ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request })) => {
            if request != req || limit != win || req <= win {
                return bad();
            }
            says(&top, &[limit, request])
        }
        (Ev::NoWindow, ParseError::Window(WindowError::CloseWithoutWindow)) => Ok(()),
        (Ev::Residue(n), ParseError::Window(WindowError::CloseWithResidue { residual })) if n == residual => says(&top, &[n]),
        (Ev::Bool(b), ParseError::Token(TokenError::InvalidBoolean(x))) if b == x => {
            if top.contains(&format!("{b:02x}")) || top.contains(&b.to_string()) {
                Ok(())
            } else {
                Err(format!("the message \"{top}\" does not mention {b}"))
            }
        }
        (Ev::Flag(b), ParseError::Token(TokenError::InvalidBoolean(x))) if b == x => Ok(()),
        (Ev::Flag(b), ParseError::Token(TokenError::InvalidTagU8(t))) => {
            let d = format!("{t:?}");
            let shows = |x: &str| d.contains(x);
            if shows(&format!("actual: {b},")) && shows("Option<") && (shows("[0, 255]") || shows("[255, 0]")) && top.contains(&format!("{b:x}")) {
                Ok(())
            } else {
                bad()
            }
        }
        (Ev::Term(b), ParseError::Token(TokenError::NonTerminating(x))) if b == x => {
            if top.to_lowercase().contains(&b.iter().map(|x| format!("{x:02x}")).collect::<String>()) {
                Ok(())
            } else {
                Err(format!("the message \"{top}\" does not show the bytes {}", hexs(b)))
            }
        }
        (Ev::Padding(b), ParseError::Token(TokenError::NonNullPaddingByte { padding })) if b == padding => Ok(()),
        (Ev::Tag { w, actual, tags }, ParseError::Token(t)) => tag_says(t, *w, *actual, tags, &names(tags)),
        (Ev::NoTags, ParseError::Internal(InternalError::NoValidTags)) => Ok(()),
        (Ev::Int { min, max, seen }, ParseError::External(ExternalError::IntRangeViolation(b))) => {
            let seen: Vec<i128> = seen.iter().map(|x| *x as i128).collect();
            bounds_int(&widen(b), *min as i128, *max as i128, &seen)?;
            if top != b.to_string() {
                return Err(format!("the message \"{top}\" is not that of {b:?}"));
            }
            Ok(())
        }
        (Ev::Float { min, max, val }, ParseError::External(ExternalError::FloatRangeViolation(b))) => bounds_float(b, *min, *max, *val),
        (Ev::TooLong { limit }, ParseError::External(ExternalError::LengthViolation(LengthError::TooLong { limit: l, actual }))) => {
            if l != limit || actual <= limit {
                return bad();
            }
            says(&top, &[l, actual])
        }
        (Ev::Wrong { exact, actual }, ParseError::External(ExternalError::LengthViolation(LengthError::WrongLength { exact: x, actual: a }))) => {
            if x != exact || a != actual {
                return bad();
            }
            says(&top, &[x, a])
        }
        _ => bad(),
    }
}

// ---- what a decoder of a schema runs into first ---------------------------------------------
fn num(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}
fn sext(x: u64, w: usize) -> i64 {
    let sh = 64 - 8 * w as u32;
    ((x << sh) as i64) >> sh
}
fn take<'a>(b: &'a [u8], pos: &mut usize, end: usize, n: usize) -> Result<&'a [u8], Ev> {
    if end - *pos < n {
        return Err(Ev::Short { req: n, rem: end - *pos });
    }
    let r = &b[*pos..*pos + n];
    *pos += n;
    Ok(r)
}
fn first(s: &Sch, b: &[u8], pos: &mut usize, end: usize, padding: bool) -> Result<(), Ev> {
    match s {
        Sch::Unit => Ok(()),
        Sch::Bool => match take(b, pos, end, 1)?[0] {
            0 | 0xff => Ok(()),
            x => Err(Ev::Bool(x)),
        },
        Sch::U(w) | Sch::I(w) | Sch::Fixed(w) | Sch::FixedText(w) => take(b, pos, end, *w).map(|_| ()),
        Sch::F64 => take(b, pos, end, 8).map(|_| ()),
        Sch::RF { min, max } => {
            let (min, max) = (f64::from_bits(*min), f64::from_bits(*max));
            let f = f64::from_bits(num(take(b, pos, end, 8)?));
            if f >= min && f <= max {
                Ok(())
            } else {
                Err(Ev::Float { min, max, val: f })
            }
        }
        Sch::RI { w, signed, min, max } => {
            let x = num(take(b, pos, end, *w)?);
            let raw = if *signed { sext(x, *w) } else { x as i64 };
            let n = if *min > 0 { raw + *min } else { raw };
            if n < *min || n > *max || (*min > 0 && raw < 0) {
                Err(Ev::Int { min: *min, max: *max, seen: vec![raw] })
            } else {
                Ok(())
            }
        }
        Sch::VarBytes | Sch::VarText => {
            *pos = end;
            Ok(())
        }
        Sch::Opt(i) => match take(b, pos, end, 1)?[0] {
            0 => Ok(()),
            0xff => first(i, b, pos, end, padding),
            x => Err(Ev::Flag(x)),
        },
        Sch::Nullable(i) => {
            if *pos < end {
                first(i, b, pos, end, padding)
            } else {
                Ok(())
            }
        }
        Sch::Seq(i) => {
            while *pos < end {
                first(i, b, pos, end, padding)?;
            }
            Ok(())
        }
        Sch::Lim(i, n) => {
            let mut k = 0;
            while *pos < end {
                // an element too many may be refused before or after it is read
                first(i, b, pos, end, padding)?;
                k += 1;
                if k > *n {
                    return Err(Ev::TooLong { limit: *n });
                }
            }
            Ok(())
        }
        Sch::Fix(i, n) => {
            for k in 0..*n {
                if *pos >= end {
                    return Err(Ev::Wrong { exact: *n, actual: k });
                }
                first(i, b, pos, end, padding)?;
            }
            Ok(())
        }
        Sch::Dyn { w, max, inner } => {
            let l = num(take(b, pos, end, *w)?);
            if l > *max {
                return Err(Ev::Int { min: 0, max: *max as i64, seen: vec![l as i64, sext(l, *w)] });
            }
            if l > (end - *pos) as u64 {
                return Err(Ev::Open { req: l as usize, win: end - *pos, buf: b.len() - *pos });
            }
            let e = *pos + l as usize;
            first(inner, b, pos, e, padding)?;
            if *pos != e {
                return Err(Ev::Residue(e - *pos));
            }
            Ok(())
        }
        Sch::VPad(i, n) => {
            if end - *pos < *n {
                return Err(Ev::Short { req: *n, rem: end - *pos });
            }
            let e = end - *n;
            first(i, b, pos, e, padding)?;
            if *pos != e {
                return Err(Ev::Residue(e - *pos));
            }
            Ok(())
        }
        Sch::Pad(i, n) => {
            first(i, b, pos, end, padding)?;
            let p = take(b, pos, end, *n)?;
            if padding && p.iter().any(|x| *x != 0) {
                return Err(Ev::Padding(p.to_vec()));
            }
            Ok(())
        }
        Sch::Boxed(i) => first(i, b, pos, end, padding),
        Sch::Prod(ss) => ss.iter().try_for_each(|s| first(s, b, pos, end, padding)),
        Sch::Enum { w, tags } => {
            let t = num(take(b, pos, end, *w)?);
            if tags.contains(&t) {
                Ok(())
            } else {
                Err(Ev::Tag { w: *w, actual: t, tags: tags.clone() })
            }
        }
        Sch::Union { w, vars } => {
            let t = num(take(b, pos, end, *w)?);
            match vars.iter().find(|x| x.0 == t) {
                Some((_, p)) => first(p, b, pos, end, padding),
                None => Err(Ev::Tag { w: *w, actual: t, tags: vars.iter().map(|v| v.0).collect() }),
            }
        }
        Sch::Nat | Sch::Int => {
            let st = *pos;
            while *pos < end {
                *pos += 1;
                if b[*pos - 1] & 0x80 == 0 {
                    return Ok(());
                }
            }
            Err(Ev::Term(b[st..end].to_vec()))
        }
        Sch::Rec(f) => first(&f(), b, pos, end, padding),
    }
}

fn parse_err<T: Decode, P: Parser>(mut p: P, at: At) -> Option<ParseError> {
    if at.pre > 0 {
        p.consume(at.pre).expect("consume context");
    }
    if let Some(w) = at.win {
        p.set_fit(w).expect("open context window");
    }
    T::parse(&mut p).err()
}
fn decode_err<T: Decode>(k: PK, buf: &[u8], at: At) -> Option<ParseError> {
    match k {
        PK::Byte => parse_err::<T, _>(ByteParser::from_buffer(VecBuffer::from(buf)), at),
        PK::Memo => parse_err::<T, _>(MemoParser::from_buffer(VecBuffer::from(buf)), at),
        PK::Slice => parse_err::<T, _>(SliceParser::from_buffer(SliceBuffer::new(buf)), at),
    }
}

const PADDING: bool = cfg!(feature = "check_padding");

/// Whether a limited sequence of several-byte elements occurs: an element too many may be refused
/// unread, so what is wrong with it is not always reported.
fn limited(s: &Sch) -> bool {
    match s {
        Sch::Lim(..) => true,
        Sch::Opt(i) | Sch::Nullable(i) | Sch::Seq(i) | Sch::Fix(i, _) | Sch::VPad(i, _) | Sch::Pad(i, _) | Sch::Boxed(i) => limited(i),
        Sch::Dyn { inner, .. } => limited(inner),
        Sch::Prod(ss) => ss.iter().any(limited),
        Sch::Union { vars, .. } => vars.iter().any(|v| limited(&v.1)),
        _ => false,
    }
}

struct V(Vec<Section>, Tier);
fn typed<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(format!("decoding {name}"), move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let d = Dom { lvl: 1, long: false, cap: if th { 400 } else { 60 }, depth: 3 };
        let seeds: Vec<Vec<u8>> = vals(&s, d).iter().map(|v| encv(&s, v)).collect();
        let b = if th {
            InBounds { words: 40_000, seeds: 200, positions: 40, full_bytes: true, two_bytes: false }
        } else {
            InBounds { words: 1500, seeds: 30, positions: 16, full_bytes: true, two_bytes: false }
        };
        let loose = limited(&s);
        for x in inputs(&s, &b, &seeds) {
            if ck.stop() {
                return;
            }
            ck.st(1);
            for (pre, post, win) in [(0usize, 0usize, false), (3, 2, true), (3, 0, true)] {
                let mut buf = vec![0xA5u8; pre];
                buf.extend_from_slice(&x);
                buf.extend(vec![0xffu8; post]);
                let end = pre + x.len();
                let mut pos = pre;
                let want = match first(&s, &buf, &mut pos, end, PADDING) {
                    Ok(()) => {
                        ck.outn("input that decodes", 1);
                        break;
                    }
                    Err(w) => w,
                };
                let at = At { pre, win: if win { Some(x.len()) } else { None } };
                for k in PKS {
                    ck.tr(1);
                    ck.vcase(
                        || format!("{name} from {} at {at:?} of {} with {k:?}", hexs(&x), hexs(&buf)),
                        || match quiet(|| decode_err::<T>(k, &buf, at)) {
                            // whether it fails at all is another property's business
                            Err(_) | Ok(None) => Verdict::Prune,
                            Ok(Some(e)) => match agrees(&e, &want) {
                                Ok(()) => Verdict::Pass,
                                Err(_) if loose && matches!(e, ParseError::External(ExternalError::LengthViolation(LengthError::TooLong { limit, actual })) if actual > limit) => Verdict::Prune,
                                Err(m) => Verdict::Fail(m),
                            },
                        },
                    );
                }
            }
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        typed::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        typed::<T>(self, name)
    }
}

// ---- parser operations ----------------------------------------------------------------------
/// What goes wrong when `op` is applied in state `m`; `None` if nothing does or this property does
/// not say.
fn predict(m: &M, b: &[u8], op: &Op) -> Option<Ev> {
    use Op::*;
    let rem = m.rem();
    let buf = b.len() - m.pos;
    let read = |n: usize| if n > rem { Some(Ev::Short { req: n, rem }) } else { None };
    let open = |n: usize, at: usize| {
        let win = m.ends[m.ends.len() - 1] - at;
        if n > win {
            Some(Ev::Open { req: n, win, buf: b.len() - at })
        } else {
            None
        }
    };
    match op {
        Byte | U8 | I8 | Tag8 => read(1),
        Consume(k) | Dyn(k) | SkipX(k) | Wide(k) | WideArr(k) => read(*k),
        U16 | I16 | Tag16 => read(2),
        U32 | I32 => read(4),
        U64 | I64 | F64 => read(8),
        Arr(k) | FixedArr(k) => read(*k as usize),
        Bool => read(1).or_else(|| match b[m.pos] {
            0 | 0xff => None,
            x => Some(Ev::Bool(x)),
        }),
        SelfTerm(t) => {
            let rest = &b[m.pos..m.pos + rem];
            if rest.iter().any(|x| x < t) {
                None
            } else {
                Some(Ev::Term(rest.to_vec()))
            }
        }
        Fit(n) => open(*n, m.pos),
        Close => {
            if m.ends.len() == 1 {
                Some(Ev::NoWindow)
            } else if rem > 0 {
                Some(Ev::Residue(rem))
            } else {
                None
            }
        }
        Pfx(w) | SkipDyn(w) => {
            let w = *w as usize;
            read(w).or_else(|| {
                let l = num(&b[m.pos..m.pos + w]);
                if w == 4 && l > 0x3fff_ffff {
                    return Some(Ev::Int { min: 0, max: 0x3fff_ffff, seen: vec![l as i64, sext(l, 4)] });
                }
                open(l as usize, m.pos + w).map(|e| match e {
                    Ev::Open { req, win, .. } => Ev::Open { req, win, buf: buf - w },
                    e => e,
                })
            })
        }
        _ => None,
    }
}

/// The error the last operation of a history gives on the real parser.
fn provoke<P: Parser + ParserExt + Iterator<Item = u8>>(p: &mut P, op: &Op) -> Option<ParseError> {
    use Op::*;
    match op {
        Byte => p.consume_byte().err(),
        Consume(k) => p.consume(*k).err(),
        Dyn(k) => p.take_dynamic(*k).err(),
        U8 => p.take_u8().err(),
        I8 => p.take_i8().err(),
        U16 => p.take_u16().err(),
        I16 => p.take_i16().err(),
        U32 => p.take_u32().err(),
        I32 => p.take_i32().err(),
        U64 => p.take_u64().err(),
        I64 => p.take_i64().err(),
        F64 => p.take_f64().err(),
        Bool => p.take_bool().err(),
        Arr(0) => p.consume_arr::<0>().err(),
        Arr(1) => p.consume_arr::<1>().err(),
        Arr(3) => p.consume_arr::<3>().err(),
        Arr(33) => p.consume_arr::<33>().err(),
        Arr(5) => p.consume_arr::<5>().err(),
        FixedArr(0) => p.take_fixed::<0>().err(),
        FixedArr(2) => p.take_fixed::<2>().err(),
        FixedArr(64) => p.take_fixed::<64>().err(),
        FixedArr(4) => p.take_fixed::<4>().err(),
        Wide(k) => wide(p, *k, true).err(),
        WideArr(k) => wide(p, *k, false).err(),
        Tag8 => p.take_tagword::<(), u8, Vec<u8>>((0..=255).collect()).err(),
        Tag16 => p.take_tagword::<(), u16, [u16; 1]>([0]).err(),
        SelfTerm(t) => {
            let t = *t;
            p.take_self_terminating(move |x| x < t).err()
        }
        Fit(n) => p.set_fit(*n).err(),
        Close => p.enforce_target().err(),
        SkipX(k) => p.skip_exactly(*k).err(),
        Pfx(1) => p.process_prefix::<u8>().err(),
        Pfx(2) => p.process_prefix::<u16>().err(),
        Pfx(_) => p.process_prefix::<u30>().err(),
        SkipDyn(1) => p.skip_dynamic::<u8>().err(),
        SkipDyn(2) => p.skip_dynamic::<u16>().err(),
        SkipDyn(_) => p.skip_dynamic::<u30>().err(),
        _ => None,
    }
}

fn judge_history<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, buf: &[u8], h: &[Op]) -> Verdict {
    let (last, before) = match h.split_last() {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    let mut m = M::new(buf.len());
    for op in before {
        let e = m.step(buf, op);
        if e == Out::ErrLoose {
            return Verdict::Prune;
        }
        match quiet(|| apply(&mut p, buf, op)) {
            Ok(g) if e.admits(&g) && p.remainder() == m.rem() => {}
            _ => return Verdict::Prune,
        }
    }
    let want = match predict(&m, buf, last) {
        Some(w) => w,
        None => return Verdict::Pass,
    };
    match quiet(|| provoke(&mut p, last)) {
        Err(_) | Ok(None) => Verdict::Prune,
        Ok(Some(e)) => match agrees(&e, &want) {
            Ok(()) => Verdict::Pass,
            Err(m) => Verdict::Fail(m),
        },
    }
}
fn judge_kind(k: PK, buf: &[u8], h: &[Op]) -> Verdict {
    match k {
        PK::Byte => judge_history(ByteParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Memo => judge_history(MemoParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Slice => judge_history(SliceParser::from_buffer(SliceBuffer::new(buf)), buf, h),
    }
}

// ---- tags -----------------------------------------------------------------------------------
macro_rules! tag_tests {
    ($ck:ident, $t:ty, $w:literal, $words:expr, $sets:expr) => {
        for set in $sets {
            let set: Vec<$t> = set;
            for x in $words {
                let x: $t = x;
                $ck.st(1);
                let bytes = x.to_be_bytes();
                macro_rules! one {
                    ($what:expr, $v:expr) => {
                        $ck.tr(1);
                        $ck.case(
                            || format!("tag {x:#x} against {set:?} given as {}", $what),
                            || {
                                let mut p = ByteParser::from_buffer(VecBuffer::from(&bytes[..]));
                                let r = p.take_tagword::<Marker, $t, _>($v);
                                if set.contains(&x) {
                                    return match r {
                                        Ok(y) if y == x => Ok(()),
                                        r => Err(format!("gave {r:?}")),
                                    };
                                }
                                match r {
                                    Ok(y) => Err(format!("accepted as {y}")),
                                    Err(ParseError::Internal(InternalError::NoValidTags)) if set.is_empty() => Ok(()),
                                    Err(ParseError::Token(t)) if !set.is_empty() => {
                                        let mut u: Vec<u64> = set.iter().map(|x| *x as u64).collect();
                                        if $what == "a hash set" {
                                            u.sort();
                                            u.dedup();
                                            if u.len() > 4 {
                                                // listed in any order
                                                return if format!("{t:?}").contains(&format!("actual: {x},")) { Ok(()) } else { Err(format!("{t:?}")) };
                                            }
                                        }
                                        tag_says(&t, $w, x as u64, &u, &[type_name::<Marker>()])
                                    }
                                    Err(e) => Err(format!("{e:?}")),
                                }
                            },
                        );
                    };
                }
                one!("a vector", set.clone());
                one!("a borrowed vector", &set);
                one!("a slice", &set[..]);
                one!("a hash set", set.iter().copied().collect::<HashSet<$t>>());
                match set.len() {
                    0 => {
                        let a: [$t; 0] = [];
                        one!("an array", a);
                        one!("a borrowed array", &a);
                    }
                    1 => {
                        let a: [$t; 1] = set.clone().try_into().unwrap();
                        one!("an array", a);
                        one!("a borrowed array", &a);
                    }
                    2 => {
                        let a: [$t; 2] = set.clone().try_into().unwrap();
                        one!("an array", a);
                        one!("a borrowed array", &a);
                    }
                    4 => {
                        let a: [$t; 4] = set.clone().try_into().unwrap();
                        one!("an array", a);
                        one!("a borrowed array", &a);
                    }
                    _ => {}
                }
            }
        }
    };
}
struct Marker;

macro_rules! try_tags {
    ($ck:ident, $e:ty, $t:ty, $words:expr) => {
        let tags: Vec<$t> = <$e>::iter_tags().collect();
        for x in $words {
            let x: $t = x;
            $ck.st(1);
            $ck.tr(1);
            $ck.case(
                || format!("{}::try_from({x:#x})", stringify!($e)),
                || match <$e>::try_from(x) {
                    Ok(_) if tags.contains(&x) => Ok(()),
                    Ok(v) => Err(format!("accepted as {v:?}")),
                    Err(e) => {
                        if tags.contains(&x) {
                            return Ok(());
                        }
                        let u: Vec<u64> = tags.iter().map(|x| *x as u64).collect();
                        if orders(&u).iter().any(|o| TagError::new(x, type_name::<$e>(), Some(o.iter().map(|y| *y as $t).collect())) == e) {
                            Ok(())
                        } else {
                            Err(format!("{e:?}, expected {x} rejected for {} with valid tags {tags:?}", type_name::<$e>()))
                        }
                    }
                },
            );
        }
    };
}

// ---- numbers --------------------------------------------------------------------------------
fn grid(min: i64, max: i64, dense: i64) -> Vec<i128> {
    let mut s = std::collections::BTreeSet::new();
    for x in -dense..=dense {
        s.insert(x as i128);
    }
    for p in [0, min, max, max - min, min - max] {
        for w in 0..=64 {
            for sg in [-1i128, 1] {
                for d in -1..=1 {
                    s.insert(p as i128 + sg * (1i128 << w) + d);
                    s.insert(p as i128 + d);
                }
            }
        }
    }
    s.into_iter().collect()
}
macro_rules! ints {
    ($v:ident, $t:ty, $min:literal, $max:literal) => {
        $v.push(section(concat!("out of RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">"), |ck| {
            type R = RangedInt<$t, $min, $max>;
            let (min, max) = ($min as i64, $max as i64);
            for x in grid(min, max, if ck.thorough() { 70_000 } else { 3000 }) {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                // numbers are converted to offsets in a range that starts above zero
                let off = if min > 0 { x - min as i128 } else { x };
                if let Ok(y) = <$t>::try_from(x) {
                    if (if min > 0 { x } else { x }) < 0.min(min as i128) || x > if min > 0 { (max - min) as i128 } else { max as i128 } || x < 0 && min > 0 {
                        ck.tr(1);
                        ck.vcase(
                            || format!("stored {y} as RangedInt<{}, {min}, {max}>", stringify!($t)),
                            || match R::try_from_underlying(y) {
                                Ok(_) => Verdict::Prune,
                                Err(e) => bounds_int(&widen(&e), min as i128, max as i128, &[x]).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                            },
                        );
                    }
                }
                if x >= min as i128 && x <= max as i128 {
                    continue;
                }
                if let Ok(y) = i32::try_from(x) {
                    ck.tr(1);
                    ck.vcase(
                        || format!("i32 {y} as RangedInt<{}, {min}, {max}>", stringify!($t)),
                        || match R::try_from_i32(y) {
                            Ok(_) => Verdict::Prune,
                            Err(e) => bounds_int(&widen(&e), min as i128, max as i128, &[off]).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                        },
                    );
                }
                macro_rules! from {
                    ($s:ty) => {
                        if let Ok(y) = <$s>::try_from(x) {
                            ck.tr(1);
                            ck.vcase(
                                || format!("{} {y} as RangedInt<{}, {min}, {max}>", stringify!($s), stringify!($t)),
                                || match R::try_from(y) {
                                    Ok(_) => Verdict::Prune,
                                    Err(e) => bounds_int(&e, min as i128, max as i128, &[off]).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                                },
                            );
                        }
                    };
                }
                from!(u8);
                from!(i8);
                from!(u16);
                from!(i16);
                from!(u32);
                from!(i32);
                from!(u64);
                from!(i64);
                from!(usize);
                from!(isize);
            }
        }));
    };
}
macro_rules! floats {
    ($v:ident, $min:expr, $max:expr) => {
        $v.push(section(concat!("out of RangedF64!(", stringify!($min), ", ", stringify!($max), ")"), |ck| {
            type R = RangedF64!($min, $max);
            let (min, max): (f64, f64) = ($min, $max);
            for bits in float_samples(if ck.thorough() { 3 } else { 2 }) {
                if ck.stop() {
                    return;
                }
                let x = f64::from_bits(bits);
                ck.st(1);
                if x >= min && x <= max {
                    continue;
                }
                let mut all: Vec<(&str, f64, Result<f64, BoundsError<f64>>)> = vec![
                    ("try_from_f64", x, R::try_from_f64(x).map(|r| r.into())),
                    ("try_from f64", x, R::try_from(x).map(|r| r.into())),
                    ("prevalidate_f64", x, R::prevalidate_f64(x)),
                    ("get_validated", x, unsafe { R::from_f64_unchecked(x) }.get_validated()),
                ];
                let y = x as f32;
                if !(y as f64 >= min && y as f64 <= max) {
                    all.push(("try_from f32", y as f64, R::try_from(y).map(|r| r.into())));
                    all.push(("prevalidate_f32", y as f64, R::prevalidate_f32(y)));
                }
                for (how, x, r) in all {
                    ck.tr(1);
                    ck.vcase(
                        || format!("{how}({x:?}) for {min}..={max}"),
                        || match &r {
                            Ok(_) => Verdict::Prune,
                            Err(e) => bounds_float(e, min, max, x).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                        },
                    );
                }
            }
        }));
    };
}

/// what a range check must answer
fn range_error(e: &BoundsError<i128>, min: i128, max: i128, val: i128) -> Result<(), String> {
    if min > max {
        return match e {
            BoundsError::InvalidBounds { min: a, max: b } if *a == min && *b == max => says(&e.to_string(), &[a, b]),
            BoundsError::IllegalNegative { min: a, val: v } if min > 0 && val < 0 && *a == min && *v == val => says(&e.to_string(), &[a, v]),
            _ => Err(format!("{e:?} for {val} against the range {min}..={max}, which has no number")),
        };
    }
    bounds_int(e, min, max, &[val])
}
/// The range check itself, over all small ranges and numbers and the extreme ones.
fn restrict(ck: &mut Ck) {
    let mut small: Vec<i32> = (-4..=6).collect();
    small.extend([-0x4000_0000, 0x3fff_ffff, i32::MIN, i32::MAX, 255, 256]);
    let mut vals: Vec<i64> = (-12..=12).collect();
    for x in [0x3fff_ffffi64, 0x4000_0000, 1 << 31, 1 << 32, 255, 256] {
        for d in -2..=2 {
            vals.extend([x + d, -x + d]);
        }
    }
    vals.extend([i64::MIN / 2, i64::MAX / 2, i64::MIN, i64::MAX]);
    for &min in &small {
        for &max in &small {
            ck.st(1);
            for &x in &vals {
                if ck.stop() {
                    return;
                }
                let off = if min > 0 { (0i64, max as i64 - min as i64) } else { (min as i64, max as i64) };
                let inside = min <= max && x >= off.0 && x <= off.1;
                ck.tr(3);
                ck.vcase(
                    || format!("BoundsError::<i64>::restrict({x}, {min}, {max})"),
                    || match BoundsError::<i64>::restrict(x, min, max) {
                        Ok(_) if inside => Verdict::Prune,
                        Ok(_) => Verdict::Fail("accepted".into()),
                        Err(_) if inside => Verdict::Prune,
                        Err(e) => range_error(&widen(&e), min as i128, max as i128, x as i128).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                    },
                );
                ck.vcase(
                    || format!("BoundsError::<i128>::restrict({x}, {min}, {max})"),
                    || match BoundsError::<i128>::restrict(x, min, max) {
                        Ok(_) if inside => Verdict::Prune,
                        Ok(_) => Verdict::Fail("accepted".into()),
                        Err(_) if inside => Verdict::Prune,
                        Err(e) => range_error(&e, min as i128, max as i128, x as i128).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                    },
                );
                // a number that does not even fit the type the bounds are compared in
                let y = x as u64;
                if x < 0 {
                    ck.vcase(
                        || format!("BoundsError::<i64>::restrict({y}, {min}, {max})"),
                        || match BoundsError::<i64>::restrict(y, min, max) {
                            Ok(_) => Verdict::Fail("accepted".into()),
                            Err(e) => {
                                let inner = i64::try_from(y).unwrap_err();
                                let src = e.source().map(|s| s.to_string());
                                if e != BoundsError::Failed(inner) || src != Some(inner.to_string()) || !e.to_string().contains(&inner.to_string()) {
                                    return Verdict::Fail(format!("{e:?} caused by {src:?}"));
                                }
                                Verdict::Pass
                            }
                        },
                    );
                }
            }
        }
    }
    let fs = [f64::NEG_INFINITY, -1e300, -2.0, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1.0, 2.0, 1e300, f64::INFINITY, f64::NAN, -f64::NAN];
    let bits = |x: f64| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
    for min in fs {
        for max in fs {
            ck.st(1);
            for x in fs {
                ck.tr(1);
                ck.vcase(
                    || format!("BoundsError::restrict_float({x:?}, {min:?}, {max:?})"),
                    || match BoundsError::restrict_float(x, min, max) {
                        Ok(_) if x >= min && x <= max => Verdict::Prune,
                        Ok(_) => Verdict::Fail("accepted".into()),
                        Err(e) if min <= max => bounds_float(&e, min, max, x).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                        Err(BoundsError::InvalidBounds { min: a, max: b }) if bits(a) == bits(min) && bits(b) == bits(max) => {
                            says(&BoundsError::InvalidBounds { min: a, max: b }.to_string(), &[&min, &max]).map_or_else(Verdict::Fail, |_| Verdict::Pass)
                        }
                        Err(e) => Verdict::Fail(format!("{e:?}")),
                    },
                );
            }
        }
    }
}
/// Every conversion into a range that has no number.
macro_rules! empty {
    ($ck:ident, $t:ty, $min:literal, $max:literal) => {{
        type R = RangedInt<$t, $min, $max>;
        let (min, max) = ($min as i128, $max as i128);
        let name = concat!("RangedInt<", stringify!($t), ", ", stringify!($min), ", ", stringify!($max), ">");
        for x in grid($min, $max, 300) {
            $ck.st(1);
            let off = if min > 0 { x - min } else { x };
            macro_rules! one {
                ($how:expr, $e:expr, $val:expr) => {
                    $ck.tr(1);
                    $ck.vcase(
                        || format!("{} {x} as {name}", $how),
                        || match $e {
                            Ok(_) => Verdict::Fail("accepted".into()),
                            Err(e) => range_error(&e, min, max, $val).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                        },
                    );
                };
            }
            if let Ok(y) = <$t>::try_from(x) {
                one!("stored", R::try_from_underlying(y).map_err(|e| widen(&e)), x);
                let b = y.to_bytes();
                one!(
                    "decoding",
                    R::try_decode::<_, SliceParser>(&b[..]).map_err(|e| match e {
                        DecodeError::Parse(ParseError::External(ExternalError::IntRangeViolation(e))) => widen(&e),
                        e => panic!("{e:?}"),
                    }),
                    x
                );
            }
            if let Ok(y) = i32::try_from(x) {
                one!("i32", R::try_from_i32(y).map_err(|e| widen(&e)), off);
                one!("try_from i32", R::try_from(y), off);
            }
            if let Ok(y) = u8::try_from(x) {
                one!("try_from u8", R::try_from(y), off);
            }
            if let Ok(y) = i64::try_from(x) {
                one!("try_from i64", R::try_from(y), off);
            }
            if let Ok(y) = u64::try_from(x) {
                one!("try_from u64", R::try_from(y), off);
            }
        }
    }};
}

/// `e` must name `inner` as its cause and (where `quotes`) say what it says.
fn caused(ck: &mut Ck, e: &(dyn Error + 'static), inner: Option<&(dyn Error + 'static)>, quotes: bool) {
    ck.st(1);
    ck.tr(1);
    ck.vcase(
        || format!("the cause of {e:?}"),
        || {
            let show = |x: &(dyn Error + 'static)| format!("{x:?} \"{x}\"");
            let (got, want) = (e.source().map(show), inner.map(show));
            if got != want {
                return Verdict::Fail(format!("is given as {got:?}, expected {want:?}"));
            }
            let m = e.to_string();
            if m.trim().is_empty() {
                return Verdict::Fail("the message is empty".into());
            }
            if let Some(i) = inner.filter(|_| quotes) {
                if !m.contains(&i.to_string()) {
                    return Verdict::Fail(format!("the message \"{m}\" does not say \"{i}\""));
                }
            }
            Verdict::Pass
        },
    );
}
/// Every way one error wraps another: the cause is named, the message quotes it, and the
/// conversion makes the wrapper it should.
fn causes(ck: &mut Ck) {
    use tedium::parse::cleanup::{InvariantError, LeftoverState};
    fn same<A: std::fmt::Debug>(ck: &mut Ck, how: &str, a: A, b: A) {
        ck.tr(1);
        let (x, y) = (format!("{a:?}"), format!("{b:?}"));
        ck.vcase(|| format!("{how} of {y}"), || if x == y { Verdict::Pass } else { Verdict::Fail(format!("gives {x}")) });
    }
    let ns = [0usize, 1, 7, 255, 65_536, usize::MAX];
    let mut wins = vec![WindowError::CloseWithoutWindow];
    for a in ns {
        wins.push(WindowError::CloseWithResidue { residual: a });
        wins.push(WindowError::OffsetOverflow { excess: a });
        for b in ns {
            wins.push(WindowError::OpenWouldExceedBuffer { bytes_left: a, request: b });
            wins.push(WindowError::OpenWouldExceedWindow { limit: a, request: b });
            for c in ns {
                wins.push(WindowError::ConsumeWouldExceedLimit { offset: a, requested: b, limit: c });
            }
        }
    }
    let mut parse: Vec<ParseError> = vec![];
    for w in &wins {
        caused(ck, w, None, false);
        let nums: Vec<&dyn std::fmt::Display> = match w {
            WindowError::CloseWithoutWindow => vec![],
            WindowError::CloseWithResidue { residual: a } | WindowError::OffsetOverflow { excess: a } => vec![a],
            WindowError::OpenWouldExceedBuffer { bytes_left: 0, request } => vec![request],
            WindowError::OpenWouldExceedBuffer { bytes_left: a, request: b } | WindowError::OpenWouldExceedWindow { limit: a, request: b } => vec![a, b],
            WindowError::ConsumeWouldExceedLimit { offset, requested, limit } => vec![offset, requested, limit],
        };
        ck.tr(1);
        ck.vcase(|| format!("the message of {w:?}"), || says(&w.to_string(), &nums).map_or_else(Verdict::Fail, |_| Verdict::Pass));
        same(ck, "ParseError::from", ParseError::from(*w), ParseError::Window(*w));
        caused(ck, &ParseError::Window(*w), Some(w), true);
        caused(ck, &InvariantError::ErrorCaseUnexpected(*w), Some(w), true);
        parse.push(ParseError::Window(*w));
    }
    macro_rules! tags {
        ($t:ty, $tok:ident) => {
            for x in [0, 1, 0x7f, 0xff, <$t>::MAX] {
                for set in [None, Some(vec![]), Some(vec![1]), Some(vec![9, 3])] {
                    let e = TagError::<$t>::new(x, "Thing", set);
                    caused(ck, &e, None, false);
                    ck.vcase(|| format!("the message of {e:?}"), || if e.to_string().contains("Thing") && e.to_string().contains(&format!("{x:x}")) { Verdict::Pass } else { Verdict::Fail(e.to_string()) });
                    same(ck, "ParseError::from", ParseError::from(e.clone()), ParseError::Token(TokenError::$tok(e.clone())));
                    caused(ck, &TokenError::$tok(e.clone()), Some(&e), true);
                    parse.push(ParseError::Token(TokenError::$tok(e)));
                }
            }
        };
    }
    tags!(u8, InvalidTagU8);
    tags!(u16, InvalidTagU16);
    tags!(u32, InvalidTagU30);
    for x in 0..=255u8 {
        let bytes = vec![x, 0x80, x];
        for t in [TokenError::InvalidBoolean(x), TokenError::NonTerminating(bytes.clone()), TokenError::NonNullPaddingByte { padding: bytes }] {
            caused(ck, &t, None, false);
            ck.vcase(|| format!("the message of {t:?}"), || if t.to_string().contains(&format!("{x:02x}")) { Verdict::Pass } else { Verdict::Fail(t.to_string()) });
            same(ck, "ParseError::from", ParseError::from(t.clone()), ParseError::Token(t.clone()));
            caused(ck, &ParseError::Token(t.clone()), Some(&t), true);
        }
    }
    let slice: Result<[u8; 4], _> = (&[1u8, 2][..]).try_into();
    let slice: std::array::TryFromSliceError = slice.unwrap_err();
    same(ck, "InternalError::from", InternalError::from(slice), InternalError::SliceCoerceFailure(slice));
    caused(ck, &InternalError::SliceCoerceFailure(slice), Some(&slice), false);
    caused(ck, &InternalError::NoValidTags, None, false);
    parse.push(ParseError::Internal(InternalError::NoValidTags));
    parse.push(ParseError::Internal(InternalError::SliceCoerceFailure(slice)));
    macro_rules! external {
        ($var:ident, $list:expr) => {
            for x in $list {
                same(ck, "ExternalError::from", ExternalError::from(x.clone()), ExternalError::$var(x.clone()));
                same(ck, "ParseError::from", ParseError::from(x.clone()), ParseError::External(ExternalError::$var(x.clone())));
                caused(ck, &ExternalError::$var(x.clone()), Some(&x), true);
                let b: Box<dyn Error + Send + Sync> = Box::new(x.clone());
                caused(ck, &ExternalError::from(b), Some(&x), true);
                let r = ParseError::reify(x.clone());
                caused(ck, &r, r.source(), true);
                ck.vcase(
                    || format!("the error made of {x:?}"),
                    || match &r {
                        ParseError::External(ExternalError::GenericError(g)) if format!("{g:?}") == format!("{x:?}") => Verdict::Pass,
                        r => Verdict::Fail(format!("{r:?}")),
                    },
                );
                parse.push(ParseError::External(ExternalError::$var(x)));
            }
        };
    }
    let failed = u8::try_from(256i32).unwrap_err();
    macro_rules! bounds {
        ($t:ty) => {
            vec![
                BoundsError::<$t>::Underflow { min: 3 as $t, val: -4 as $t },
                BoundsError::<$t>::Overflow { max: 30 as $t, val: 41 as $t },
                BoundsError::<$t>::InvalidBounds { min: 52 as $t, max: 17 as $t },
                BoundsError::<$t>::IllegalNegative { min: 6 as $t, val: -77 as $t },
                BoundsError::<$t>::Failed(failed),
            ]
        };
    }
    for e in bounds!(i64) {
        caused(ck, &e, if let BoundsError::Failed(x) = &e { Some(x) } else { None }, true);
    }
    for e in bounds!(f64) {
        caused(ck, &e, if let BoundsError::Failed(x) = &e { Some(x) } else { None }, true);
    }
    for e in bounds!(i128) {
        caused(ck, &e, if let BoundsError::Failed(x) = &e { Some(x) } else { None }, true);
        let nums: Vec<i128> = match &e {
            BoundsError::Underflow { min, val } => vec![*min, *val],
            BoundsError::Overflow { max, val } => vec![*max, *val],
            BoundsError::InvalidBounds { min, max } => vec![*min, *max],
            BoundsError::IllegalNegative { min, val } => vec![*min, *val],
            BoundsError::Failed(_) => vec![],
        };
        let nums: Vec<&dyn std::fmt::Display> = nums.iter().map(|x| x as _).collect();
        ck.vcase(|| format!("the message of {e:?}"), || says(&e.to_string(), &nums).map_or_else(Verdict::Fail, |_| Verdict::Pass));
    }
    same(ck, "BoundsError::from", BoundsError::<i64>::from(failed), BoundsError::Failed(failed));
    external!(IntRangeViolation, bounds!(i64));
    external!(FloatRangeViolation, bounds!(f64));
    external!(UncoercableString, vec![String::from_utf8(vec![0x61, 0xff]).unwrap_err(), String::from_utf8(vec![0xe2, 0x82]).unwrap_err()]);
    let mut widths = vec![];
    let mut lens = vec![];
    for a in ns {
        for b in ns {
            widths.extend([WidthError::TooWide { limit: a, actual: b }, WidthError::WrongWidth { exact: a, actual: b }]);
            lens.extend([LengthError::TooLong { limit: a, actual: b }, LengthError::WrongLength { exact: a, actual: b }]);
        }
        widths.push(WidthError::InvalidWidth { valid: &[20, 32], actual: a });
    }
    for w in &widths {
        caused(ck, w, None, false);
        let nums: Vec<&dyn std::fmt::Display> = match w {
            WidthError::TooWide { limit: a, actual: b } | WidthError::WrongWidth { exact: a, actual: b } => vec![a, b],
            WidthError::InvalidWidth { valid, actual } => vec![&valid[0], &valid[1], actual],
        };
        ck.vcase(|| format!("the message of {w:?}"), || says(&w.to_string(), &nums).map_or_else(Verdict::Fail, |_| Verdict::Pass));
    }
    for w in &lens {
        caused(ck, w, None, false);
        let (LengthError::TooLong { limit: a, actual: b } | LengthError::WrongLength { exact: a, actual: b }) = w;
        ck.vcase(|| format!("the message of {w:?}"), || says(&w.to_string(), &[a, b]).map_or_else(Verdict::Fail, |_| Verdict::Pass));
    }
    external!(WidthViolation, widths);
    external!(LengthViolation, lens);
    for h in [HexConvError::OddParity("abc".into()), HexConvError::NonHex("zz".into())] {
        caused(ck, &h, None, false);
        same(ck, "DecodeError::from", DecodeError::from(h.clone()), DecodeError::Conv(h.clone()));
        caused(ck, &DecodeError::Conv(h.clone()), Some(&h), true);
    }
    // every parse error inside the errors that carry one
    for e in &parse {
        let inner = match e {
            ParseError::Window(x) => x as &(dyn Error + 'static),
            ParseError::Internal(x) => x,
            ParseError::External(x) => x,
            ParseError::Token(x) => x,
        };
        caused(ck, e, Some(inner), true);
    }
    for p in parse {
        let text = format!("{p:?}");
        let a = InvariantError::ErrorKindUnexpected(p);
        let InvariantError::ErrorKindUnexpected(i) = &a else { unreachable!() };
        caused(ck, &a, Some(i), true);
        let InvariantError::ErrorKindUnexpected(p) = a else { unreachable!() };
        let a = InvariantError::ErrorUnexpected(p);
        let InvariantError::ErrorUnexpected(i) = &a else { unreachable!() };
        caused(ck, &a, Some(i), true);
        let d = DecodeError::from(a);
        let DecodeError::Invariant(i) = &d else {
            ck.vcase(|| format!("DecodeError::from(the unexpected {text})"), || Verdict::Fail(format!("{d:?}")));
            continue;
        };
        caused(ck, &d, Some(i), true);
        let DecodeError::Invariant(InvariantError::ErrorUnexpected(p)) = d else { unreachable!() };
        let d = DecodeError::from(p);
        let DecodeError::Parse(i) = &d else {
            ck.vcase(|| format!("DecodeError::from({text})"), || Verdict::Fail(format!("{d:?}")));
            continue;
        };
        caused(ck, &d, Some(i), true);
    }
    let left = LeftoverState::Windowless(vec![171, 205]);
    caused(ck, &DecodeError::NonEmpty(left), None, false);
}

fn wrong_width<T>(r: Result<T, WidthError>, exact: usize, actual: usize) -> Verdict {
    match r {
        Ok(_) => Verdict::Prune,
        Err(e) => {
            if e != (WidthError::WrongWidth { exact, actual }) {
                return Verdict::Fail(format!("{e:?} for {actual} bytes where {exact} are wanted"));
            }
            says(&e.to_string(), &[&exact, &actual]).map_or_else(Verdict::Fail, |_| Verdict::Pass)
        }
    }
}
fn widths<const LEN: usize>(ck: &mut Ck) {
    for n in (0..=70usize).chain([127, 128, 255, 256, 257, 4096, 65536, 65537]) {
        if n == LEN {
            continue;
        }
        let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let s = String::from_utf8(b.clone()).unwrap();
        ck.st(1);
        ck.tr(6);
        ck.vcase(|| format!("FixedBytes<{LEN}>::try_from_slice of {n} bytes"), || wrong_width(FixedBytes::<LEN>::try_from_slice(&b), LEN, n));
        ck.vcase(|| format!("FixedString<{LEN}>::try_from_bytes of {n} bytes"), || wrong_width(FixedString::<LEN>::try_from_bytes(&b), LEN, n));
        ck.vcase(|| format!("FixedString<{LEN}>::try_from(&[u8]) of {n} bytes"), || wrong_width(FixedString::<LEN>::try_from(&b[..]), LEN, n));
        ck.vcase(|| format!("FixedString<{LEN}>::try_from(&str) of {n} bytes"), || wrong_width(FixedString::<LEN>::try_from(s.as_str()), LEN, n));
        ck.vcase(|| format!("FixedString<{LEN}>::try_from(String) of {n} bytes"), || wrong_width(FixedString::<LEN>::try_from(s.clone()), LEN, n));
        ck.vcase(|| format!("FixedString<{LEN}>::from_str of {n} bytes"), || wrong_width(s.parse::<FixedString<LEN>>(), LEN, n));
    }
}
fn wrong_len<T>(r: Result<T, LengthError>, bound: usize, actual: usize, exact: bool) -> Verdict {
    match r {
        Ok(_) => Verdict::Prune,
        Err(e) => {
            let ok = match e {
                LengthError::TooLong { limit, actual: a } => limit == bound && a == actual && actual > bound,
                LengthError::WrongLength { exact: x, actual: a } => exact && x == bound && a == actual,
            };
            if !ok {
                return Verdict::Fail(format!("{e:?} for {actual} elements where the bound is {bound}"));
            }
            says(&e.to_string(), &[&bound, &actual]).map_or_else(Verdict::Fail, |_| Verdict::Pass)
        }
    }
}
fn lengths<const LEN: usize>(ck: &mut Ck) {
    for n in (0..=40usize).chain([63, 64, 65, 255, 256, 257, 1000]) {
        let v: Vec<u16> = (0..n as u16).collect();
        ck.st(1);
        ck.tr(4);
        if n != LEN {
            ck.vcase(|| format!("FixSeq<u16, {LEN}>::try_from(&[u16]) of {n}"), || wrong_len(FixSeq::<u16, LEN>::try_from(&v[..]), LEN, n, true));
            ck.vcase(|| format!("FixSeq<u16, {LEN}>::try_from(Vec) of {n}"), || wrong_len(FixSeq::<u16, LEN>::try_from(v.clone()), LEN, n, true));
        }
        if n > LEN {
            ck.vcase(|| format!("LimSeq<u16, {LEN}>::try_from(&[u16]) of {n}"), || wrong_len(LimSeq::<u16, LEN>::try_from(&v[..]), LEN, n, false));
            ck.vcase(|| format!("LimSeq<u16, {LEN}>::try_from(Vec) of {n}"), || wrong_len(LimSeq::<u16, LEN>::try_from(v.clone()), LEN, n, false));
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C27",
            explanation: "a state is an input, a parser history or an offered value; a transition is one failing call of the real code, whose error is compared with the failure known from the input alone: kind, every number, byte, tag and string it carries, and the numbers its message mentions. Histories: all of up to four operations (parsers: three; buffers: up to six bytes). Types: the whole catalogue, all short words over the type's alphabet and the edit neighbourhood of encodings, at the start of a buffer, inside a window that ends before the buffer does, and inside one that ends with it. Besides: every range check of every range, ranges that contain no number, and the chain of causes of every error under every conversion into the errors above it.",
            assumptions: &[
                "the wording of messages is free as long as they mention the numbers",
                "for a range that starts above zero the numbers in the error may be numbers or offsets from its start",
                "an element too many for a limited sequence may be refused before or after it is read",
            ],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = Vec::new();
            for k in PKS {
                for (pn, b) in buffers(if th { 7 } else { 6 }) {
                    let depth = if b.len() <= 4 || pn == "count" { 4 } else { 3 };
                    let b2 = b.clone();
                    v.push(section(format!("all histories of {depth} operations, {k:?}, {pn} {}", b.len()), move |ck| {
                        dfs(ck, &b2, depth, Alpha::Min, READ | WIN | EXT, &mut |ck, h| {
                            let mut ok = true;
                            // iterators and searches report no error
                            if !h.last().map_or(false, |o| matches!(o, Op::Next | Op::Nth(_) | Op::Last | Op::Count | Op::Iter(_) | Op::Hint | Op::Kv(..) | Op::Skip(_) | Op::Test)) {
                                ok = ck.vcase(|| show(&b2, Some(k), h), || judge_kind(k, &b2, h));
                            }
                            ok
                        });
                    }));
                }
                // large buffers and windows
                v.push(section(format!("large windows, {k:?}"), move |ck| {
                    for n in [17usize, 255, 256, 257, 1000, 65_535, 65_536, 70_000] {
                        let b: Vec<u8> = (0..n).map(|i| 0x80 | (i % 127) as u8).collect();
                        for pre in [0usize, 1, 16, n / 2, n] {
                            for win in [None, Some(0), Some((n - pre) / 2), Some(n - pre)] {
                                let mut h = vec![];
                                if pre > 0 {
                                    h.push(Op::Consume(pre));
                                }
                                if let Some(w) = win {
                                    h.push(Op::Fit(w));
                                }
                                let left = win.unwrap_or(n - pre);
                                for half in [false, true] {
                                    if half {
                                        h.push(Op::Consume(left / 2));
                                    }
                                    let rem = if half { left - left / 2 } else { left };
                                    let mut last = vec![Op::Close, Op::SelfTerm(1), Op::Fit(rem + 1), Op::Fit(n - pre), Op::Fit(n - pre + 1), Op::Fit(n), Op::Fit(n + 1), Op::Fit(usize::MAX)];
                                    last.extend([Op::Consume(rem + 1), Op::Dyn(rem + 1), Op::SkipX(rem + 1), Op::Consume(usize::MAX), Op::SkipX(usize::MAX), Op::Pfx(1), Op::Pfx(2), Op::Pfx(4), Op::SkipDyn(2), Op::FixedArr(64), Op::Wide(65), Op::Wide(257), Op::WideArr(33), Op::WideArr(129), Op::U64]);
                                    for o in last {
                                        h.push(o);
                                        ck.st(1);
                                        ck.tr(1);
                                        ck.vcase(|| format!("{n} bytes: {h:?} with {k:?}"), || judge_kind(k, &b, &h));
                                        h.pop();
                                    }
                                }
                            }
                        }
                    }
                }));
            }
            v.push(section("tags and their sets", move |ck| {
                let w8: Vec<u8> = (0..=255).collect();
                let s8: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255], vec![7, 3], vec![3, 7], vec![9, 8, 200, 1], (0..=254).rev().collect(), (1..=128).collect()];
                tag_tests!(ck, u8, 1, w8.iter().copied(), s8);
                let w16: Vec<u16> = (0..=260).chain([511, 512, 0x0fff, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]).collect();
                let s16: Vec<Vec<u16>> = vec![vec![], vec![0], vec![0xffff], vec![256, 1], vec![5, 0xff00], vec![9, 8, 200, 1], (0..=254).collect()];
                tag_tests!(ck, u16, 2, w16.iter().copied(), s16);
                let w32: Vec<u32> = (0..=5).chain([255, 256, 0xffff, 0x10000, 0x3fff_ffff, 0x4000_0000, 0x8000_0000, u32::MAX]).collect();
                let s32: Vec<Vec<u32>> = vec![vec![], vec![0], vec![u32::MAX], vec![0x10000, 1], vec![9, 8, 200, 1]];
                tag_tests!(ck, u32, 4, w32.iter().copied(), s32);
                try_tags!(ck, E8, u8, 0..=255u8);
                try_tags!(ck, E8Many, u8, 0..=255u8);
                try_tags!(ck, E16, u16, 0..=u16::MAX);
                try_tags!(ck, E32, u32, (0..=300u32).chain([0x0100_0000, 0x0100_0001, 0x3fff_ffff, 0x4000_0000, u32::MAX]));
            }));
            ints!(v, u8, 0, 100);
            ints!(v, u8, 10, 20);
            ints!(v, i8, -5, 100);
            ints!(v, i8, -128, -3);
            ints!(v, u16, 0, 1000);
            ints!(v, u16, 1, 65535);
            ints!(v, i16, -300, 300);
            ints!(v, i16, 200, 30000);
            ints!(v, i32, -70000, 70000);
            ints!(v, i32, -0x40000000, 0x3fffffff);
            ints!(v, u32, 0, 0x3fffffff);
            ints!(v, u32, 5, 0x3fffffff);
            floats!(v, 0.0, 1.0);
            floats!(v, -1.5, -0.25);
            floats!(v, f64::NEG_INFINITY, 0.0);
            floats!(v, -1e300, 1e300);
            floats!(v, 3.0, 3.0);
            v.push(section("range checks", restrict));
            v.push(section("errors and their causes", causes));
            v.push(section("ranges without numbers", |ck| {
                empty!(ck, u8, 5, 1);
                empty!(ck, u8, 300, 200);
                empty!(ck, u8, 1, 0);
                empty!(ck, i8, 0, -1);
                empty!(ck, i8, -3, -100);
                empty!(ck, u16, 256, 255);
                empty!(ck, i16, 7, -7);
                empty!(ck, i16, 300, 1);
                empty!(ck, u32, 0x3fffffff, 0);
                empty!(ck, i32, 0x3fffffff, -0x40000000);
                empty!(ck, i32, -1, -2);
            }));
            v.push(section("wrong widths", |ck| {
                widths::<0>(ck);
                widths::<1>(ck);
                widths::<4>(ck);
                widths::<20>(ck);
                widths::<32>(ck);
                widths::<33>(ck);
                widths::<64>(ck);
                widths::<65>(ck);
                widths::<256>(ck);
            }));
            v.push(section("wrong lengths", |ck| {
                lengths::<0>(ck);
                lengths::<1>(ck);
                lengths::<2>(ck);
                lengths::<5>(ck);
                lengths::<16>(ck);
                lengths::<33>(ck);
                lengths::<64>(ck);
                lengths::<256>(ck);
            }));
            v.push(section("payloads too wide for their prefix", |ck| {
                macro_rules! wide {
                    ($s:ty, $lim:expr, $ns:expr) => {
                        for n in $ns {
                            ck.st(1);
                            ck.tr(1);
                            ck.vcase(
                                || format!("Dynamic<{}, Bytes> of {n} bytes", stringify!($s)),
                                || match Dynamic::<$s, Bytes>::new(Bytes::from(vec![7u8; n])).length_prefix() {
                                    Ok(_) => Verdict::Prune,
                                    Err(e) if e == (WidthError::TooWide { limit: $lim, actual: n }) => says(&e.to_string(), &[&n, &($lim as usize)]).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                                    Err(e) => Verdict::Fail(format!("{e:?}, expected a limit of {} exceeded by {n}", $lim)),
                                },
                            );
                        }
                    };
                }
                wide!(u8, 255, [256usize, 257, 300, 511, 512, 65536, 70000]);
                wide!(u16, 65535, [65536usize, 65537, 131072, 200_000]);
                if ck.thorough() {
                    wide!(u30, 0x3fff_ffff, [0x4000_0000usize]);
                }
            }));
            v.push(section("text that is no hex", move |ck| {
                let alpha: Vec<char> = if th { "0aFgG zé/:@`".chars().collect() } else { "0aFg é/`".chars().collect() };
                let mut layer = vec![String::new()];
                for _ in 0..5 {
                    let mut next = Vec::new();
                    for w in &layer {
                        for c in &alpha {
                            let mut s = w.clone();
                            s.push(*c);
                            next.push(s);
                        }
                    }
                    for s in &next {
                        hex_text(ck, s);
                    }
                    layer = next;
                }
                for n in [31usize, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] {
                    for at in [0, 1, n / 2, n - 2, n - 1] {
                        for c in ['g', ' ', '/', '@', '`', 'G', ':'] {
                            let mut s: Vec<char> = "0123456789abcdefABCDEF".chars().cycle().take(n).collect();
                            s[at] = c;
                            hex_text(ck, &s.iter().collect::<String>());
                        }
                    }
                    hex_text(ck, &"7".repeat(n));
                }
            }));
            let mut t = V(vec![], tier);
            catalog::all(&mut t);
            v.extend(t.0);
            v
        },
    )
}

fn hex_text(ck: &mut Ck, s: &str) {
    ck.st(1);
    let odd = s.len() % 2 != 0;
    let nonhex = s.bytes().any(|b| !b.is_ascii_hexdigit());
    let good = |e: &HexConvError| match e {
        HexConvError::OddParity(x) if odd => x == s,
        HexConvError::NonHex(x) if nonhex => x == s,
        _ => false,
    };
    let direct: [(&str, Box<dyn Fn() -> Option<HexConvError> + '_>); 6] = [
        ("from_hex", Box::new(|| HexString::from_hex(s).err())),
        ("from_hex of a String", Box::new(|| HexString::from_hex(s.to_string()).err())),
        ("try_from &str", Box::new(|| HexString::try_from(s).err())),
        ("try_from String", Box::new(|| HexString::try_from(s.to_string()).err())),
        ("parse", Box::new(|| s.parse::<HexString>().err())),
        ("try_from Box<str>", Box::new(|| HexString::try_from(s.to_string().into_boxed_str()).err())),
    ];
    if odd || nonhex {
        for (how, f) in direct.iter() {
            ck.tr(1);
            ck.vcase(
                || format!("{how} of {s:?}"),
                || match f() {
                    None => Verdict::Prune,
                    Some(e) if good(&e) => {
                        if format!("{e:?}").contains(s) {
                            Verdict::Pass
                        } else {
                            Verdict::Fail(format!("{e:?} does not show the string"))
                        }
                    }
                    Some(e) => Verdict::Fail(format!("{e:?}, but the string is {s:?}")),
                },
            );
        }
    }
    #[cfg(feature = "implicit_hexstring")]
    {
        ck.tr(1);
        ck.vcase(
            || format!("decoding a u16 from the text {s:?}"),
            || match u16::try_decode::<_, ByteParser>(s) {
                Ok(_) => Verdict::Prune,
                Err(DecodeError::Conv(e)) if good(&e) => Verdict::Pass,
                Err(DecodeError::Parse(e)) if !odd && !nonhex => agrees(&e, &Ev::Short { req: 2, rem: s.len() / 2 }).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                Err(e) => Verdict::Fail(format!("{e:?}")),
            },
        );
    }
    ck.tr(1);
    ck.vcase(
        || format!("decoding a u16 from the hex string of {s:?}"),
        || {
            let h = match HexString::from_hex(s) {
                Ok(h) => h,
                Err(_) => return Verdict::Prune,
            };
            let n = h.len();
            match u16::try_decode::<_, ByteParser>(h) {
                Ok(_) => Verdict::Prune,
                Err(DecodeError::Parse(e)) => agrees(&e, &Ev::Short { req: 2, rem: n }).map_or_else(Verdict::Fail, |_| Verdict::Pass),
                Err(e) => Verdict::Fail(format!("{e:?}, but {n} bytes are too short")),
            }
        },
    );
}
