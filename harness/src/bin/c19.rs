//! C19: build features change only what they document.
//!
//! The default configuration records one line per observation in `VERIF_C19_DIR`; every other
//! configuration makes the same observations and compares them with those lines, adjusted for the
//! documented effect of its features.
use mcheck::catalog::{self, Visitor};
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::path::PathBuf;
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

const COMPLETE: bool = cfg!(feature = "check_complete_parse");
const STRICT_PAD: bool = cfg!(feature = "check_padding");
const HEX: bool = cfg!(feature = "implicit_hexstring");

fn dir() -> Option<PathBuf> {
    std::env::var_os("VERIF_C19_DIR").map(PathBuf::from)
}
fn is_default() -> bool {
    std::env::var("VERIF_CONFIG").map_or(true, |c| c == "default")
}

/// The recorded lines of one section, or the lines being recorded.
struct Rec {
    base: Option<Vec<String>>,
    lines: Vec<String>,
    file: Option<PathBuf>,
    at: usize,
}
impl Rec {
    fn open(ck: &mut Ck, id: usize) -> Rec {
        let file = dir().map(|d| d.join(format!("{id}.txt")));
        if is_default() {
            return Rec { base: None, lines: vec![], file, at: 0 };
        }
        let base = file
            .and_then(|f| std::fs::read_to_string(f).ok())
            .map(|s| s.lines().map(|l| l.to_string()).collect::<Vec<_>>())
            .expect("no recording of the default configuration");
        let _ = ck;
        Rec { base: Some(base), lines: vec![], file: None, at: 0 }
    }
    /// One observation. `adjust` turns the default's line into the one called for here.
    fn ob(&mut self, ck: &mut Ck, desc: impl FnOnce() -> String, f: impl FnOnce() -> String, adjust: impl FnOnce(&str) -> String) {
        ck.tr(1);
        let i = self.at;
        self.at += 1;
        let one_line = |s: String| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
        let mut got = String::new();
        let base = &self.base;
        ck.case(desc, || {
            got = one_line(quiet(f).unwrap_or_else(|_| "panics".into()));
            match base {
                None => Ok(()),
                Some(b) => match b.get(i) {
                    None => Err("the default configuration has no such observation".into()),
                    Some(d) => {
                        let w = adjust(d);
                        if got == w {
                            Ok(())
                        } else if w == *d {
                            Err(format!("here: {}; by default: {}", clip(&got, 300), clip(d, 300)))
                        } else {
                            Err(format!("here: {}; by default: {}, so that {} is called for", clip(&got, 250), clip(d, 250), clip(&w, 250)))
                        }
                    }
                },
            }
        });
        if self.base.is_none() {
            self.lines.push(got);
        }
    }
    fn same(&mut self, ck: &mut Ck, desc: impl FnOnce() -> String, f: impl FnOnce() -> String) {
        self.ob(ck, desc, f, |d| d.to_string())
    }
    fn close(self, ck: &mut Ck) {
        match self.base {
            None => {
                if let Some(f) = self.file {
                    std::fs::write(f, self.lines.join("\n") + "\n").expect("recording");
                }
            }
            Some(b) => {
                if b.len() != self.at && !ck.stop() {
                    ck.case(|| "number of observations".into(), || Err(format!("{} here, {} by default", self.at, b.len())));
                }
            }
        }
    }
}

fn padded(s: &Sch) -> bool {
    match s {
        Sch::Pad(..) => true,
        Sch::Opt(i) | Sch::Nullable(i) | Sch::Seq(i) | Sch::Lim(i, _) | Sch::Fix(i, _) | Sch::VPad(i, _) | Sch::Boxed(i) => padded(i),
        Sch::Dyn { inner, .. } => padded(inner),
        Sch::Prod(ss) => ss.iter().any(padded),
        Sch::Union { vars, .. } => vars.iter().any(|v| padded(&v.1)),
        _ => false,
    }
}
const NO: &str = "rejected";
/// An observation of a parse: `used value`, or rejection.
fn parsed(g: Option<Got>) -> String {
    g.map_or(NO.into(), |g| format!("{} {:?}", g.used, g.val))
}
fn tried<T: Reflect, E>(r: Result<T, E>) -> String {
    r.map_or(NO.into(), |v| format!("{:?}", v.val()))
}
/// What `try_decode` must give here on `b`, given what the default configuration's parser gave.
fn complete(d: &str, s: &Sch, b: &[u8]) -> String {
    let d = pad_rule(d, s, b);
    match d.split_once(' ') {
        None => d.to_string(),
        Some((used, v)) => {
            if COMPLETE && used.parse::<usize>().ok() != Some(b.len()) {
                NO.into()
            } else {
                v.to_string()
            }
        }
    }
}
/// Only non-zero padding is rejected on top, and only with the padding check.
fn pad_rule(d: &str, s: &Sch, b: &[u8]) -> String {
    if STRICT_PAD && padded(s) && decv(s, b, Opts { check_padding: true }).is_none() && decv(s, b, PLAIN).is_some() {
        return NO.into();
    }
    d.to_string()
}

struct V(Vec<Section>, Tier);
impl V {
    fn add(&mut self, name: String, f: impl Fn(&mut Ck, &mut Rec) + Send + Sync + 'static) {
        let id = self.0.len();
        self.0.push(section(name, move |ck| {
            let mut r = Rec::open(ck, id);
            f(ck, &mut r);
            r.close(ck);
        }));
    }
}
fn encodings<T: Reflect>(v: &T) -> String {
    let mut o = vec![];
    let n = v.write_to(&mut o);
    let mut o2 = vec![0xee];
    v.write_to_vec(&mut o2);
    let mut h = HexString::new();
    v.write_to(&mut h);
    let s: Vec<u8> = v.encode::<StrictBuilder>().into();
    let m: Vec<u8> = v.encode::<MemoBuilder>().into();
    format!("{n} {} {} {h} {} {} {}", full(&o), full(&o2), full(&s), full(&m), full(&v.to_bytes()))
}
fn full(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u8>> = s.bytes().map(|c| (c as char).to_digit(16).map(|x| x as u8)).collect();
    let d = d?;
    if d.len() % 2 == 1 {
        return None;
    }
    Some(d.chunks(2).map(|c| c[0] * 16 + c[1]).collect())
}

fn decoding<T: Reflect>(v: &mut V, name: &'static str) {
    let th = v.1 == Tier::Thorough;
    v.add(format!("decode {name}"), move |ck, r| {
        let s = T::sch();
        let vs = vals(&s, Dom { lvl: 1, long: true, cap: if th { 1000 } else { 100 }, depth: 2 });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let bounds = InBounds { words: if th { 20_000 } else { 800 }, seeds: if th { 100 } else { 16 }, positions: if th { 40 } else { 10 }, full_bytes: th, two_bytes: false };
        let ins = inputs(&s, &bounds, &seeds);
        ck.st(ins.len() as u64);
        for b in &ins {
            if ck.stop() {
                return;
            }
            let mut w = vec![0xff, 1];
            w.extend_from_slice(b);
            w.extend([0, 7]);
            for k in PKS {
                r.ob(
                    ck,
                    || format!("{k:?} parser: parse {name} from {}", hexs(b)),
                    || parsed(decode_at::<T>(k, b, START)),
                    |d| pad_rule(d, &s, b),
                );
                r.ob(
                    ck,
                    || format!("{k:?} parser: parse {name} from {} in a window", hexs(b)),
                    || parsed(decode_at::<T>(k, &w, At { pre: 2, win: Some(b.len()) })),
                    |d| pad_rule(d, &s, b),
                );
            }
            // try_decode, against the parser's own result by default
            let own = |f: &dyn Fn() -> String| if is_default() { parsed(decode_at::<T>(PK::Byte, b, START)) } else { f() };
            let ways: [(&str, &dyn Fn() -> String); 6] = [
                ("ByteParser", &|| tried(T::try_decode::<_, ByteParser>(&b[..]))),
                ("MemoParser", &|| tried(T::try_decode::<_, MemoParser>(&b[..]))),
                ("SliceParser", &|| tried(T::try_decode::<_, SliceParser>(&b[..]))),
                ("ByteParser, of a vector", &|| tried(T::try_decode::<_, ByteParser>(b.clone()))),
                ("ByteParser, of a hex string", &|| tried(T::try_decode::<_, ByteParser>(HexString::from(b.clone())))),
                ("decode", &|| match quiet(|| T::decode(&b[..])) {
                    Ok(v) => format!("{:?}", v.val()),
                    Err(_) => NO.into(),
                }),
            ];
            for (how, f) in ways {
                r.ob(ck, || format!("{how}: try_decode {name} from {}", hexs(b)), || own(f), |d| complete(d, &s, b));
            }
        }
        // text
        let mut texts: Vec<String> = vec!["".into(), "0".into(), "00".into(), "ff".into(), "FF".into(), "0x00".into(), "zz".into(), "0g".into(), "+1".into(), "\u{e9}".into(), "a ".into(), "a1b2c3d4".into(), "000".into()];
        for e in seeds.iter().take(if th { 200 } else { 24 }) {
            let h = full(e);
            texts.push(h.to_uppercase());
            texts.push(format!("{h}0"));
            texts.push(format!("{h}00"));
            texts.push(h);
            if let Ok(s) = String::from_utf8(e.clone()) {
                texts.push(s);
            }
        }
        for t in &texts {
            if ck.stop() {
                return;
            }
            ck.st(1);
            // the bytes the text stands for here
            let raw = t.as_bytes().to_vec();
            let hex = unhex(t);
            let of = |b: &[u8]| parsed(decode_at::<T>(PK::Byte, b, START));
            let base = || format!("{}\t{}", of(&raw), hex.as_ref().map_or(NO.to_string(), |h| of(h)));
            let ways: [(&str, &dyn Fn() -> String); 4] = [
                ("&str", &|| tried(T::try_decode::<_, ByteParser>(t.as_str()))),
                ("String", &|| tried(T::try_decode::<_, ByteParser>(t.clone()))),
                ("Cow", &|| tried(T::try_decode::<_, ByteParser>(Cow::Borrowed(t.as_str())))),
                ("&str, tracing", &|| tried(T::try_decode::<_, MemoParser>(t.as_str()))),
            ];
            for (how, f) in ways {
                r.ob(
                    ck,
                    || format!("try_decode {name} from the text {t:?} ({how})"),
                    || if is_default() { base() } else { f() },
                    |d| {
                        let (a, b) = d.split_once('\t').unwrap_or((d, NO));
                        if matches!(s, Sch::Unit) && !COMPLETE {
                            // the unit type does not look at its input
                            "Unit".into()
                        } else if HEX {
                            hex.as_ref().map_or(NO.into(), |h| complete(b, &s, h))
                        } else {
                            complete(a, &s, &raw)
                        }
                    },
                );
            }
        }
    });
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        let th = self.1 == Tier::Thorough;
        self.add(format!("encode {name}"), move |ck, r| {
            let s = T::sch();
            let vs = vals(&s, Dom { lvl: 2, long: true, cap: if th { 20_000 } else { 600 }, depth: 3 });
            ck.st(vs.len() as u64);
            for v in &vs {
                if ck.stop() {
                    return;
                }
                r.same(
                    ck,
                    || format!("{name}: {}", vshow(v)),
                    || {
                        let t = T::make(v);
                        format!("{} {} {} {:?} {:?} {t:?} {:?} {}", t.enc_len(), t.estimate(), t.unknown(), T::KNOWN, t.val(), t.clone().val(), encodings(&t))
                    },
                );
            }
        });
        decoding::<T>(self, name);
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        self.add(format!("encode {name}"), move |ck, r| {
            let s = T::sch();
            for v in &vals(&s, Dom { lvl: 1, long: true, cap: 600, depth: 3 }) {
                ck.st(1);
                r.same(ck, || format!("{name}: {}", vshow(v)), || encodings(&T::make(v)));
            }
        });
        decoding::<T>(self, name);
    }
}

// ---- construction and containers -----------------------------------------------------------------
fn numbers() -> Vec<i64> {
    let mut v: Vec<i64> = (-400..=400).collect();
    for k in [7, 8, 15, 16, 29, 30, 31, 32] {
        for d in -3..=3 {
            v.push((1 << k) + d);
            v.push(-(1 << k) + d);
        }
    }
    v.retain(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64);
    v
}
macro_rules! ranged {
    ($v:ident; $($t:ty as $b:ty),* $(,)?) => {$(
        $v.add(format!("construct {}", stringify!($t)), |ck, r| {
            for x in numbers() {
                ck.st(1);
                r.same(ck, || format!("{} of {x}", stringify!($t)), || {
                    let a = <$t>::try_from_i32(x as i32).ok();
                    let b = <$b>::try_from(x).ok().and_then(|y| <$t>::try_from(y).ok());
                    format!("{:?} {:?}", a.map(|y| (y.to_i32(), format!("{y:?}"), y.to_bytes())), b.map(|y| (y.to_i32(), y.to_bytes())))
                });
            }
        });
    )*};
}
fn container<T: Reflect + Estimable + std::fmt::Debug + PartialEq + PartialOrd, const K: usize>(v: &mut V, name: &'static str) {
    v.add(format!("containers of {name}, {K}"), |ck, r| {
        let els = vals(&T::sch(), Dom { lvl: 1, long: false, cap: 3, depth: 1 });
        for n in 0..=K + 3 {
            for shift in 0..2 {
                ck.st(1);
                let xs = || -> Vec<T> { (0..n).map(|i| T::make(&els[(i + shift) % els.len()])).collect() };
                r.same(
                    ck,
                    || format!("LimSeq of {n}"),
                    || match LimSeq::<T, K>::try_from(xs()) {
                        Err(_) => NO.into(),
                        Ok(mut l) => {
                            let add: Vec<bool> = (0..3).map(|i| quiet(|| l.extend(Some(T::make(&els[i % els.len()])))).is_ok()).collect();
                            format!("{l:?} {add:?} {} {:?}", l.len(), l.iter().map(|x| x.val()).collect::<Vec<_>>())
                        }
                    },
                );
                r.same(
                    ck,
                    || format!("FixSeq of {n}"),
                    || match FixSeq::<T, K>::try_from(xs()) {
                        Err(_) => NO.into(),
                        Ok(l) => format!("{l:?} {} {:?}", l.len(), l.iter().map(|x| x.val()).collect::<Vec<_>>()),
                    },
                );
                r.same(ck, || format!("LimSeq collected from {n}"), || {
                    let l: Option<LimSeq<T, K>> = quiet(|| xs().into_iter().collect()).ok();
                    l.map_or(NO.into(), |l| format!("{:?}", l.val()))
                });
                r.same(ck, || format!("Sequence of {n}"), || {
                    let s = Sequence::from_vec(xs());
                    format!("{s:?} {}", encodings(&s))
                });
            }
        }
    });
}

fn main() {
    run(
        Spec {
            prop: "C19",
            explanation: "states = (type, value), (type, input) and (type, text) triples with the build configuration, plus construction calls and parser histories; a transition = one observation (encodings by every route with all lengths, parse by each of the three real parsers, try_decode from every kind of source, construction, debug form) made in one configuration and compared with the line the default configuration recorded for it, after applying only the documented effect of the enabled features. Configurations: every single feature and all features together (thorough: more combinations).",
            assumptions: &["texts of errors are not compared", "values of integer types whose bounds are inverted are not built (invalid_range_checking exists to refuse them)", "the length of padded types without static length is only defined with relaxed_padding_invariant"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], tier);
            catalog::all(&mut v);
            ranged!(v; RangedInt<u8, 0, 100> as u8, RangedInt<u8, 10, 20> as u8, RangedInt<i8, -5, 5> as i8, RangedInt<u16, 300, 1000> as u16,
                RangedInt<i16, -300, 300> as i16, RangedInt<i32, -1, 1> as i32, RangedInt<u32, 5, 0x3fff_ffff> as u32, u30 as u32, i31 as i32, RangedInt<u8, 3, 3> as u8);
            container::<u8, 0>(&mut v, "u8");
            container::<u8, 1>(&mut v, "u8");
            container::<u8, 3>(&mut v, "u8");
            container::<u16, 2>(&mut v, "u16");
            container::<Option<u16>, 4>(&mut v, "Option<u16>");
            container::<Dynamic<u8, Bytes>, 3>(&mut v, "Dynamic<u8, Bytes>");
            v.add("bytes and texts of fixed width".into(), |ck, r| {
                for n in 0..8usize {
                    for fill in [0u8, 0x41, 0xc3, 0xff] {
                        let b = vec![fill; n];
                        ck.st(1);
                        r.same(ck, || hexs(&b), || {
                            format!(
                                "{:?} {:?} {:?}",
                                FixedBytes::<4>::try_from(&b[..]).ok().map(|x| (format!("{x:?}"), x.to_bytes())),
                                FixedString::<4>::try_from(&b[..]).ok().map(|x| (format!("{x:?} {x}"), x.to_bytes())),
                                Bytes::from(b.clone())
                            )
                        });
                    }
                }
            });
            v.add("hex strings".into(), |ck, r| {
                let al = ['0', '9', 'a', 'f', 'F', 'g', 'G', '+', ' ', 'x', '\u{e9}'];
                let mut ts = vec![String::new()];
                let mut layer = vec![String::new()];
                for _ in 0..4 {
                    layer = layer.iter().flat_map(|t| al.iter().map(move |c| format!("{t}{c}"))).collect();
                    ts.extend(layer.iter().cloned());
                }
                for t in ts {
                    ck.st(1);
                    r.same(ck, || format!("{t:?}"), || match HexString::try_from(t.as_str()) {
                        Err(_) => NO.into(),
                        Ok(h) => format!("{h} {h:?} {:?}", Vec::<u8>::from(h.clone())),
                    });
                }
            });
            let (d, wins) = if th { (4, 6) } else { (3, 4) };
            for (pn, b) in buffers(5).into_iter().filter(|x| x.1.len() >= 3) {
                let name = format!("parser histories of {d} operations, {pn} {}", b.len());
                v.add(name, move |ck, r| {
                    dfs(ck, &b, d, Alpha::Core, 7, &mut |ck, h| {
                        r.same(ck, || show(&b, None, h), || history(&b, h));
                        true
                    });
                });
            }
            v.add("deep window stacks".into(), move |ck, r| {
                let b: Vec<u8> = (0..12).collect();
                for n in 0..40usize {
                    for step in 0..wins {
                        let h: Vec<Op> = (0..n)
                            .map(|i| if i % (step + 2) == step + 1 { Op::Close } else { Op::Fit(12usize.saturating_sub(i * step / 3)) })
                            .chain([Op::Byte])
                            .chain((0..n).map(|_| Op::Close))
                            .collect();
                        ck.st(1);
                        r.same(ck, || show(&b, None, &h), || history(&b, &h));
                    }
                }
            });
            v.0
        },
    )
}

/// Every outcome and remaining count of a history on all three parsers.
fn history(b: &[u8], h: &[Op]) -> String {
    fn go<P: Parser + tedium::parse::ParserExt + Iterator<Item = u8>>(mut p: P, b: &[u8], h: &[Op]) -> String {
        let mut s = String::new();
        let mut m = M::new(b.len());
        for op in h {
            let e = m.step(b, op);
            let o = match quiet(|| apply(&mut p, b, op)) {
                Ok(o) => o,
                Err(_) => return s + "panics",
            };
            s += &format!("{o:?}:{} ", p.remainder());
            if e == Out::ErrLoose {
                break;
            }
        }
        s
    }
    format!(
        "{}| {}| {}",
        go(ByteParser::from_buffer(VecBuffer::from(b)), b, h),
        go(MemoParser::from_buffer(VecBuffer::from(b)), b, h),
        go(SliceParser::from_buffer(SliceBuffer::new(b)), b, h)
    )
}
