//! C15: hex strings are a faithful, total textual form of bytes.
use mcheck::*;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use tedium::error::HexConvError;
use tedium::parse::buffer::VecBuffer;
use tedium::*;

fn digit(c: char) -> Option<u8> {
    match c {
        '0'..='9' => Some(c as u8 - b'0'),
        'a'..='f' => Some(c as u8 - b'a' + 10),
        'A'..='F' => Some(c as u8 - b'A' + 10),
        _ => None,
    }
}
/// The bytes a text denotes.
fn read(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u8>> = s.chars().map(digit).collect();
    let d = d?;
    if d.len() % 2 != 0 {
        return None;
    }
    Some(d.chunks(2).map(|p| p[0] * 16 + p[1]).collect())
}
const LOW: &[u8; 16] = b"0123456789abcdef";
const UP: &[u8; 16] = b"0123456789ABCDEF";
/// How to write each digit: lower, upper, mixed.
fn write(b: &[u8], style: usize) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().flat_map(|x| [x >> 4, x & 15]).enumerate() {
        let up = match style {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => i % 3 == 1,
        };
        s.push((if up { UP } else { LOW })[x as usize] as char);
    }
    s
}

fn want(n: &str, got: Result<HexString, HexConvError>, w: &Option<Vec<u8>>) -> Result<(), String> {
    match (got, w) {
        (Ok(h), Some(b)) if h.as_bytes() == &b[..] => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => Err(format!("{n} gave {g:?}, expected {:?}", w.as_ref().map(|b| hexs(b)))),
    }
}

/// Everything about one text.
fn text(s: &str, full: bool) -> Result<(), String> {
    let w = read(s);
    want("from_hex", HexString::from_hex(s), &w)?;
    want("TryFrom<&str>", HexString::try_from(s), &w)?;
    want("FromStr", HexString::from_str(s), &w)?;
    want("parse", s.parse(), &w)?;
    want("from_hex(String)", HexString::from_hex(s.to_string()), &w)?;
    want("TryFrom<String>", HexString::try_from(s.to_string()), &w)?;
    if full {
        want("TryFrom<Box<str>>", HexString::try_from(Box::<str>::from(s)), &w)?;
        want("TryFrom<Rc<str>>", HexString::try_from(Rc::<str>::from(s)), &w)?;
        want("TryFrom<Arc<str>>", HexString::try_from(Arc::<str>::from(s)), &w)?;
        want("TryFrom<Cow<str>>", HexString::try_from(Cow::from(s)), &w)?;
        want("TryFrom<Cow<str>> owned", HexString::try_from(Cow::<str>::from(s.to_string())), &w)?;
        want("from_hex(Rc<str>)", HexString::from_hex(Rc::<str>::from(s)), &w)?;
        want("from_hex(Cow<str>)", HexString::from_hex(Cow::<str>::from(s)), &w)?;
        match (quiet(|| hex!(s)), &w) {
            (Ok(h), Some(b)) if h.as_bytes() == &b[..] => {}
            (Err(_), None) => {}
            (g, _) => return Err(format!("hex! gave {g:?}")),
        }
        // the errors can be shown
        if let Err(e) = HexString::from_hex(s) {
            let _ = format!("{e} {e:?}");
        }
    }
    // comparisons with the denoted bytes and with bytes nearby
    let mut others: Vec<Vec<u8>> = vec![vec![], vec![0], s.as_bytes().to_vec(), vec![0xab; s.len() / 2], vec![0; (s.len() + 1) / 2]];
    if let Some(b) = &w {
        others.push(b.clone());
        let n = b.len();
        let mut at: Vec<usize> = if n <= 48 { (0..n).collect() } else { vec![0, 1, 7, 8, 15, 16, 31, 32, 33, n / 2, n - 33, n - 32, n - 17, n - 16, n - 9, n - 8, n - 2, n - 1] };
        at.dedup();
        for i in at {
            let mut c = b.clone();
            c[i] ^= 1;
            others.push(c.clone());
            c[i] ^= 0x11;
            others.push(c.clone());
            // special and repeated bytes
            for x in [0, 0xff, b[i.saturating_sub(1)], b[(i + 1).min(n - 1)]] {
                c[i] = x;
                if c != *b {
                    others.push(c.clone());
                }
            }
        }
        others.push([&b[..], &[0]].concat());
        others.push(b[..b.len().saturating_sub(1)].to_vec());
    }
    for o in others {
        let h = HexString::from_vec(o.clone());
        let e = w.as_ref() == Some(&o);
        let mut r = vec![h.eq_hex(s), h == s, s == h];
        if full {
            let st = s.to_string();
            let c: Cow<str> = Cow::from(s);
            let oc: Cow<str> = Cow::from(st.clone());
            r.extend([h == st, st == h, h == c, c == h, h == oc, oc == h, h.eq_hex(&st), h.eq_hex(&c), h.eq_hex(&s)]);
        }
        if r.iter().any(|x| *x != e) {
            return Err(format!("comparisons with {} gave {r:?}, expected {e}", hexs(&o)));
        }
    }
    Ok(())
}

/// Everything about one byte string.
fn bytes(b: &[u8]) -> Result<(), String> {
    let lower = write(b, 0);
    let h = HexString::from_vec(b.to_vec());
    if h.to_hex() != lower || h.to_string() != lower || format!("{h}") != lower {
        return Err(format!("hex text {} / {h}", h.to_hex()));
    }
    if !format!("{h:?}").contains(&format!("\"{lower}\"")) {
        return Err(format!("debug text {h:?}"));
    }
    for st in 0..4 {
        let t = write(b, st);
        match HexString::from_hex(&t) {
            Ok(g) if g == h && g.as_bytes() == b => {}
            g => return Err(format!("{t} parsed to {g:?}")),
        }
        if !h.eq_hex(&t) || h != t.as_str() || t != h {
            return Err(format!("not equal to {t}"));
        }
    }
    let same = |n: &str, g: HexString| if g.as_bytes() == b && g == h { Ok(()) } else { Err(format!("{n} gave {g}")) };
    same("From<Vec>", HexString::from(b.to_vec()))?;
    same("From<&[u8]>", HexString::from(b))?;
    same("From<Box<[u8]>>", HexString::from(b.to_vec().into_boxed_slice()))?;
    same("From<Rc<[u8]>>", HexString::from(Rc::<[u8]>::from(b)))?;
    same("From<Arc<[u8]>>", HexString::from(Arc::<[u8]>::from(b)))?;
    same("From<Cow<[u8]>>", HexString::from(Cow::from(b)))?;
    same("From<Cow<[u8]>> owned", HexString::from(Cow::from(b.to_vec())))?;
    same("clone_from_bytes", HexString::clone_from_bytes(b))?;
    same("clone_from_bytes(Vec)", HexString::clone_from_bytes(b.to_vec()))?;
    same("from_bytes", HexString::from_bytes(b))?;
    same("from_bytes(Vec)", HexString::from_bytes(b.to_vec()))?;
    same("from_iter", b.iter().copied().collect())?;
    same("from_iter of references", b.iter().collect())?;
    same("clone", h.clone())?;
    let mut x = HexString::new();
    if !x.is_empty() || x != HexString::default() || x.len() != 0 {
        return Err("new is not empty".into());
    }
    x.extend(b.iter());
    same("extend by reference", x.clone())?;
    x.as_mut_vec().clear();
    x.extend(b.iter().copied());
    same("extend", x.clone())?;
    x.as_mut_vec().clear();
    {
        use std::io::Write;
        x.write_all(b).and_then(|_| x.flush()).map_err(|e| e.to_string())?;
    }
    same("io write", x.clone())?;
    for y in x.as_mut_bytes() {
        *y = !*y;
    }
    for y in AsMut::<[u8]>::as_mut(&mut x) {
        *y = !*y;
    }
    same("mutable views", x)?;
    macro_rules! arr { ($($k:literal)*) => { match b.len() { $($k => {
        let a: [u8; $k] = <[u8; $k]>::try_from(b).unwrap();
        same("From<[u8; N]>", HexString::from(a))?;
        same("From<&[u8; N]>", HexString::from(&a))?;
        same("From<Box<[u8; N]>>", HexString::from(Box::new(a)))?;
        same("From<Rc<[u8; N]>>", HexString::from(Rc::new(a)))?;
        same("From<Arc<[u8; N]>>", HexString::from(Arc::new(a)))?;
        same("From<Cow<[u8; N]>>", HexString::from(Cow::<[u8; $k]>::Owned(a)))?;
        same("From<Cow<[u8; N]>> borrowed", HexString::from(Cow::Borrowed(&a)))?;
        same("from_bytes([u8; N])", HexString::from_bytes(a))?;
    })* _ => {} } }; }
    arr!(0 1 2 3 4 5 8 31 32 33);
    if h.as_bytes() != b || h.as_vec() != b || h.len() != b.len() || h.is_empty() != b.is_empty() || AsRef::<[u8]>::as_ref(&h) != b {
        return Err("views differ".into());
    }
    if !h.iter().eq(b.iter()) || !(&h).into_iter().eq(b.iter()) || !h.clone().into_iter().eq(b.iter().copied()) || !h.iter().rev().eq(b.iter().rev()) {
        return Err("iteration differs".into());
    }
    if Vec::from(h.clone()) != b || h.clone().into_inner() != b {
        return Err("into a vector".into());
    }
    // decoding from a hex string reads exactly its bytes
    let mut p = ByteParser::from_buffer(VecBuffer::from(h.clone()));
    if p.remainder() != b.len() || p.take_dynamic(b.len()).map_err(|_| "read")? != b {
        return Err("a parser over it sees other bytes".into());
    }
    Ok(())
}

/// All texts over an alphabet with the given lengths.
fn texts(al: Vec<&'static str>, lens: std::ops::RangeInclusive<usize>, full: bool, part: usize, of: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        for len in lens.clone() {
            for i in (0..al.len().pow(len as u32)).filter(|i| i % of == part) {
                if ck.stop() {
                    return;
                }
                let mut x = i;
                let mut s = String::new();
                for _ in 0..len {
                    s.push_str(al[x % al.len()]);
                    x /= al.len();
                }
                ck.st(1);
                ck.tr(if full { 40 } else { 20 });
                ck.case(|| format!("text {s:?}"), || text(&s, full));
            }
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C15",
            explanation: "states = texts and byte strings; transitions = conversions and comparisons on the real HexString, judged by a digit table. Texts: every Unicode character alone and beside a digit, every text of two and (thorough) three ASCII characters, every text of up to 5 (thorough 6) characters over an alphabet of boundary characters (neighbours of the digit ranges, signs, spaces, radix letters, multi-byte digits and letters), and one wrong character at every place of longer texts. Byte strings: all of up to two bytes (thorough three), and patterns up to 300 bytes and around powers of two up to 2^17 (2^20). Every conversion in and out, and comparison in both directions with every text type.",
            assumptions: &["the wording of errors is not checked"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let ascii: Vec<&'static str> = (0u8..128).map(|c| &*Box::leak((c as char).to_string().into_boxed_str())).collect();
            let edge = vec!["0", "9", "a", "f", "A", "F", "/", ":", "@", "G", "`", "g", "+", "-", " ", "x", "_", "\0", "é", "１", "ａ", "𝟘", "\u{660}"];
            let few = vec!["0", "7", "b", "E", "F", "g", "+", "é", "１", "𝟘"];
            let mut v: Vec<Section> = vec![];
            for i in 0..8 {
                v.push(section(format!("every ASCII pair, part {i}"), texts(ascii.clone(), 0..=2, true, i, 8)));
                v.push(section(format!("boundary characters, part {i}"), texts(edge.clone(), 1..=if th { 4 } else { 3 }, true, i, 8)));
                v.push(section(format!("few characters, part {i}"), texts(few.clone(), 4..=if th { 6 } else { 5 }, false, i, 8)));
                if th {
                    v.push(section(format!("every ASCII triple, part {i}"), texts(ascii.clone(), 3..=3, false, i, 8)));
                }
            }
            v.push(section("every character", |ck| {
                for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
                    if ck.stop() {
                        return;
                    }
                    for s in [format!("{c}"), format!("0{c}"), format!("{c}1"), format!("{c}{c}")] {
                        ck.st(1);
                        ck.tr(3);
                        ck.case(
                            || format!("text {s:?}"),
                            || {
                                let w = read(&s);
                                want("from_hex", HexString::from_hex(&s), &w)?;
                                let h = HexString::from_vec(w.clone().unwrap_or(vec![0; (s.len() + 1) / 2]));
                                if h.eq_hex(&s) != w.is_some() {
                                    return Err("comparison".into());
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }));
            v.push(section("one wrong character in a longer text", |ck| {
                for n in [2usize, 4, 6, 8, 16, 17, 31, 32, 64, 66] {
                    let t = "0123456789abcdefABCDEF".chars().cycle().take(n).collect::<String>();
                    for i in 0..n {
                        for c in ["g", "/", ":", "@", "`", "+", " ", "é", "１", "𝟘", "\u{feff}", ""] {
                            let s = format!("{}{c}{}", &t[..i], &t[i + 1..]);
                            ck.st(1);
                            ck.tr(40);
                            ck.case(|| format!("text {s:?}"), || text(&s, true));
                        }
                    }
                    ck.case(|| format!("text {t:?}"), || text(&t, true));
                }
            }));
            v.push(section("long texts and byte strings", move |ck| {
                let mut ns: Vec<usize> = (68..300).collect();
                for e in 9..if th { 21 } else { 18 } {
                    ns.extend([(1usize << e) - 1, 1 << e, (1 << e) + 1]);
                }
                ns.extend([1000, 10_000, 100_000]);
                for n in ns {
                    for f in [0u8, 0x0a, 0xff] {
                        if ck.stop() {
                            return;
                        }
                        let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37) ^ (i >> 8) as u8 ^ f).collect();
                        ck.st(1);
                        ck.tr(45);
                        ck.case(|| format!("{n} bytes {}", hexs(&b)), || bytes(&b));
                    }
                    // a text of n digits, and with one wrong character at a few places
                    let t: String = "0123456789abcdefABCDEF".chars().cycle().take(n).collect();
                    ck.case(|| format!("text of {n} digits"), || text(&t, n < 300));
                    for i in [0, 1, 2, 63, 64, n / 2, n - 65, n - 64, n - 3, n - 2, n - 1] {
                        if i >= n {
                            continue;
                        }
                        for c in ["g", "+", "é", ""] {
                            let s = format!("{}{c}{}", &t[..i], &t[i + 1..]);
                            ck.st(1);
                            ck.tr(12);
                            ck.case(|| format!("text of {n} digits with {c:?} at {i}"), || text(&s, n < 300));
                        }
                    }
                }
            }));
            v.push(section("short byte strings", |ck| {
                let mut go = |ck: &mut Ck, b: &[u8]| {
                    ck.st(1);
                    ck.tr(45);
                    ck.case(|| format!("bytes {}", hexs(b)), || bytes(b));
                };
                go(ck, &[]);
                for a in 0..=255u8 {
                    go(ck, &[a]);
                    for b in 0..=255u8 {
                        go(ck, &[a, b]);
                    }
                }
                for n in 3..=67usize {
                    for f in [0u8, 0x0a, 0xa0, 0xff] {
                        go(ck, &vec![f; n]);
                        go(ck, &(0..n).map(|i| (i as u8).wrapping_mul(37) ^ f).collect::<Vec<_>>());
                    }
                }
            }));
            if th {
                for p in 0..8u8 {
                    v.push(section(format!("byte triples, part {p}"), move |ck| {
                        for a in (0..=255u8).filter(|a| a % 8 == p) {
                            for b in 0..=255u8 {
                                if ck.stop() {
                                    return;
                                }
                                for c in [0u8, 9, 0x0a, 0x0f, 0x10, 0x7f, 0x80, 0x99, 0x9a, 0xa0, 0xf0, 0xff] {
                                    ck.st(1);
                                    ck.tr(45);
                                    ck.case(|| format!("bytes {a:02x}{b:02x}{c:02x}"), || bytes(&[a, b, c]));
                                }
                            }
                        }
                    }));
                }
            }
            v
        },
    )
}
