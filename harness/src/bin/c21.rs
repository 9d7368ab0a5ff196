//! C21: parse buffers expose exactly their bytes and stop at their bounds.
use mcheck::*;
use std::borrow::Cow;
use std::convert::{TryFrom, TryInto};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::TryIntoParser;
use tedium::*;

fn nums(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 3).collect();
    for b in [1usize << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::MAX / 2, usize::MAX] {
        for d in 0..=n.min(20) + 2 {
            v.push(b.wrapping_add(d));
            v.push(b.wrapping_sub(d));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn contents(th: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for n in 0..=if th { 40usize } else { 18 } {
        out.push((1..=n as u8).collect());
        if n > 0 {
            out.push((0..n).map(|i| [0, 0xff, 0x80, 0x30][i % 4]).collect());
        }
    }
    out.push((0..=255).collect());
    out.push((0..300u32).map(|i| (i * 7 + i / 256) as u8).collect());
    out
}

/// A slice result: only its length is looked at unless it is the expected one.
fn slice_is(s: &[u8], want: &[u8]) -> Result<(), String> {
    if s.len() != want.len() {
        return Err(format!("gave {} bytes, expected {}", s.len(), want.len()));
    }
    if s != want {
        return Err(format!("gave {}, expected {}", hexs(s), hexs(want)));
    }
    Ok(())
}

fn vec_buffer(ck: &mut Ck, b: &[u8]) {
    let n = b.len();
    ck.st(1);
    ck.tr(2);
    ck.case(
        || format!("VecBuffer over {}: length", hexs(b)),
        || {
            let v = VecBuffer::from(b);
            if v.len() != n || v.is_empty() != (n == 0) {
                return Err(format!("len() = {}, is_empty() = {}", v.len(), v.is_empty()));
            }
            if v != VecBuffer::from(b.to_vec()) || v.clone() != v {
                return Err("buffers of the same bytes differ".into());
            }
            if format!("{v:?}") != format!("{b:?}") {
                return Err(format!("shown as {v:?}"));
            }
            Ok(())
        },
    );
    let v = VecBuffer::from(b);
    let ns = nums(n);
    for &ix in &ns {
        if ck.stop() {
            return;
        }
        ck.tr(1);
        ck.case(
            || format!("VecBuffer over {}: get_byte({ix})", hexs(b)),
            || match (quiet(|| v.get_byte(ix)), b.get(ix)) {
                (Ok(x), Some(y)) if x == *y => Ok(()),
                (Err(_), None) => Ok(()),
                (g, w) => Err(format!("gave {g:?}, expected {w:?}")),
            },
        );
        if let Some(y) = b.get(ix) {
            ck.tr(1);
            ck.case(
                || format!("VecBuffer over {}: get_byte_unchecked({ix})", hexs(b)),
                || if unsafe { v.get_byte_unchecked(ix) } == *y { Ok(()) } else { Err("another byte".into()) },
            );
        }
        for &len in &ns {
            let want = ix.checked_add(len).and_then(|e| b.get(ix..e));
            ck.st(1);
            ck.tr(1);
            ck.case(
                || format!("VecBuffer over {}: get_slice({ix}, {len})", hexs(b)),
                || match (quiet(|| v.get_slice(ix, len)), want) {
                    (Ok(s), Some(w)) => slice_is(s, w),
                    (Err(_), None) => Ok(()),
                    (Ok(s), None) => Err(format!("gave {} bytes from outside the buffer", s.len())),
                    (Err(e), Some(_)) => Err(format!("panicked: {e}")),
                },
            );
            if let Some(w) = want {
                ck.tr(1);
                ck.case(
                    || format!("VecBuffer over {}: get_slice_unchecked({ix}, {len})", hexs(b)),
                    || slice_is(unsafe { v.get_slice_unchecked(ix, len) }, w),
                );
            }
        }
    }
}

fn slice_buffer(ck: &mut Ck, b: &[u8]) {
    let n = b.len();
    let s = SliceBuffer::new(b);
    ck.st(1);
    ck.tr(4);
    ck.case(
        || format!("SliceBuffer over {}", hexs(b)),
        || {
            if s.len() != n || s.is_empty() != (n == 0) {
                return Err(format!("len() = {}, is_empty() = {}", s.len(), s.is_empty()));
            }
            slice_is(s.as_slice(), b)?;
            slice_is(s.into_slice(), b)?;
            slice_is(SliceBuffer::from(b).as_slice(), b)?;
            if s != SliceBuffer::from(b) {
                return Err("buffers of the same bytes differ".into());
            }
            match (s.cut_first(), b.split_first()) {
                (None, None) => {}
                (Some((x, t)), Some((y, u))) if x == *y => {
                    slice_is(t.as_slice(), u)?;
                    let (x, t) = unsafe { s.cut_first_unchecked() };
                    if x != *y {
                        return Err(format!("cut_first_unchecked gave {x}"));
                    }
                    slice_is(t.as_slice(), u)?
                }
                (g, w) => return Err(format!("cut_first = {g:?}, expected {w:?}")),
            }
            // nothing above moved the receiver
            slice_is(s.as_slice(), b)
        },
    );
    for k in nums(n) {
        if ck.stop() {
            return;
        }
        ck.st(1);
        ck.tr(4);
        ck.case(
            || format!("SliceBuffer over {}: split({k}), take({k})", hexs(b)),
            || {
                let a = quiet(|| s.split(k));
                let c = quiet(|| s.take(k));
                if k > n {
                    return if a.is_err() && c.is_err() { Ok(()) } else { Err("did not panic".into()) };
                }
                let (l, r) = a?;
                slice_is(l.as_slice(), &b[..k])?;
                slice_is(r.as_slice(), &b[k..])?;
                let (l, r) = c?;
                slice_is(l, &b[..k])?;
                slice_is(r.as_slice(), &b[k..])?;
                let (l, r) = unsafe { s.split_unchecked(k) };
                slice_is(l.as_slice(), &b[..k])?;
                slice_is(r.as_slice(), &b[k..])?;
                let (l, r) = unsafe { s.take_unchecked(k) };
                slice_is(l, &b[..k])?;
                slice_is(r.as_slice(), &b[k..])?;
                slice_is(s.as_slice(), b)
            },
        );
    }
}

/// Chains of cuts, splits and takes: every piece is the piece of the original it must be.
fn chains(ck: &mut Ck, b: &[u8], depth: usize) {
    fn go<'a>(ck: &mut Ck, s: SliceBuffer<'a>, b: &'a [u8], h: &mut Vec<(u8, usize)>, left: usize) {
        ck.st(1);
        let ok = ck.case(|| format!("chain {h:?}"), || slice_is(s.as_slice(), b));
        if !ok || left == 0 || ck.stop() {
            return;
        }
        for k in 0..=b.len() {
            for kind in 0..4u8 {
                if kind == 3 && (k != 1 || b.is_empty()) {
                    continue;
                }
                h.push((kind, k));
                ck.tr(1);
                let r = quiet(|| match kind {
                    0 => s.split(k).0,
                    1 => s.split(k).1,
                    2 => s.take(k).1,
                    _ => s.cut_first().unwrap().1,
                });
                match r {
                    Ok(t) => {
                        let nb = if kind == 0 { &b[..k] } else { &b[k..] };
                        go(ck, t, nb, h, left - 1)
                    }
                    Err(e) => {
                        ck.case(|| format!("chain {h:?}"), || Err(e.clone()));
                    }
                }
                h.pop();
            }
        }
    }
    go(ck, SliceBuffer::new(b), b, &mut vec![], depth);
}

/// Every pair of bytes inside a short buffer: nothing depends on what the bytes are.
fn pairs(ck: &mut Ck) {
    for first in 0..=255u8 {
        ck.st(3 * 256);
        ck.tr(3 * 256 * 40);
        ck.case(
            || format!("buffers with the byte {first} before any other"),
            || {
                for second in 0..=255u8 {
                    for b in [&[first, second][..], &[1, first, second, 9], &[0xff, first, second]] {
                        let (v, s) = (VecBuffer::from(b), SliceBuffer::new(b));
                        let shown = |what: &str| format!("{what} of {}", hexs(b));
                        for i in 0..=b.len() {
                            for j in i..=b.len() {
                                slice_is(v.get_slice(i, j - i), &b[i..j]).map_err(|e| format!("{}: {e}", shown("get_slice")))?;
                            }
                            if i < b.len() && v.get_byte(i) != b[i] {
                                return Err(shown("get_byte"));
                            }
                            let (l, r) = s.split(i);
                            slice_is(l.as_slice(), &b[..i]).map_err(|e| format!("{}: {e}", shown("left part")))?;
                            slice_is(r.as_slice(), &b[i..]).map_err(|e| format!("{}: {e}", shown("right part")))?;
                            let (l, r) = s.take(i);
                            slice_is(l, &b[..i]).map_err(|e| format!("{}: {e}", shown("taken part")))?;
                            slice_is(r.as_slice(), &b[i..]).map_err(|e| format!("{}: {e}", shown("part after taking")))?;
                        }
                        let (mut t, mut k) = (s, 0);
                        while let Some((x, u)) = t.cut_first() {
                            if b.get(k) != Some(&x) {
                                return Err(shown("bytes cut off one by one"));
                            }
                            k += 1;
                            slice_is(u.as_slice(), &b[k..]).map_err(|e| format!("{}: {e}", shown("rest after cutting")))?;
                            t = u;
                        }
                        if k != b.len() {
                            return Err(shown("number of bytes cut off"));
                        }
                        holds(|| b, Some(b)).map_err(|e| format!("{}: {e}", shown("parsers")))?;
                    }
                }
                Ok(())
            },
        );
    }
}

fn drain<P: Parser>(mut p: P) -> Vec<u8> {
    let n = p.remainder();
    p.take_dynamic(n).expect("read everything")
}

fn holds<S, E1>(src: impl Fn() -> S, want: Option<&[u8]>) -> Result<(), String>
where
    S: TryInto<VecBuffer, Error = E1> + TryIntoParser<ByteParser> + TryIntoParser<MemoParser>,
{
    let all = |v: &VecBuffer| -> Vec<u8> { v.get_slice(0, v.len()).to_vec() };
    let a: Option<VecBuffer> = src().try_into().ok();
    let b = <S as TryIntoParser<ByteParser>>::try_into_parser(src()).ok().map(drain);
    let c = <S as TryIntoParser<MemoParser>>::try_into_parser(src()).ok().map(drain);
    let a = a.as_ref().map(all);
    for (what, g) in [("the buffer", &a), ("the byte parser", &b), ("the tracing parser", &c)] {
        if g.as_deref() != want {
            return Err(format!("{what} holds {:?}, expected {:?}", g.as_deref().map(hexs), want.map(hexs)));
        }
    }
    Ok(())
}

fn sources(ck: &mut Ck, b: &[u8]) {
    ck.st(1);
    macro_rules! src {
        ($what:expr, $e:expr) => {{
            ck.tr(3);
            ck.case(|| format!("from {} {}", $what, hexs(b)), || holds(|| $e, Some(b)));
        }};
    }
    src!("slice", b);
    src!("Vec", b.to_vec());
    src!("HexString", HexString::from(b.to_vec()));
    src!("VecBuffer", VecBuffer::from(b));
    macro_rules! arr {
        ($($k:literal)+) => {$(
            if b.len() == $k {
                let a: [u8; $k] = <[u8; $k]>::try_from(b).unwrap();
                src!("array", a);
                src!("&array", &a);
            }
        )+};
    }
    arr!(0 1 2 3 4 5 6 7 8 9 10 13 16 17 18 20 31 32 33 40 256 300);
    ck.tr(1);
    ck.case(
        || format!("slice parser from {}", hexs(b)),
        || {
            let p = <&[u8] as TryIntoParser<SliceParser>>::try_into_parser(b).map_err(|_| "refused".to_string())?;
            slice_is(&drain(p), b)?;
            let p = <SliceBuffer as TryIntoParser<SliceParser>>::try_into_parser(SliceBuffer::new(b)).map_err(|_| "refused".to_string())?;
            slice_is(&drain(p), b)
        },
    );
}

const IMPLICIT: bool = cfg!(feature = "implicit_hexstring");

fn hexval(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// The bytes a text source stands for.
fn meaning(s: &str) -> Option<Vec<u8>> {
    if !IMPLICIT {
        return Some(s.as_bytes().to_vec());
    }
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2).map(|p| Some(hexval(p[0])? << 4 | hexval(p[1])?)).collect()
}

fn text(ck: &mut Ck, s: &str) {
    ck.st(1);
    ck.tr(15);
    ck.case(
        || format!("from text {s:?}"),
        || {
            let m = meaning(s);
            let w = m.as_deref();
            holds(|| s, w)?;
            holds(|| s.to_string(), w)?;
            #[cfg(not(feature = "implicit_hexstring"))]
            {
                // (not a source type under implicit hex)
                let owned = s.to_string();
                holds(|| &owned, w)?;
            }
            holds(|| Cow::Borrowed(s), w)?;
            holds(|| Cow::<str>::Owned(s.to_string()), w)
        },
    );
}

fn texts(ck: &mut Ck, depth: usize) {
    const A: [&str; 15] = ["\u{feff}", "0", "9", "a", "f", "A", "F", "g", "x", "+", "-", " ", "\0", "é", "名"];
    fn go(ck: &mut Ck, s: &mut String, left: usize) {
        text(ck, s);
        if left == 0 || ck.stop() {
            return;
        }
        for a in A {
            let n = s.len();
            s.push_str(a);
            go(ck, s, left - 1);
            s.truncate(n);
        }
    }
    go(ck, &mut String::new(), depth);
    for a in 0..=255u8 {
        for b in 0..=127u8 {
            if let Ok(s) = std::str::from_utf8(&[a & 0x7f, b]) {
                text(ck, s);
            }
        }
    }
    for n in 5..70 {
        let s: String = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5) % 22] as char).collect();
        text(ck, &s);
        text(ck, &format!("{s}é"));
        text(ck, &format!("{s}zz"));
    }
}

static FIXED: [u8; 5] = [1, 2, 3, 4, 5];

fn main() {
    run(
        Spec {
            prop: "C21",
            explanation: "states = (content, index, length) triples, cut chains and source texts; a transition = one accessor, split, conversion or parser construction. Every content length up to the bound with every index and length out of 0..=n+3 and the neighbourhoods of the powers of two up to the largest usize; every chain of cuts, splits and takes up to the stated depth; every source type for every content; every text up to the stated length over a hostile alphabet, and every character alone and (basic plane) before and after others. Run with and without implicit hex.",
            assumptions: &["unchecked accessors are exercised only within their documented preconditions"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = vec![];
            for (i, b) in contents(th).into_iter().enumerate() {
                v.push(section(format!("content {i}, {} bytes", b.len()), move |ck| {
                    vec_buffer(ck, &b);
                    slice_buffer(ck, &b);
                    sources(ck, &b);
                }));
            }
            for n in 0..=6u8 {
                v.push(section(format!("chains over {n} bytes"), move |ck| {
                    let b: Vec<u8> = (1..=n).collect();
                    chains(ck, &b, if th { 5 } else { 4 })
                }));
            }
            v.push(section("every pair of bytes", pairs));
            v.push(section("texts", move |ck| texts(ck, if th { 5 } else { 4 })));
            for part in 0..8u32 {
                v.push(section(format!("texts with every character, part {part}"), move |ck| {
                    for c in (0..=char::MAX as u32).filter(|x| x % 8 == part).filter_map(char::from_u32) {
                        if ck.stop() {
                            return;
                        }
                        text(ck, c.encode_utf8(&mut [0; 4]));
                        if (c as u32) < 0x10000 {
                            text(ck, &format!("{c}a"));
                            text(ck, &format!("00{c}"));
                        }
                    }
                }));
            }
            v.push(section("sources with telling contents", move |ck| {
                let mut ns: Vec<usize> = (0..=80).collect();
                ns.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1024, 1025, 4096, 4097, 65535, 65536, 65537, 200_000]);
                if th {
                    ns.extend([1 << 20, (1 << 24) + 1]);
                }
                for n in ns {
                    let mut cs: Vec<Vec<u8>> = vec![];
                    for f in [0u8, 0xff, 0x20, 0x30, b'f', b'\n', 0x80] {
                        cs.push(vec![f; n]);
                        // at the ends only, one or more
                        for k in [1usize, 2, 4, 8, 16] {
                            if n > k && n <= 5000 {
                                let mut v: Vec<u8> = (0..n).map(|i| 0x41 + (i % 20) as u8).collect();
                                v[..k].fill(f);
                                cs.push(v);
                                let mut v: Vec<u8> = (0..n).map(|i| 0x41 + (i % 20) as u8).collect();
                                v[n - k..].fill(f);
                                cs.push(v);
                            }
                        }
                    }
                    for p in [&b"0x"[..], b"\xef\xbb\xbf", b"\xff\xfe", b"\"", b"\x1f\x8b"] {
                        cs.push([p, &vec![b'3'; n]].concat());
                    }
                    for c in cs {
                        if ck.stop() {
                            return;
                        }
                        sources(ck, &c);
                        if let Ok(t) = std::str::from_utf8(&c) {
                            text(ck, t);
                        }
                    }
                }
            }));
            v.push(section("static slice", |ck| {
                ck.case(|| "from_static".into(), || slice_is(SliceBuffer::from_static(&FIXED).as_slice(), &FIXED));
            }));
            v
        },
    )
}
