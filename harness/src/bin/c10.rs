//! C10: length-prefixed values delimit exactly their payload.
use mcheck::*;
use std::convert::TryInto;
use tedium::conv::EncodeLength;
use tedium::dynamic::LenPref;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

rstruct!(Two { a: Dynamic<u8, Bytes>, b: Dynamic<u8, Bytes> });
rstruct!(Mix { a: Dynamic<u8, Dynamic<u8, Bytes>>, b: u8, c: Dynamic<u16, Nullable<u8>> });
rstruct!(InRec { a: u8, r: Bytes });
rstruct!(OutRec { a: Dynamic<u8, InRec>, z: Bytes });

/// A payload of `n` bytes that is written to a target in chunks (and never kept in memory).
struct Big(u64);
static CHUNK: [u8; 1 << 20] = [0xA5; 1 << 20];
impl Encode for Big {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let mut left = self.0;
        let mut n = 0;
        while left > 0 {
            let k = left.min(1 << 20) as usize;
            n += buf.push_all(&CHUNK[..k]);
            left -= k as u64;
        }
        n
    }
}
impl Estimable for Big {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0 as usize
    }
}

/// A target that counts, and keeps only the first bytes it is given.
struct Head(Vec<u8>, u64);
impl Target for Head {
    fn create() -> Self {
        Head(vec![], 0)
    }
    fn anticipate(&mut self, _: usize) {}
    fn push_one(&mut self, b: u8) -> usize {
        self.push_all(&[b])
    }
    fn push_many<const M: usize>(&mut self, a: [u8; M]) -> usize {
        self.push_all(&a)
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        let k = b.len().min(16usize.saturating_sub(self.0.len()));
        self.0.extend_from_slice(&b[..k]);
        self.1 += b.len() as u64;
        b.len()
    }
    fn resolve(&mut self) {}
}

fn pref_bytes(n: u64, w: usize) -> Vec<u8> {
    let mut o = vec![];
    be(n, w, &mut o);
    o
}

/// Encoding: the prefix is the byte length, or the value is refused.
fn encode_side<S: PrefInfo>(ck: &mut Ck) {
    let w = S::W;
    let name = S::suffix();
    let mut ns: Vec<u64> = (0..=300).collect();
    for c in [512u64, 1 << 15, 1 << 16, 1 << 17, 1 << 20, (1 << 24), 1 << 29, 1 << 30, 1 << 31, 1 << 32, (1 << 32) + (1 << 16), 1 << 33] {
        ns.extend([c - 2, c - 1, c, c + 1, c + 2, c + 5, c + 255]);
    }
    ns.sort();
    ns.dedup();
    for n in ns {
        if ck.stop() {
            return;
        }
        let fits = n <= S::MAXLEN;
        ck.st(1);
        ck.tr(3);
        // the prefix query
        ck.case(
            || format!("Dynamic<{name}, _>::length_prefix of {n} bytes"),
            || match (Dynamic::<S, Big>::new(Big(n)).length_prefix(), fits) {
                (Ok(p), true) => {
                    let u: usize = p.into();
                    if u as u64 == n && p.to_bytes() == pref_bytes(n, w) {
                        Ok(())
                    } else {
                        Err(format!("prefix {u} ({})", hexs(&p.to_bytes())))
                    }
                }
                (Err(_), false) => Ok(()),
                (Ok(p), false) => Err(format!("prefix {} for a payload that does not fit", { let u: usize = p.into(); u })),
                (Err(e), true) => Err(format!("refused: {e}")),
            },
        );
        // writing to a counter
        ck.case(
            || format!("writing Dynamic<{name}, _> of {n} bytes to a counter"),
            || {
                let d = Dynamic::<S, Big>::new(Big(n));
                let mut h = Head::create();
                match (quiet(|| d.write_to(&mut h)), fits) {
                    (Ok(c), true) if c as u64 == n + w as u64 => {
                        let mut e = pref_bytes(n, w);
                        e.extend(vec![0xA5; (n as usize).min(16 - w)]);
                        if h.0 != e || h.1 != n + w as u64 {
                            return Err(format!("wrote {} bytes starting {}", h.1, hexs(&h.0)));
                        }
                        Ok(())
                    }
                    (Ok(c), true) => Err(format!("reported {c} bytes")),
                    (Ok(c), false) => Err(format!("wrote {c} bytes for a payload that does not fit the prefix")),
                    (Err(e), true) => Err(format!("panicked: {e}")),
                    (Err(_), false) => Ok(()),
                }
            },
        );
        // writing to memory
        let limit = if ck.thorough() { 1 << 25 } else { 1 << 21 };
        if n <= limit {
            ck.case(
                || format!("writing Dynamic<{name}, _> of {n} bytes to memory"),
                || {
                    let d = Dynamic::<S, Big>::new(Big(n));
                    let mut v = vec![0x11u8];
                    match (quiet(|| d.write_to(&mut v)), fits) {
                        (Ok(c), true) => {
                            if c as u64 != n + w as u64 || v.len() != c + 1 {
                                return Err(format!("reported {c} bytes, wrote {}", v.len() - 1));
                            }
                            if v[1..1 + w] != pref_bytes(n, w)[..] {
                                return Err(format!("prefix {}", hexs(&v[1..1 + w])));
                            }
                            if v[1 + w..].iter().any(|x| *x != 0xA5) || v[0] != 0x11 {
                                return Err("the payload or what precedes it is damaged".into());
                            }
                            if EncodeLength::enc_len(&d) as u64 != n + w as u64 {
                                return Err(format!("enc_len is {}", EncodeLength::enc_len(&d)));
                            }
                            Ok(())
                        }
                        (Ok(_), false) => Err(format!("wrote {} for a payload that does not fit the prefix", hexs(&v[1..v.len().min(12)]))),
                        (Err(e), true) => Err(format!("panicked: {e}")),
                        (Err(_), false) => Ok(()),
                    }
                },
            );
        }
    }
    // a prefix follows later changes of the payload
    for n in 0..6usize {
        for m in 0..6usize {
            ck.st(1);
            ck.tr(2);
            ck.case(
                || format!("Dynamic<{name}, Vec<u8>> of {n} bytes, changed in place to {m} bytes"),
                || {
                    let mut d = Dynamic::<S, Vec<u8>>::new(vec![7; n]);
                    let a = d.to_bytes();
                    *d.as_mut() = vec![9; m];
                    let b = d.to_bytes();
                    let exp = |n: usize, x: u8| {
                        let mut e = pref_bytes(n as u64, w);
                        e.extend(vec![x; n]);
                        e
                    };
                    if a != exp(n, 7) || b != exp(m, 9) {
                        return Err(format!("{} then {}", hexs(&a), hexs(&b)));
                    }
                    if d.clone().into_inner() != vec![9; m] || d.as_ref() != &vec![9; m] {
                        return Err("content".into());
                    }
                    let l: Result<S, _> = m.try_into();
                    match l {
                        Ok(l) if { let u: usize = l.into(); u } == m => Ok(()),
                        _ => Err("conversion of the length to the prefix type".into()),
                    }
                },
            );
        }
    }
}

/// Payload decoder that records how much it sees and tries to leave its confines.
/// Mode: how many bytes it takes of those it sees, and by which operations.
fn spy<P: Parser>(p: &mut P, take: usize, mode: u8) -> ParseResult<(usize, Vec<u8>)> {
    let seen = p.remainder();
    // none of these may succeed: they reach beyond the payload
    for k in [1usize, 2, 7, 1 << 20, usize::MAX - seen] {
        let k = seen + k;
        assert!(p.consume(k).is_err(), "read {k} bytes of a payload of {seen}");
        assert!(p.set_fit(k).is_err(), "opened a window of {k} bytes in a payload of {seen}");
        assert!(p.take_dynamic(k).is_err(), "took {k} bytes of a payload of {seen}");
        assert_eq!(p.remainder(), seen, "a refused read moved the position");
    }
    if seen > 0 {
        assert!(p.enforce_target().is_err(), "closed the window of the payload with {seen} bytes unread");
        assert_eq!(p.remainder(), seen, "a refused close moved the position");
        assert!(!p.test_target().unwrap_or(false), "payload of {seen} bytes reported exhausted");
    }
    let mut got = vec![];
    let take = take.min(seen);
    match mode {
        0 => got.extend_from_slice(p.consume(take)?),
        1 => {
            for _ in 0..take {
                got.push(p.consume_byte()?);
            }
        }
        _ => {
            p.set_fit(take)?;
            got.extend_from_slice(p.consume(take)?);
            assert!(p.consume_byte().is_err(), "read past a nested window");
            p.enforce_target()?;
        }
    }
    Ok((seen, got))
}
/// The const parameter encodes take + 8 * mode.
#[derive(Debug)]
struct Spy<const C: usize>(usize, Vec<u8>);
impl<const C: usize> Decode for Spy<C> {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let (a, b) = spy(p, C % 8, (C / 8) as u8)?;
        Ok(Spy(a, b))
    }
}

fn spied<S: PrefInfo, const C: usize>(ck: &mut Ck) {
    let w = S::W;
    let take = C % 8;
    let max_avail = if ck.thorough() { 9 } else { 6 };
    let mut decl: Vec<u64> = (0..=max_avail as u64 + 2).collect();
    decl.extend([0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x3fff_ffff, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
    decl.retain(|d| *d < 1u64 << (8 * w));
    for d in decl {
        for avail in 0..=max_avail {
            // an outer window that ends e bytes before the end of the buffer (none: no window)
            for outer in std::iter::once(None).chain((0..=avail + w).map(Some)) {
                for pk in PKS {
                    if ck.stop() {
                        return;
                    }
                    ck.st(1);
                    ck.tr(1);
                    ck.case(
                        || format!("{} prefix {d}, {avail} bytes after it, outer window {outer:?} bytes, payload reader takes {take} (way {}), {pk:?} parser", S::suffix(), C / 8),
                        || {
                            let mut buf = vec![0xC0u8];
                            buf.extend(pref_bytes(d, w));
                            buf.extend((0..avail).map(|i| i as u8 + 1));
                            fn go<S: PrefInfo, P: Parser, const C: usize>(mut p: P, outer: Option<usize>) -> (Option<(usize, Vec<u8>)>, Option<usize>) {
                                p.consume_byte().expect("first byte");
                                if let Some(o) = outer {
                                    p.set_fit(o).expect("outer window");
                                }
                                let r = Dynamic::<S, Spy<C>>::parse(&mut p).ok().map(|d| {
                                    let s = d.into_inner();
                                    (s.0, s.1)
                                });
                                let left = r.as_ref().map(|_| p.remainder());
                                if r.is_some() {
                                    // what follows is exactly what was not the payload
                                    let rest = p.remainder();
                                    let tail = p.consume(rest).expect("the rest").to_vec();
                                    let mut e: Vec<u8> = tail.clone();
                                    e.sort();
                                    assert_eq!(e, tail, "bytes after the payload are out of order");
                                    if let Some(o) = outer {
                                        p.enforce_target().expect("outer window is intact");
                                        let _ = o;
                                    }
                                }
                                (r, left)
                            }
                            let (r, left) = match pk {
                                PK::Byte => go::<S, _, C>(ByteParser::from_buffer(VecBuffer::from(buf.as_slice())), outer),
                                PK::Memo => go::<S, _, C>(MemoParser::from_buffer(VecBuffer::from(buf.as_slice())), outer),
                                PK::Slice => go::<S, _, C>(SliceParser::from_buffer(SliceBuffer::new(&buf)), outer),
                            };
                            let room = outer.unwrap_or(avail + w);
                            let fits = room >= w && d <= S::MAXLEN && d as usize <= room - w;
                            let ok = fits && d as usize <= take;
                            match (ok, r) {
                                (false, None) => Ok(()),
                                (false, Some(x)) => Err(format!("accepted: payload saw {} bytes and took {}", x.0, hexs(&x.1))),
                                (true, None) => Err("refused".into()),
                                (true, Some((seen, got))) => {
                                    if seen as u64 != d || got != buf[1 + w..1 + w + d as usize] {
                                        return Err(format!("payload saw {seen} bytes, took {}", hexs(&got)));
                                    }
                                    if left != Some(room - w - d as usize) {
                                        return Err(format!("{left:?} bytes left"));
                                    }
                                    Ok(())
                                }
                            }
                        },
                    );
                }
            }
        }
    }
}

fn words<T: Reflect>(name: &'static str, tier: Tier, heads: Vec<Vec<u8>>) -> Section {
    section(format!("all words: {name}"), move |ck| {
        let s = T::sch();
        // all words over small lengths and a few content bytes, behind each head
        let a: &[u8] = if tier == Tier::Thorough { &[0, 1, 2, 3, 4, 5, 0xff] } else { &[0, 1, 2, 3, 0xff] };
        let max = 6;
        for head in &heads {
            let mut layer: Vec<Vec<u8>> = vec![head.clone()];
            for d in 0..=max {
                for b in &layer {
                    let want = decv(&s, b, PLAIN);
                    ck.st(1);
                    for k in PKS {
                        // bare, and inside a window followed by more bytes
                        for (buf, at) in [
                            (b.clone(), START),
                            ([&[7u8][..], b, &[0, 1, 2, 3]].concat(), At { pre: 1, win: Some(b.len()) }),
                        ] {
                            if ck.stop() {
                                return;
                            }
                            ck.tr(1);
                            ck.case(
                                || format!("decode {name} from {} ({at:?}, {k:?} parser)", hexs(&buf)),
                                || {
                                    let got = decode_at::<T>(k, &buf, at);
                                    match (&want, &got) {
                                        (None, None) => Ok(()),
                                        (Some((v, n)), Some(g)) if g.val == *v && g.used == *n => Ok(()),
                                        _ => Err(format!("got {got:?}, the layout says {want:?}")),
                                    }
                                },
                            );
                        }
                    }
                }
                if d < max {
                    let mut n = Vec::with_capacity(layer.len() * a.len());
                    for b in &layer {
                        for x in a {
                            let mut v = b.clone();
                            v.push(*x);
                            n.push(v);
                        }
                    }
                    layer = n;
                }
            }
        }
    })
}

/// parse_as_usize and parsing the prefix type agree with the number written.
fn raw_prefix<S: PrefInfo>(ck: &mut Ck) {
    let w = S::W;
    let nums: Vec<u64> = if w < 4 {
        (0..1u64 << (8 * w)).collect()
    } else {
        let mut v: Vec<u64> = (0..70_000).collect();
        for c in 17..32 {
            for d in -3i64..=3 {
                v.push((1u64 << c).wrapping_add(d as u64));
            }
        }
        v.extend((0..16u64).map(|x| x * 0x1111_1111));
        v.push(0xffff_fffe);
        v.retain(|x| *x <= 0xffff_ffff);
        v
    };
    for n in nums {
        if ck.stop() {
            return;
        }
        ck.st(1);
        ck.tr(6);
        ck.case(
            || format!("{} prefix {n}", S::suffix()),
            || {
                let mut b = pref_bytes(n, w);
                b.push(0x77);
                fn one<S: PrefInfo, P: Parser>(mut p: P, mut q: P, n: u64) -> Result<(), String> {
                    let x = S::parse_as_usize(&mut p).ok();
                    let y: Option<usize> = S::parse(&mut q).ok().map(|s| s.into());
                    let want = if n <= S::MAXLEN { Some(n as usize) } else { None };
                    if x != want || y != want {
                        return Err(format!("parse_as_usize {x:?}, parse {y:?}, expected {want:?}"));
                    }
                    if want.is_some() && (p.remainder() != 1 || q.remainder() != 1) {
                        return Err("did not consume exactly the prefix".into());
                    }
                    Ok(())
                }
                one::<S, _>(ByteParser::from_buffer(VecBuffer::from(b.as_slice())), ByteParser::from_buffer(VecBuffer::from(b.as_slice())), n)?;
                one::<S, _>(SliceParser::from_buffer(SliceBuffer::new(&b)), SliceParser::from_buffer(SliceBuffer::new(&b)), n)?;
                if n % 257 < 3 {
                    one::<S, _>(MemoParser::from_buffer(VecBuffer::from(b.as_slice())), MemoParser::from_buffer(VecBuffer::from(b.as_slice())), n)?;
                }
                Ok(())
            },
        );
    }
}

/// Long payloads: every length around the prefix boundaries, complete, one byte short, one over.
fn long_payloads<S: PrefInfo>(ck: &mut Ck) {
    let w = S::W;
    let mut ns: Vec<usize> = vec![0, 1, 2, 126, 127, 128, 129, 253, 254, 255];
    if w >= 2 {
        ns.extend([256, 257, 511, 512, 32766, 32767, 32768, 32769, 65279, 65280, 65534, 65535]);
    }
    if w >= 4 {
        ns.extend([65536, 65537, 131071, 131072, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    for n in ns {
        for extra in [-1i64, 0, 1] {
            let have = n as i64 + extra;
            if have < 0 {
                continue;
            }
            for k in PKS {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                ck.tr(1);
                ck.case(
                    || format!("decode Dynamic<{}, Bytes> with prefix {n} from {have} payload bytes, {k:?} parser", S::suffix()),
                    || {
                        let mut b = pref_bytes(n as u64, w);
                        b.extend((0..have).map(|i| (i % 251) as u8));
                        let got = decode_at::<Dynamic<S, Bytes>>(k, &b, START);
                        match got {
                            None if extra < 0 => Ok(()),
                            Some(g) if extra >= 0 => {
                                if g.used != n + w {
                                    return Err(format!("used {}", g.used));
                                }
                                match g.val {
                                    Val::Bytes(v) if v == b[w..w + n] => Ok(()),
                                    _ => Err("wrong payload".into()),
                                }
                            }
                            None => Err("refused".into()),
                            Some(_) => Err("accepted".into()),
                        }
                    },
                );
            }
        }
    }
}

/// Short payloads followed by a lot: nothing of what follows is touched.
fn long_tails<S: PrefInfo>(ck: &mut Ck) {
    let w = S::W;
    let mut tails: Vec<usize> = (0..=80).collect();
    tails.extend([126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70_000]);
    if ck.thorough() {
        tails.extend(81..1200);
    }
    for n in (0..=9usize).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255]) {
        for t in &tails {
            for win in [false, true] {
                for k in PKS {
                    if ck.stop() {
                        return;
                    }
                    ck.st(1);
                    ck.tr(2);
                    ck.case(
                        || format!("Dynamic<{}, Bytes> of {n} bytes then {t} bytes, {k:?} parser, in a window: {win}", S::suffix()),
                        || {
                            let mut b = if win { vec![0xC0u8] } else { vec![] };
                            let at = b.len();
                            b.extend(pref_bytes(n as u64, w));
                            b.extend((0..n).map(|i| i as u8));
                            b.extend((0..*t).map(|i| (i % 251) as u8 | 1));
                            let place = if win { At { pre: 1, win: Some(b.len() - 1) } } else { START };
                            let body = b[at + w..at + w + n].to_vec();
                            match decode_at::<Dynamic<S, Bytes>>(k, &b, place) {
                                Some(g) if g.used == n + w && g.val == Val::Bytes(body.clone()) => {}
                                g => return Err(format!("got {g:?}")),
                            }
                            // twice in a row: the second starts where the first ends
                            let mut b2 = pref_bytes(n as u64, w);
                            b2.extend(&body);
                            b2.extend(&b[at..]);
                            match decode_at::<tedium::seq::fix::FixSeq<Dynamic<S, Bytes>, 2>>(k, &b2, START) {
                                Some(g) if g.used == 2 * (n + w) && g.val == Val::Seq(vec![Val::Bytes(body.clone()), Val::Bytes(body)]) => Ok(()),
                                g => Err(format!("two in a row: got {g:?}")),
                            }
                        },
                    );
                }
            }
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C10",
            explanation: "states = (prefix width, declared length, payload, available bytes, outer window) combinations; a transition = one encode or decode by the real code. Encoding: all payload lengths 0..300 and around every power of two up to 2^33 for each width, to a target that counts and keeps the first 16 bytes, and (up to 2 MiB) to memory. Payloads of 0..9 and up to 255 bytes followed by 0..80 and up to 70000 bytes, alone, in a window and twice in a row. Decoding: all declared lengths x available bytes x outer windows with a payload reader that tries to leave its payload (reads, windows, closes) and takes 0..7 bytes in three ways; all words over {0..3,ff} (thorough: {0..5,ff}) of up to 6 bytes for nested and sibling prefixes against the reference decoder; all prefix values of 8 and 16 bits and boundary values of 30.",
            assumptions: &["payload readers close only windows they opened"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = vec![
                section("encode u8", encode_side::<u8>),
                section("encode u16", encode_side::<u16>),
                section("encode u30", encode_side::<u30>),
                section("prefix u8", raw_prefix::<u8>),
                section("prefix u16", raw_prefix::<u16>),
                section("prefix u30", raw_prefix::<u30>),
                section("long tails u8", long_tails::<u8>),
                section("long tails u16", long_tails::<u16>),
                section("long tails u30", long_tails::<u30>),
                section("long payloads u8", long_payloads::<u8>),
                section("long payloads u16", long_payloads::<u16>),
                section("long payloads u30", long_payloads::<u30>),
            ];
            macro_rules! spies {
                ($($c:literal)*) => { $(
                    v.push(section(concat!("confinement u8 ", $c), spied::<u8, $c>));
                    v.push(section(concat!("confinement u16 ", $c), spied::<u16, $c>));
                    v.push(section(concat!("confinement u30 ", $c), spied::<u30, $c>));
                )* };
            }
            spies!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
            macro_rules! w {
                ($($t:ty),* ; $heads:expr) => { $( v.push(words::<$t>(stringify!($t), tier, $heads)); )* };
            }
            w!(Dynamic<u8, Bytes>, Dynamic<u8, Dynamic<u8, Bytes>>, Dynamic<u8, Dynamic<u8, Dynamic<u8, Bytes>>>, Two, Mix, OutRec,
               Sequence<Dynamic<u8, Bytes>>, Dynamic<u8, Sequence<Dynamic<u8, Bytes>>>, Dynamic<u8, u8>, Dynamic<u8, u16>, Dynamic<u8, ()>,
               Dynamic<u8, Option<u8>>, Dynamic<u8, Nullable<u8>>, Dynamic<u8, Option<Dynamic<u8, Bytes>>>, Dynamic<u8, N>, Dynamic<u8, Z>,
               Dynamic<u8, Two>, Dynamic<u8, LimSeq<Dynamic<u8, Bytes>, 2>>, Dynamic<u8, FixSeq<Dynamic<u8, Bytes>, 2>>,
               Option<Dynamic<u8, Bytes>>, Nullable<Dynamic<u8, Dynamic<u8, Bytes>>>, AutoBox<Dynamic<u8, Bytes>>,
               Dynamic<u8, Padded<u8, 1>>, Padded<Dynamic<u8, u8>, 1>, Dynamic<u8, VPadded<Bytes, 0>>, Dynamic<u8, FixedBytes<2>>, Dynamic<u8, String>;
               vec![vec![]]);
            w!(Dynamic<u16, Bytes>, Dynamic<u16, Dynamic<u8, Bytes>>, Dynamic<u16, Dynamic<u16, Bytes>>, Dynamic<u8, Dynamic<u16, Bytes>>, Dynamic<u16, u8>, Dynamic<u16, N>;
               vec![vec![], vec![0], vec![4, 0], vec![0xff]]);
            w!(Dynamic<u30, Bytes>, Dynamic<u30, Dynamic<u8, Bytes>>, Dynamic<u30, Sequence<u8>>, Dynamic<u30, u8>, Dynamic<u8, Dynamic<u30, Bytes>>;
               vec![vec![], vec![0, 0, 0], vec![0x3f, 0xff, 0xff], vec![0x40, 0, 0], vec![0x80, 0, 0], vec![6, 0, 0, 0]]);
            v
        },
    )
}
