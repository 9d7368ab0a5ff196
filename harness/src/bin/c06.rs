//! C06: decoding is total and allocates within a small multiple of the input.
use mcheck::catalog::{self, Visitor};
use mcheck::inputs::*;
use mcheck::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use tedium::dynamic::LenPref;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::ParserExt;
use tedium::*;

/// Counts, per thread, the bytes requested since the last reset, and the largest request.
struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + d;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may be live during the copy
        note(n as isize);
        let r = System.realloc(p, l, n);
        note(-(l.size() as isize));
        r
    }
}
#[global_allocator]
static A: Counting = Counting;

fn measured<R>(f: impl FnOnce() -> R) -> (Result<R, String>, usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    let r = quiet(f);
    (r, PEAK.with(|p| p.get()).max(0) as usize)
}

/// Element capacity a type declares for itself, in bytes (bounded sequences may reserve it).
fn declared(s: &Sch, depth: usize) -> usize {
    if depth == 0 {
        return 0;
    }
    match s {
        Sch::Lim(i, n) | Sch::Fix(i, n) => n * (256 + declared(i, depth - 1)),
        Sch::Fixed(n) | Sch::FixedText(n) => *n,
        Sch::Pad(i, n) | Sch::VPad(i, n) => n + declared(i, depth - 1),
        Sch::Opt(i) | Sch::Nullable(i) | Sch::Seq(i) | Sch::Boxed(i) => declared(i, depth - 1),
        Sch::Dyn { inner, .. } => declared(inner, depth - 1),
        Sch::Prod(v) => v.iter().map(|s| declared(s, depth - 1)).sum(),
        Sch::Union { vars, .. } => vars.iter().map(|v| declared(&v.1, depth - 1)).sum(),
        Sch::Rec(f) => declared(&f(), depth - 1),
        _ => 0,
    }
}

/// An error can be shown, and so can its causes.
fn shown<E: std::error::Error>(e: &E) {
    let mut n = format!("{e}{e:?}{e:#?}").len();
    let mut c = e.source();
    let mut d = 0;
    while let Some(x) = c {
        n += format!("{x}{x:?}").len();
        c = x.source();
        d += 1;
        assert!(d < 100, "endless chain of causes");
    }
    std::hint::black_box(n);
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(name, move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let vs = vals(&s, Dom { lvl: 2, long: true, cap: if th { 20000 } else { 1500 }, depth: if th { 4 } else { 3 } });
        let mut seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        // inputs full of one byte, of several lengths
        let mut extra: Vec<Vec<u8>> = Vec::new();
        for n in [3usize, 5, 9, 17, 40, 400, 5000] {
            for x in [0u8, 1, 3, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                extra.push(vec![x; n]);
            }
        }
        // length prefixes at their extremes
        for p in [vec![0xff], vec![0xff, 0xff], vec![0x3f, 0xff, 0xff, 0xff], vec![0x40, 0, 0, 0], vec![0xff; 4], vec![0x7f, 0xff, 0xff, 0xff], vec![0x80, 0, 0, 0], vec![0, 0xff, 0xff, 0xff]] {
            for tag in [None, Some(0u8), Some(1), Some(2), Some(3), Some(0xff)] {
                let mut b: Vec<u8> = tag.into_iter().collect();
                b.extend(&p);
                extra.push(b.clone());
                b.extend([1, 2, 3, 4, 5]);
                extra.push(b);
            }
        }
        seeds.truncate(2000);
        let mut ins = inputs(&s, if th { &THOROUGH_IN } else { &QUICK_IN }, &seeds);
        ins.extend(extra);
        let cap = declared(&s, 8);
        ck.st(ins.len() as u64);
        let (mut ok, mut err) = (0u64, 0u64);
        for b in &ins {
            let mut cases: Vec<(Vec<u8>, At)> = vec![(b.clone(), START)];
            let mut w = vec![0xff];
            w.extend_from_slice(b);
            w.extend([0, 0xff]);
            cases.push((w, At { pre: 1, win: Some(b.len()) }));
            for (buf, at) in cases {
                for k in PKS {
                    if ck.stop() {
                        return;
                    }
                    ck.tr(1);
                    ck.case(
                        || format!("decode {name} from {} (buffer {}, {at:?}, {k:?} parser)", hexs(b), hexs(&buf)),
                        || {
                            let (r, peak) = measured(|| decode_at::<T>(k, &buf, at));
                            // the tracing parser also renders its trace; the harness reflects the value
                            let limit = 24 * 1024 + 1024 * buf.len() + 4 * cap;
                            let r = r.map_err(|e| format!("panicked: {e}"))?;
                            if r.is_some() {
                                ok += 1
                            } else {
                                err += 1
                            }
                            if peak > limit {
                                return Err(format!("held {peak} bytes of heap for an input of {} bytes", buf.len()));
                            }
                            Ok(())
                        },
                    );
                }
            }
            // the top-level entry points
            ck.case(
                || format!("{name}::try_decode from {}", hexs(b)),
                || {
                    let (r, peak) = measured(|| {
                        let a = T::try_decode::<_, ByteParser>(VecBuffer::from(b.as_slice())).err();
                        let c = T::try_decode::<_, SliceParser>(SliceBuffer::new(b)).err();
                        let d = T::try_decode::<_, MemoParser>(VecBuffer::from(b.as_slice())).err();
                        [a, c, d]
                    });
                    let errs = r.map_err(|e| format!("panicked: {e}"))?;
                    quiet(|| errs.iter().flatten().for_each(shown)).map_err(|e| format!("the error cannot be shown: {e}"))?;
                    if peak > 24 * 1024 + 1024 * b.len() + 4 * cap {
                        return Err(format!("held {peak} bytes of heap for an input of {} bytes", b.len()));
                    }
                    Ok(())
                },
            );
        }
        ck.outn("decodes that gave a value", ok);
        ck.outn("decodes that gave an error", err);
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn prefix_entry<S: LenPref>(ck: &mut Ck, name: &str, w: usize) {
    let mut pats: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..w {
        let mut n = vec![];
        for p in &pats {
            for x in [0u8, 1, 2, 3, 5, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                let mut q = p.clone();
                q.push(x);
                n.push(q);
            }
        }
        pats.extend(n);
    }
    pats.sort();
    pats.dedup();
    for p in pats {
        for pay in [0usize, 1, 3, 6] {
            for win in [None, Some(p.len()), Some(p.len() + 2)] {
                let mut b = p.clone();
                b.extend(std::iter::repeat(9).take(pay));
                if let Some(x) = win {
                    if x > b.len() {
                        continue;
                    }
                }
                ck.st(1);
                ck.tr(6);
                ck.case(
                    || format!("{name} prefix entry points on {} (window {win:?})", hexs(&b)),
                    || {
                        fn all<S: LenPref, P: Parser + ParserExt>(mut mk: impl FnMut() -> P, win: Option<usize>) {
                            let mut open = || {
                                let mut p = mk();
                                if let Some(w) = win {
                                    p.set_fit(w).expect("window");
                                }
                                p
                            };
                            let show = |e: Option<tedium::parse::error::ParseError>| {
                                if let Some(e) = e {
                                    shown(&e)
                                }
                            };
                            let mut p = open();
                            show(p.process_prefix::<S>().err());
                            show(p.skip(usize::MAX).err());
                            show(p.enforce_target().err());
                            let mut p = open();
                            show(p.skip_dynamic::<S>().err());
                            show(p.skip_exactly(usize::MAX).err());
                            show(p.consume(usize::MAX).map(|_| ()).err());
                            show(p.set_fit(usize::MAX).err());
                            let mut p = open();
                            show(S::parse_as_usize(&mut p).err());
                            let _ = p.cleanup();
                        }
                        let (r, peak) = measured(|| {
                            all::<S, _>(|| ByteParser::from_buffer(VecBuffer::from(b.as_slice())), win);
                            all::<S, _>(|| MemoParser::from_buffer(VecBuffer::from(b.as_slice())), win);
                            all::<S, _>(|| SliceParser::from_buffer(SliceBuffer::new(&b)), win);
                        });
                        r.map_err(|e| format!("panicked: {e}"))?;
                        if peak > 24 * 1024 {
                            return Err(format!("held {peak} bytes of heap for {} bytes of input", b.len()));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn hex_entry(ck: &mut Ck) {
    let parts = ["0", "9", "a", "F", "g", "+", "-", " ", "\u{e9}", "\u{20ac}", "\u{1F600}", "\0", "x", "_"];
    let depth = if ck.thorough() { 5 } else { 4 };
    let mut layer = vec![String::new()];
    for d in 0..=depth {
        for s in &layer {
            if ck.stop() {
                return;
            }
            ck.st(1);
            ck.tr(5);
            ck.case(
                || format!("hex entry points on {s:?}"),
                || {
                    let (r, peak) = measured(|| {
                        if let Err(e) = HexString::from_hex(s.as_str()) {
                            shown(&e)
                        }
                        if let Err(e) = s.parse::<HexString>() {
                            shown(&e)
                        }
                        let _ = HexString::try_from(s.as_str());
                        let h = HexString::from_bytes(&[1u8, 0xab][..]);
                        let _ = h.eq_hex(s);
                        let _ = h == *s;
                    });
                    r.map_err(|e| format!("panicked: {e}"))?;
                    if peak > 16 * 1024 {
                        return Err(format!("held {peak} bytes of heap"));
                    }
                    Ok(())
                },
            );
        }
        if d < depth {
            let mut n = Vec::with_capacity(layer.len() * parts.len());
            for s in &layer {
                for p in parts {
                    n.push(format!("{s}{p}"));
                }
            }
            layer = n;
        }
    }
}

/// Long inputs on a thread with an ordinary stack: decoding takes stack by nesting, not by length.
fn long_entry(ck: &mut Ck) {
    const N_: usize = 1 << 20;
    fn one<T: Decode>(buf: &[u8]) -> [bool; 3] {
        [
            T::try_decode::<_, ByteParser>(VecBuffer::from(buf)).is_ok(),
            T::try_decode::<_, SliceParser>(SliceBuffer::new(buf)).is_ok(),
            T::try_decode::<_, MemoParser>(VecBuffer::from(buf)).is_ok(),
        ]
    }
    macro_rules! go {
        ($sizes:expr; $($t:ty),* $(,)?) => {
            for n in $sizes {
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    // plain, and behind a length prefix of one to four bytes that covers it
                    for pre in [vec![], vec![0xff], vec![0xff, 0xff], vec![0, (n >> 16) as u8, (n >> 8) as u8, n as u8]] {
                        let mut buf = pre.clone();
                        buf.resize(pre.len() + n, x);
                        let buf = std::sync::Arc::new(buf);
                        $(
                            if ck.stop() {
                                return;
                            }
                            ck.st(1);
                            ck.tr(3);
                            ck.case(
                                || format!("decode {} from {} and {n} bytes {x:#04x}, on a stack of 2 MiB", stringify!($t), hexs(&pre)),
                                || {
                                    let b = buf.clone();
                                    let h = std::thread::Builder::new()
                                        .stack_size(2 << 20)
                                        .spawn(move || measured(|| one::<$t>(&b)))
                                        .map_err(|e| format!("no thread: {e}"))?;
                                    let (r, peak) = h.join().map_err(|_| "panicked".to_string())?;
                                    let r = r.map_err(|e| format!("panicked: {e}"))?;
                                    if r[0] != r[1] || r[0] != r[2] {
                                        return Err(format!("the parsers disagree: {r:?}"));
                                    }
                                    if peak > 24 * 1024 + 1024 * buf.len() {
                                        return Err(format!("held {peak} bytes of heap for an input of {} bytes", buf.len()));
                                    }
                                    Ok(())
                                },
                            );
                        )*
                    }
                }
            }
        };
    }
    // numbers may take time that is quadratic in their length
    go!([N_ / 16]; Sequence<N>, Sequence<Z>, N, Z);
    go!(
        [N_ / 16, N_]; Sequence<u8>, Sequence<bool>, Sequence<u64>, Sequence<Option<u8>>, Sequence<Dynamic<u8, Bytes>>,
        Sequence<AutoBox<u16>>, Sequence<FixedBytes<3>>, Bytes, String, Vec<u8>, Dynamic<u30, Sequence<u8>>, Dynamic<u30, Bytes>,
        Dynamic<u30, String>, Dynamic<u30, Sequence<Dynamic<u8, Sequence<u8>>>>, Dynamic<u8, Bytes>, Dynamic<u16, Sequence<u16>>,
        LimSeq<u8, 100000>, FixSeq<u8, 65536>, VPadded<Sequence<u8>, 300>, Option<Bytes>, Nullable<Sequence<u16>>,
    );
}

fn main() {
    run(
        Spec {
            prop: "C06",
            explanation: "states = (type or entry point, input) pairs; a transition = one call of the real code (errors are also displayed, with their causes), observed for panic (overflow and debug checks on), abort, non-termination (30 s watchdog), and for heap held by the call: at most 24 KiB + 1024 bytes per input byte + the element capacity a bounded type declares. Inputs as in C07 plus uniform inputs up to 5000 bytes and extreme length prefixes; prefix and skipping entry points on all words over ten bytes up to the prefix width, hex decoding on all texts of up to 4 (5) characters over a 14-character alphabet. Also 65 536 and 1 048 576 equal bytes, plain or behind length prefixes, for 25 types on a stack of 2 MiB (numbers: the shorter only): stack use must follow nesting, not length.",
            assumptions: &["inputs nested so deeply that the stack of 64 MiB is exhausted are out of bounds", "sequences of zero-width elements are not codec types of the schema language"],
            exhaustive: true,
            threads: 8,
            capture: false,
        },
        |tier| {
            let mut v = V(vec![], tier);
            v.0.push(section("u8 prefix", |ck| prefix_entry::<u8>(ck, "u8", 1)));
            v.0.push(section("u16 prefix", |ck| prefix_entry::<u16>(ck, "u16", 2)));
            v.0.push(section("u30 prefix", |ck| prefix_entry::<u30>(ck, "u30", 4)));
            v.0.push(section("hex", hex_entry));
            v.0.push(section("long inputs", long_entry));
            catalog::all(&mut v);
            v.0
        },
    )
}
