//! C22: the tracing parser's trace shows exactly the reads performed.
use mcheck::catalog::Visitor;
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use tedium::parse::buffer::VecBuffer;
use tedium::parse::ParserExt;
use tedium::*;

/// Bytes consumed by one operation; `whole`: by a single read.
#[derive(Clone, Debug)]
struct Bite {
    bytes: Vec<u8>,
    whole: bool,
}

/// The non-empty segments of one printed trace.
fn segments(line: &str) -> Result<Vec<Vec<u8>>, String> {
    let body = line
        .strip_prefix("[|")
        .and_then(|x| x.strip_suffix(']'))
        .ok_or_else(|| format!("not a trace: {line:?}"))?;
    let mut out = vec![];
    for s in body.split('|') {
        if s.len() % 2 != 0 {
            return Err(format!("odd segment in {line:?}"));
        }
        let mut v = vec![];
        for i in (0..s.len()).step_by(2) {
            v.push(u8::from_str_radix(&s[i..i + 2], 16).map_err(|_| format!("not hex: {line:?}"))?);
        }
        if !v.is_empty() {
            out.push(v);
        }
    }
    Ok(out)
}

fn matches(line: &str, bites: &[Bite]) -> Result<(), String> {
    let segs = segments(line)?;
    let mut it = segs.iter();
    for b in bites.iter().filter(|b| !b.bytes.is_empty()) {
        let mut got: Vec<u8> = vec![];
        let mut n = 0;
        while got.len() < b.bytes.len() {
            match it.next() {
                None => return Err(format!("trace {line:?} ends early, reads were {bites:?}")),
                Some(s) => got.extend(s),
            }
            n += 1;
        }
        if got != b.bytes || b.whole && n != 1 {
            return Err(format!("trace {line:?}, reads were {bites:?}"));
        }
    }
    if it.next().is_some() {
        return Err(format!("trace {line:?} shows more than the reads {bites:?}"));
    }
    Ok(())
}

fn lines(v: Vec<u8>) -> Result<Vec<String>, String> {
    Ok(String::from_utf8(v).map_err(|_| "trace is not text")?.lines().map(|x| x.to_string()).collect())
}

fn dump(p: &MemoParser) -> Result<String, String> {
    take_captured();
    quiet(|| p.dump_state()).map_err(|e| format!("dump_state panicked: {e}"))?;
    let l = lines(take_captured())?;
    if l.len() != 1 {
        return Err(format!("dump_state printed {l:?}"));
    }
    Ok(l[0].clone())
}

fn run(buf: &[u8], h: &[Op]) -> Verdict {
    let mut p = MemoParser::from_buffer(VecBuffer::from(buf));
    let mut q = ByteParser::from_buffer(VecBuffer::from(buf));
    let mut m = M::new(buf.len());
    let mut bites: Vec<Bite> = vec![];
    for (i, op) in h.iter().enumerate() {
        let last = i + 1 == h.len();
        let from = m.pos;
        let e = m.step(buf, op);
        take_captured();
        let a = quiet(|| apply(&mut p, buf, op));
        let printed = take_captured();
        let b = quiet(|| apply(&mut q, buf, op));
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => return Verdict::Prune,
            (a, b) => {
                return if last { Verdict::Fail(format!("{op:?}: tracing parser {a:?}, plain parser {b:?}")) } else { Verdict::Prune };
            }
        };
        let same = if a.is_err() || b.is_err() { a.is_err() == b.is_err() } else { a == b };
        if !same || p.remainder() != q.remainder() && e != Out::ErrLoose {
            return if last {
                Verdict::Fail(format!("{op:?}: tracing parser {a:?}, {} left; plain parser {b:?}, {} left", p.remainder(), q.remainder()))
            } else {
                Verdict::Prune
            };
        }
        if e == Out::ErrLoose {
            return Verdict::Pass;
        }
        if !e.admits(&a) || p.remainder() != m.rem() {
            // wrong, but not a matter of tracing
            return Verdict::Prune;
        }
        let whole = !matches!(op, Op::Nth(_) | Op::Last | Op::Count | Op::Iter(_) | Op::Hint | Op::SelfTerm(_) | Op::Kv(..) | Op::SkipDyn(_) | Op::Pfx(_));
        bites.push(Bite { bytes: buf[from..m.pos].to_vec(), whole });
        // a read that fails prints the trace
        let read = !matches!(op, Op::Fit(_) | Op::Close | Op::Test | Op::Skip(_)) && whole;
        if last && read && (e == Out::Err || e == Out::NoItem) {
            let l = match lines(printed) {
                Ok(l) => l,
                Err(e) => return Verdict::Fail(e),
            };
            match l.last() {
                None => return Verdict::Fail(format!("{op:?} failed without printing the trace")),
                Some(x) => {
                    if let Err(e) = matches(x, &bites) {
                        return Verdict::Fail(format!("printed when {op:?} failed: {e}"));
                    }
                }
            }
        }
    }
    let shown = dump(&p).and_then(|d| matches(&d, &bites).map(|_| d));
    match shown {
        Err(e) => Verdict::Fail(e),
        Ok(d) => {
            // showing the trace changes nothing
            if p.remainder() != q.remainder() {
                return Verdict::Fail("dump_state changed the position".into());
            }
            match dump(&p) {
                Ok(d2) if d2 == d => Verdict::Pass,
                x => Verdict::Fail(format!("a second dump shows {x:?}, the first {d:?}")),
            }
        }
    }
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(format!("trace of decoding {name}"), move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let vs = vals(&s, Dom { lvl: 1, long: true, cap: if th { 1000 } else { 150 }, depth: 3 });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let q = InBounds { words: 1000, seeds: 30, positions: 12, full_bytes: false, two_bytes: false };
        let ins = inputs(&s, if th { &QUICK_IN } else { &q }, &seeds);
        ck.st(ins.len() as u64);
        for b in &ins {
            if ck.stop() {
                return;
            }
            ck.tr(2);
            ck.vcase(
                || format!("{name} from {}", hexs(b)),
                || {
                    let mut p = MemoParser::from_buffer(VecBuffer::from(b.as_slice()));
                    let mut q = ByteParser::from_buffer(VecBuffer::from(b.as_slice()));
                    let r = quiet(|| T::parse(&mut p)).map(|x| x.ok().map(|x| x.val()));
                    let t = quiet(|| T::parse(&mut q)).map(|x| x.ok().map(|x| x.val()));
                    match (&r, &t) {
                        (Err(_), Err(_)) => return Verdict::Prune,
                        (Ok(a), Ok(b)) if a == b => {}
                        _ => return Verdict::Fail(format!("tracing parser {r:?}, plain parser {t:?}")),
                    }
                    // after success and after failure alike: all that was consumed, in order
                    let mut open = 0usize;
                    let off = p.offset();
                    if off > b.len() {
                        return Verdict::Fail(format!("offset {off} of {} bytes", b.len()));
                    }
                    if r == Ok(None) && off != q.offset() {
                        open += 1;
                    }
                    if open > 0 {
                        return Verdict::Fail(format!("offset {off}, plain parser {}", q.offset()));
                    }
                    match dump(&p).and_then(|d| {
                        let segs = segments(&d)?;
                        let all: Vec<u8> = segs.concat();
                        if all != b[..off] {
                            return Err(format!("trace {d:?} after consuming {}", hexs(&b[..off])));
                        }
                        Ok(())
                    }) {
                        Ok(()) => Verdict::Pass,
                        Err(e) => Verdict::Fail(e),
                    }
                },
            );
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn main() {
    mcheck::run(
        Spec {
            prop: "C22",
            explanation: "states = nodes of the history tree and state graph, decoder inputs; a transition = one history on the real tracing parser and the plain one with the printed output captured. After every history up to the stated depth the dumped trace is parsed and compared with the reads performed (one segment per primitive read; a composite operation's segments may be divided anywhere); a failing read must have printed that trace; results are compared with the plain parser's. Decoding of every catalogued type: the trace is exactly the bytes consumed, also after a failure.",
            assumptions: &["empty reads may or may not show as empty segments", "printed output is captured per thread through the standard library's test-capture hook"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], tier);
            for (pn, b) in buffers(if th { 6 } else { 5 }) {
                let depth = match (th, b.len(), pn) {
                    (false, 0..=3, _) => 4,
                    (false, ..) => 3,
                    (true, ..) => 4,
                };
                v.0.push(section(format!("all histories of {depth} operations, {pn} {}", b.len()), move |ck| {
                    dfs(ck, &b, depth, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, Some(PK::Memo), h), || run(&b, h)));
                }));
            }
            for (pn, b) in buffers(if th { 6 } else { 4 }).into_iter().filter(|x| x.1.len() >= 3 && x.0 == "count") {
                let depth = if th { 6 } else { 5 };
                v.0.push(section(format!("all histories of {depth} operations of the small alphabet, {pn} {}", b.len()), move |ck| {
                    dfs(ck, &b, depth, Alpha::Min, WIN, &mut |ck, h| ck.vcase(|| show(&b, Some(PK::Memo), h), || run(&b, h)));
                }));
            }
            for (pn, b) in buffers(if th { 9 } else { 7 }).into_iter().filter(|x| x.1.len() > 3 && (x.0 == "count" || x.0 == "zeros")) {
                let (wins, reps, maxs) = if th { (5, 2, 3000) } else { (3, 1, 300) };
                v.0.push(section(format!("state graph, windows up to {wins}, {pn} {}", b.len()), move |ck| {
                    bfs(ck, &b, wins, reps, maxs, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, Some(PK::Memo), h), || run(&b, h)));
                }));
            }
            for (pn, b) in long_buffers(false) {
                v.0.push(section(format!("long buffer {pn}"), move |ck| {
                    dfs(ck, &b, 2, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, Some(PK::Memo), h), || run(&b, h)));
                }));
            }
            v.0.push(section("sizes around powers of two", |ck| {
                sized(ck, Some(PK::Memo), 7, &mut |b, h| {
                    if b.len() > 10_000 && !matches!(h.last(), Some(Op::Consume(_) | Op::Dyn(_) | Op::Fit(_))) {
                        return Verdict::Pass;
                    }
                    run(b, h)
                })
            }));
            // long traces: every byte value, many reads
            v.0.push(section("long traces", move |ck| {
                let b: Vec<u8> = (0..=255).collect();
                for step in 1..=17usize {
                    for n in 0..=256 / step {
                        let h: Vec<Op> = (0..n).map(|i| if step == 1 && i % 2 == 0 { Op::Byte } else { Op::Consume(step) }).collect();
                        ck.st(1);
                        ck.tr(1);
                        if n % 16 == 0 || n < 4 || n == 256 / step {
                            let mut h2 = h.clone();
                            h2.push(Op::Consume(300));
                            ck.vcase(|| show(&b, Some(PK::Memo), &h2), || run(&b, &h2));
                        }
                        ck.vcase(|| show(&b, Some(PK::Memo), &h), || run(&b, &h));
                    }
                }
            }));
            catalog::all(&mut v);
            v.0
        },
    )
}
