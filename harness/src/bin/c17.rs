//! C17: discarding a parser accounts for every unread byte and window.
use mcheck::catalog::Visitor;
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use tedium::conv::error::DecodeError;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::ParserExt;
use tedium::*;

/// The unread bytes by window: innermost window first, the rest of the buffer last.
fn groups(m: &M, b: &[u8]) -> Vec<Vec<u8>> {
    let mut g = vec![];
    let mut from = m.pos;
    for e in m.ends.iter().rev() {
        g.push(b[from..*e].to_vec());
        from = *e;
    }
    g
}

/// Compares a leftover state with the groups it must show.
fn same(l: &LeftoverState, g: &[Vec<u8>]) -> Result<(), String> {
    let all: Vec<u8> = g.concat();
    if l.len() != all.len() {
        return Err(format!("{l:?} has len() {} for {} unread bytes", l.len(), all.len()));
    }
    if l.is_empty() != all.is_empty() {
        return Err(format!("{l:?}.is_empty() = {} for {} unread bytes", l.is_empty(), all.len()));
    }
    if g.len() == 1 {
        let ok = match l {
            LeftoverState::Empty => all.is_empty(),
            LeftoverState::Windowless(v) => *v == all,
            _ => false,
        };
        if !ok {
            return Err(format!("{l:?}, expected the unread bytes {} and no window", hexs(&all)));
        }
        return Ok(());
    }
    match l {
        LeftoverState::Windowed(sv) => {
            let seen: Vec<Vec<u8>> = sv.spans().map(|s| s.to_vec()).collect();
            let mut want = g.to_vec();
            // the bytes outside every window form a last segment only if there are any
            if want.last().map_or(false, |x| x.is_empty()) {
                want.pop();
            }
            let mut seen2 = seen.clone();
            if seen2.len() == want.len() + 1 && seen2.last().map_or(false, |x| x.is_empty()) {
                seen2.pop();
            }
            if seen2 != want {
                return Err(format!("groups {seen:?}, expected {want:?}"));
            }
            let flat: Vec<u8> = sv.clone().into_inner();
            if flat != all {
                return Err(format!("bytes {}, expected {}", hexs(&flat), hexs(&all)));
            }
            Ok(())
        }
        _ => Err(format!("{l:?}, expected {} windows with groups {g:?}", g.len() - 1)),
    }
}

fn discard<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, buf: &[u8], h: &[Op]) -> Verdict {
    let mut m = M::new(buf.len());
    for op in h {
        let e = m.step(buf, op);
        if e == Out::ErrLoose {
            return Verdict::Pass;
        }
        let got = match quiet(|| apply(&mut p, buf, op)) {
            Ok(g) => g,
            Err(_) => return Verdict::Prune,
        };
        if !e.admits(&got) || p.remainder() != m.rem() {
            // another property's business: the position is no longer the model's
            return Verdict::Prune;
        }
    }
    match quiet(|| p.cleanup()) {
        Err(e) => Verdict::Fail(format!("discarding panicked: {e}")),
        Ok(Err(e)) => Verdict::Fail(format!("discarding failed: {e:?}")),
        Ok(Ok(l)) => match same(&l, &groups(&m, buf)) {
            Ok(()) => Verdict::Pass,
            Err(e) => Verdict::Fail(e),
        },
    }
}

fn discard_kind(k: PK, buf: &[u8], h: &[Op]) -> Verdict {
    match k {
        PK::Byte => discard(ByteParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Memo => discard(MemoParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Slice => discard(SliceParser::from_buffer(SliceBuffer::new(buf)), buf, h),
    }
}

// ---- the leftover state by itself ----------------------------------------------------------
#[derive(Clone, Copy, Debug)]
enum L {
    Append(&'static [u8]),
    Escape,
}
fn leftover_histories(ck: &mut Ck, depth: usize) {
    const A: [L; 5] = [L::Append(&[]), L::Append(&[1]), L::Append(&[2, 3]), L::Append(&[4, 5, 6, 7]), L::Escape];
    fn go(ck: &mut Ck, h: &mut Vec<L>, left: usize) {
        ck.st(1);
        for by_default in [false, true] {
            ck.tr(1);
            ck.case(
                || format!("leftover state {}: {h:?}", if by_default { "default()" } else { "new()" }),
                || {
                    let mut l = if by_default { LeftoverState::default() } else { LeftoverState::new() };
                    let mut g: Vec<Vec<u8>> = vec![vec![]];
                    for o in h.iter() {
                        match o {
                            L::Append(b) => {
                                let mut v = b.to_vec();
                                l.append(&mut v);
                                if !v.is_empty() {
                                    return Err(format!("append left {v:?} behind"));
                                }
                                g.last_mut().unwrap().extend_from_slice(b);
                            }
                            L::Escape => {
                                l.escape_context();
                                g.push(vec![]);
                            }
                        }
                    }
                    same(&l, &g)
                },
            );
        }
        if left == 0 || ck.stop() {
            return;
        }
        for o in A {
            h.push(o);
            go(ck, h, left - 1);
            h.pop();
        }
    }
    go(ck, &mut vec![], depth);
    // long pieces, and many groups
    for (groups, each) in [(1usize, 1usize << 17), (2, 70_000), (40, 1), (40, 300), (300, 1), (300, 0), (3000, 3), (9, 4096)] {
        for last_open in [false, true] {
            ck.st(1);
            ck.tr(1);
            ck.case(
                || format!("leftover state of {groups} groups of {each} bytes (ended: {})", !last_open),
                || {
                    let mut l = LeftoverState::new();
                    let mut g: Vec<Vec<u8>> = vec![vec![]];
                    for i in 0..groups {
                        for half in [each / 2, each - each / 2] {
                            let mut v: Vec<u8> = (0..half).map(|k| (k * 3 + i) as u8).collect();
                            g.last_mut().unwrap().extend_from_slice(&v);
                            l.append(&mut v);
                        }
                        if i + 1 < groups || !last_open {
                            l.escape_context();
                            g.push(vec![]);
                        }
                    }
                    same(&l, &g)
                },
            );
        }
    }
}

// ---- complete-parse checking ----------------------------------------------------------------
const FULL: bool = cfg!(feature = "check_complete_parse");

/// Decodes nothing but fixed reads and leaves windows open, as told by its parameter.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Leaves<const READ: usize, const WIN: usize, const IN: usize>;
impl<const READ: usize, const WIN: usize, const IN: usize> Decode for Leaves<READ, WIN, IN> {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        p.take_dynamic(READ)?;
        if WIN != 99 {
            p.set_fit(WIN)?;
            p.take_dynamic(IN)?;
        }
        Ok(Leaves)
    }
}

fn by_parser<T: Decode>(k: PK, b: &[u8]) -> Result<T, DecodeError> {
    match k {
        PK::Byte => T::try_decode::<_, ByteParser>(b),
        PK::Memo => T::try_decode::<_, MemoParser>(b),
        PK::Slice => T::try_decode::<_, SliceParser>(b),
    }
}

/// (value accepted by `parse`, bytes left over)
fn plain<T: Decode>(k: PK, b: &[u8]) -> Option<(T, Vec<u8>)> {
    fn go<T: Decode, P: Parser>(mut p: P, b: &[u8]) -> Option<(T, Vec<u8>)> {
        let v = T::parse(&mut p).ok()?;
        // what is left, window by window, without using the discarding logic
        let mut rest = vec![];
        loop {
            let k = p.remainder();
            rest.extend(p.take_dynamic(k).expect("reading what remains"));
            if p.enforce_target().is_err() {
                break;
            }
        }
        assert!(b.ends_with(&rest), "what remains is not the end of the input");
        Some((v, rest))
    }
    match k {
        PK::Byte => go(ByteParser::from_buffer(VecBuffer::from(b)), b),
        PK::Memo => go(MemoParser::from_buffer(VecBuffer::from(b)), b),
        PK::Slice => go(SliceParser::from_buffer(SliceBuffer::new(b)), b),
    }
}

fn complete<T: Decode, R: PartialEq + std::fmt::Debug>(k: PK, b: &[u8], unit: bool, see: impl Fn(&T) -> R) -> Result<(), String> {
    let p = quiet(|| plain::<T>(k, b)).map_err(|e| format!("parse panicked: {e}"))?;
    let t = quiet(|| by_parser::<T>(k, b)).map_err(|e| format!("try_decode panicked: {e}"))?;
    if unit && !FULL {
        // without the feature the unit decoder does not look at its input
        return t.map(|_| ()).map_err(|e| format!("try_decode failed: {e:?}"));
    }
    match (p, t) {
        (None, Err(DecodeError::NonEmpty(l))) => Err(format!("parse fails, try_decode reports leftovers {l:?}")),
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err("parse fails, try_decode succeeds".into()),
        (Some((v, rest)), Ok(w)) => {
            if FULL && !rest.is_empty() {
                return Err(format!("try_decode succeeded although {} bytes were left", rest.len()));
            }
            if see(&v) != see(&w) {
                return Err(format!("parse gave {:?}, try_decode {:?}", see(&v), see(&w)));
            }
            Ok(())
        }
        (Some((_, rest)), Err(e)) => {
            if !FULL || rest.is_empty() {
                return Err(format!("parse succeeds leaving {} bytes, try_decode fails: {e:?}", rest.len()));
            }
            match e {
                DecodeError::NonEmpty(l) => {
                    if l.len() != rest.len() || l.is_empty() {
                        return Err(format!("{} bytes were left, the error reports {l:?}", rest.len()));
                    }
                    let bytes: Vec<u8> = match l {
                        LeftoverState::Empty => vec![],
                        LeftoverState::Windowless(v) => v,
                        LeftoverState::Windowed(s) => s.into_inner(),
                    };
                    if bytes != rest {
                        return Err(format!("left {}, the error reports {}", hexs(&rest), hexs(&bytes)));
                    }
                    Ok(())
                }
                e => Err(format!("leftovers reported as {e:?}")),
            }
        }
    }
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(format!("try_decode {name}"), move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let vs = vals(&s, Dom { lvl: 1, long: true, cap: if th { 1500 } else { 200 }, depth: 3 });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let q = InBounds { words: 1500, seeds: 40, positions: 16, full_bytes: false, two_bytes: false };
        let mut ins = inputs(&s, if th { &QUICK_IN } else { &q }, &seeds);
        // exact inputs and inputs with leftovers of several lengths
        for e in seeds.iter().take(if th { 400 } else { 60 }) {
            for n in [1usize, 2, 7, 40, 300] {
                let mut x = e.clone();
                x.extend((0..n).map(|i| (i * 37 + 1) as u8));
                ins.push(x);
            }
        }
        ck.st(ins.len() as u64);
        for b in &ins {
            for k in PKS {
                if ck.stop() {
                    return;
                }
                ck.tr(1);
                ck.case(|| format!("{name} from {} by the {k:?} parser", hexs(b)), || complete::<T, _>(k, b, matches!(s, Sch::Unit), |x| x.val()));
            }
            // decode/decode_memo panic exactly when try_decode fails
            ck.tr(2);
            ck.case(
                || format!("{name}::decode and decode_memo from {}", hexs(b)),
                || {
                    let t = quiet(|| by_parser::<T>(PK::Byte, b)).ok().and_then(|x| x.ok()).map(|x| x.val());
                    let d = quiet(|| T::decode(b.as_slice())).ok().map(|x| x.val());
                    let m = quiet(|| T::decode_memo(b.as_slice())).ok().map(|x| x.val());
                    if d != t || m != t {
                        return Err(format!("try_decode {t:?}, decode {d:?}, decode_memo {m:?}"));
                    }
                    Ok(())
                },
            );
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn leaves(ck: &mut Ck) {
    macro_rules! one {
        ($($r:literal $w:literal $i:literal),+) => {$(
            for n in 0..=8usize {
                let b: Vec<u8> = (1..=n as u8).collect();
                for k in PKS {
                    ck.tr(1);
                    ck.case(
                        || format!("a decoder that reads {} bytes{}, from {n} bytes, {k:?} parser", $r,
                            if $w == 99 { String::new() } else { format!(", opens a window of {} and reads {} in it", $w, $i) }),
                        || complete::<Leaves<$r, $w, $i>, _>(k, &b, false, |_| ()),
                    );
                }
            }
        )+};
    }
    ck.st(14 * 9);
    one!(0 99 0, 1 99 0, 3 99 0, 8 99 0, 0 0 0, 0 3 0, 0 3 1, 0 3 3, 2 3 3, 2 3 2, 5 3 3, 5 3 0, 8 0 0, 4 4 4);
}

fn main() {
    run(
        Spec {
            prop: "C17",
            explanation: "states = nodes of the history tree and state graph, leftover-state histories, decoder inputs; a transition = one discarding (or one top-level decoding) by one real parser. Each parser is driven through every history up to the stated depth and then discarded; the groups of unread bytes are compared with the model's window stack. Top-level decoding of every catalogued type (and of decoders that leave windows open) on the enumerated inputs, exact and with leftovers, by every parser, is compared with plain parsing; run with and without complete-parse checking.",
            assumptions: &["after a read that fails on an illegal value the position is unspecified, so such histories are not discarded"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], tier);
            v.0.push(section("leftover-state histories", move |ck| leftover_histories(ck, if th { 8 } else { 6 })));
            v.0.push(section("decoders that leave windows open", leaves));
            for k in PKS {
                for (pn, b) in buffers(if th { 7 } else { 5 }) {
                    let depth = if pn == "count" || b.len() <= 4 { 4 } else { 3 };
                    let b2 = b.clone();
                    v.0.push(section(format!("discarding after all histories of {depth} operations, {k:?}, {pn} {}", b.len()), move |ck| {
                        dfs(ck, &b2, depth, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b2, Some(k), h), || discard_kind(k, &b2, h)));
                    }));
                }
                for (pn, b) in buffers(if th { 6 } else { 4 }).into_iter().filter(|x| x.1.len() >= 2 && x.0 == "count") {
                    let depth = if th { 6 } else { 5 };
                    v.0.push(section(format!("discarding after all histories of {depth} operations of the small alphabet, {k:?}, {pn} {}", b.len()), move |ck| {
                        dfs(ck, &b, depth, Alpha::Min, WIN, &mut |ck, h| ck.vcase(|| show(&b, Some(k), h), || discard_kind(k, &b, h)));
                    }));
                }
                for (pn, b) in buffers(if th { 9 } else { 7 }).into_iter().filter(|x| x.1.len() > 2 && (x.0 == "count" || x.0 == "zeros")) {
                    let (wins, reps, maxs) = if th { (6, 2, 4000) } else { (4, 1, 400) };
                    v.0.push(section(format!("discarding in the state graph, windows up to {wins}, {k:?}, {pn} {}", b.len()), move |ck| {
                        bfs(ck, &b, wins, reps, maxs, Alpha::Core, WIN | READ, &mut |ck, h| ck.vcase(|| show(&b, Some(k), h), || discard_kind(k, &b, h)));
                    }));
                }
                v.0.push(section(format!("discarding with deep window stacks, {k:?}"), move |ck| {
                    let b = [1u8, 2, 3, 4, 5, 6];
                    for base in [Op::Fit(6), Op::Fit(5), Op::Fit(3), Op::Fit(0), Op::Consume(2), Op::Consume(6)] {
                        for d in 0..if th { 60 } else { 24 } {
                            for shrink in [0usize, 1, 5] {
                                let mut m = M::new(b.len());
                                let mut h = vec![base];
                                m.step(&b, &base);
                                for i in 0..d {
                                    let r = m.rem();
                                    let w = if shrink > 0 && i % shrink == shrink - 1 { r.saturating_sub(1) } else { r };
                                    h.push(Op::Fit(w));
                                    m.step(&b, &Op::Fit(w));
                                }
                                ck.st(1);
                                for last in [None, Some(Op::Byte), Some(Op::Close), Some(Op::Consume(m.rem()))] {
                                    let mut h2 = h.clone();
                                    h2.extend(last);
                                    ck.tr(1);
                                    ck.vcase(|| show(&b, Some(k), &h2), || discard_kind(k, &b, &h2));
                                }
                            }
                        }
                    }
                }));
                v.0.push(section(format!("discarding after sizes around powers of two, {k:?}"), move |ck| sized(ck, Some(k), 7, &mut |b, h| discard_kind(k, b, h))));
                for (pn, b) in long_buffers(true) {
                    v.0.push(section(format!("discarding over a long buffer {pn}, {k:?}"), move |ck| {
                        dfs(ck, &b, 2, Alpha::Core, WIN | READ, &mut |ck, h| ck.vcase(|| show(&b, Some(k), h), || discard_kind(k, &b, h)));
                    }));
                }
            }
            catalog::all(&mut v);
            v.0
        },
    )
}
