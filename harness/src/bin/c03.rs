//! C03: the three parser implementations are interchangeable.
use mcheck::catalog::Visitor;
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::*;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::ParserExt;
use tedium::*;

type Log = Vec<(Out, usize)>;

fn record<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, buf: &[u8], h: &[Op]) -> Log {
    let mut m = M::new(buf.len());
    let mut log = vec![(Out::Unit, p.remainder())];
    let mut one = |p: &mut P, op: &Op, log: &mut Log| -> bool {
        match quiet(|| apply(p, buf, op)) {
            Ok(o) => {
                let o = if o.is_err() { Out::Err } else { o };
                log.push((o, p.remainder()));
                true
            }
            Err(e) => {
                log.push((Out::Panic(String::new()), 0));
                let _ = e;
                false
            }
        }
    };
    for op in h {
        let e = m.step(buf, op);
        if !one(&mut p, op, &mut log) {
            return log;
        }
        if e == Out::ErrLoose {
            if let Some(l) = log.last_mut() {
                l.1 = 0;
            }
            return log;
        }
    }
    // drain: read what is left of every window and close it
    for _ in 0..m.ends.len() + 2 {
        let k = p.remainder();
        for op in [Op::Test, Op::Consume(k), Op::Byte, Op::Close] {
            if !one(&mut p, &op, &mut log) {
                return log;
            }
        }
    }
    log
}

fn compare(buf: &[u8], h: &[Op]) -> Verdict {
    let a = record(ByteParser::from_buffer(VecBuffer::from(buf)), buf, h);
    let b = record(MemoParser::from_buffer(VecBuffer::from(buf)), buf, h);
    let c = record(SliceParser::from_buffer(SliceBuffer::new(buf)), buf, h);
    for (n, x) in [("tracing", &b), ("slice", &c)] {
        if *x != a {
            let i = a.iter().zip(x.iter()).position(|(p, q)| p != q).unwrap_or(a.len().min(x.len()));
            let what = if i == 0 {
                "initially".to_string()
            } else if i <= h.len() {
                format!("operation {} ({:?})", i - 1, h[i - 1])
            } else {
                format!("draining step {}", i - h.len())
            };
            return Verdict::Fail(format!("{what}: byte parser {:?}, {n} parser {:?}", a.get(i), x.get(i)));
        }
    }
    Verdict::Pass
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(format!("decode {name}"), move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let vs = vals(&s, Dom { lvl: 1, long: true, cap: if th { 2000 } else { 300 }, depth: 3 });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let ins = inputs(&s, if th { &THOROUGH_IN } else { &QUICK_IN }, &seeds);
        ck.st(ins.len() as u64);
        for b in &ins {
            let mut ats = vec![(b.clone(), START)];
            let mut w = vec![7, 7];
            w.extend_from_slice(b);
            w.extend([1, 2, 3]);
            ats.push((w, At { pre: 2, win: Some(b.len()) }));
            for (buf, at) in ats {
                if ck.stop() {
                    return;
                }
                ck.tr(3);
                ck.case(
                    || format!("decode {name} from {} at {at:?}", hexs(&buf)),
                    || {
                        let r: Vec<Option<Got>> = PKS
                            .iter()
                            .map(|k| quiet(|| decode_at::<T>(*k, &buf, at)).unwrap_or(Some(Got { val: Val::Unit, used: usize::MAX })))
                            .collect();
                        if r[0] != r[1] || r[0] != r[2] {
                            return Err(format!("byte {:?} tracing {:?} slice {:?}", r[0], r[1], r[2]));
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn main() {
    run(
        Spec {
            prop: "C03",
            explanation: "states = history-tree and state-graph nodes plus decoder inputs; a transition = one history run on all three real parsers, or one decode by one of them. Operation histories: as C01 (all up to the stated depth, then state graphs), every outcome and remaining count compared among the parsers, then draining. Decoding: every catalogued type on all words over its tailored alphabet, every encoding of enumerated values and its one-edit neighbourhood, bare and inside a window.",
            assumptions: &["after a read that fails on an illegal value (boolean, unterminated number) the position is not compared"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], tier);
            for (pn, b) in buffers(if th { 7 } else { 6 }) {
                let depth = if pn == "count" || b.len() <= 4 { 4 } else { 3 };
                v.0.push(section(format!("all histories of {depth} operations, {pn} {}", b.len()), move |ck| {
                    dfs(ck, &b, depth, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || compare(&b, h)));
                }));
            }
            for (pn, b) in buffers(if th { 9 } else { 6 }).into_iter().filter(|x| x.1.len() > 2 && x.0 != "flags") {
                let (wins, reps, maxs) = if th { (6, 2, 3000) } else { (4, 1, 300) };
                v.0.push(section(format!("state graph, windows up to {wins}, {pn} {}", b.len()), move |ck| {
                    bfs(ck, &b, wins, reps, maxs, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || compare(&b, h)));
                }));
            }
            for d in [Op::Fit(3), Op::Fit(0)] {
                v.0.push(section(format!("deep window stacks of {d:?}"), move |ck| {
                    let b = [1u8, 2, 3, 4];
                    let mut m = M::new(4);
                    let mut h = vec![];
                    for _ in 0..24 {
                        h.push(d);
                        m.step(&b, &d);
                        for op in ops(&m, &b, Alpha::Full, 7) {
                            h.push(op);
                            ck.tr(1);
                            ck.vcase(|| show(&b, None, &h), || compare(&b, &h));
                            h.pop();
                        }
                    }
                }));
            }
            for (pn, b) in long_buffers(th) {
                v.0.push(section(format!("long buffer {pn}"), move |ck| {
                    dfs(ck, &b, 2, Alpha::Core, 7, &mut |ck, h| ck.vcase(|| show(&b, None, h), || compare(&b, h)));
                }));
            }
            v.0.push(section("sizes around powers of two", |ck| sized(ck, None, 7, &mut |b, h| compare(b, h))));
            catalog::all(&mut v);
            v.0
        },
    )
}
