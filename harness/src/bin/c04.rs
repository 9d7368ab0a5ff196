//! C04: decoding an encoding returns the value and consumes all of it.
use mcheck::catalog::Visitor;
use mcheck::*;
use tedium::Estimable;

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(name, move |ck| {
        let s = T::sch();
        let d = if tier == Tier::Quick {
            Dom { lvl: 2, long: true, cap: 1500, depth: 3 }
        } else {
            Dom { lvl: 2, long: true, cap: 30000, depth: 4 }
        };
        let vs = vals(&s, d);
        ck.st(vs.len() as u64);
        let need = tail_need_full(&s);
        let every = (vs.len() / 40).max(1);
        for (i, v) in vs.iter().enumerate() {
            if ck.stop() {
                return;
            }
            // (bytes before, bytes after, inside a window)
            let mut ctxs: Vec<(Vec<u8>, Vec<u8>, bool)> = Vec::new();
            let z = vec![0xAAu8; need];
            ctxs.push((vec![], z.clone(), false));
            ctxs.push((vec![1, 2, 3], z.clone(), true));
            if self_delim(&s) {
                for t in [vec![0u8], vec![0xff, 0xff], vec![0x80, 1, 0, 0xff, 7]] {
                    ctxs.push((vec![], t.clone(), false));
                    ctxs.push((vec![9], t, true));
                }
            }
            // far from the start, and followed by a lot
            if i % every == 0 {
                for n in [17usize, 255, 256, 300, 66_000] {
                    ctxs.push((vec![0x5a; n], z.clone(), n % 2 == 0));
                    if self_delim(&s) {
                        ctxs.push((vec![], (0..n).map(|i| (i % 255) as u8 + 1).collect(), n % 2 == 0));
                    }
                }
            }
            for (pre, post, win) in ctxs {
                for k in PKS {
                    ck.tr(1);
                    ck.vcase(
                        || format!("{name}: value {} before {} after {} window {win} parser {k:?}", vshow(v), hexs(&pre), hexs(&post)),
                        || {
                            let t = T::make(v);
                            if t.val() != *v {
                                return Verdict::Prune;
                            }
                            let mut buf = pre.clone();
                            let e = t.to_bytes();
                            buf.extend_from_slice(&e);
                            buf.extend_from_slice(&post);
                            let at = if win {
                                // the window ends right after the value and its required tail
                                At { pre: pre.len(), win: Some(e.len() + if self_delim(&s) { 0 } else { need }) }
                            } else {
                                At { pre: pre.len(), win: None }
                            };
                            match decode_at::<T>(k, &buf, at) {
                                None => Verdict::Fail(format!("decoding {} failed", hexs(&buf))),
                                Some(g) if g.val != *v => Verdict::Fail(format!("decoded {} from {}", vshow(&g.val), hexs(&buf))),
                                Some(g) if g.used != e.len() => {
                                    Verdict::Fail(format!("consumed {} of the {} bytes written", g.used, e.len()))
                                }
                                Some(_) => Verdict::Pass,
                            }
                        },
                    );
                }
            }
        }
    }));
}
fn tail_need_full(s: &Sch) -> usize {
    tail_need(s)
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}
fn main() {
    run(
        Spec {
            prop: "C04",
            explanation: "states = (type, value) pairs enumerated; a transition = one encode-decode execution of the real code in one context (bytes before, bytes after, window, parser). Values: full leaf domains, products full up to the cap and otherwise all with at most two fields away from default, sequences up to 4 elements plus long ones.",
            assumptions: &["types outside the catalogue behave like their catalogued constituents"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = V(vec![], tier);
            catalog::all(&mut v);
            v.0
        },
    )
}
