//! C07: a decoder accepts exactly the valid encodings, with the right value.
use mcheck::catalog::Visitor;
use mcheck::inputs::*;
use mcheck::*;
use tedium::Estimable;

struct V(Vec<Section>, Tier);

fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(name, move |ck| {
        let s = T::sch();
        let th = tier == Tier::Thorough;
        let vs = vals(&s, Dom { lvl: 2, long: true, cap: if th { 20000 } else { 1500 }, depth: if th { 4 } else { 3 } });
        let seeds: Vec<Vec<u8>> = vs.iter().map(|v| encv(&s, v)).collect();
        let ins = inputs(&s, if th { &THOROUGH_IN } else { &QUICK_IN }, &seeds);
        ck.st(ins.len() as u64);
        let opts = Opts { check_padding: cfg!(feature = "check_padding") };
        let (mut acc, mut rej) = (0, 0);
        for (i, b) in ins.iter().enumerate() {
            // bare; after other bytes; in a window that is followed by other bytes
            let mut cases: Vec<(Vec<u8>, At)> = vec![(b.clone(), START)];
            let mut w = vec![0xff, 0, 5];
            w.extend_from_slice(b);
            cases.push((w.clone(), At { pre: 3, win: None }));
            w.extend([0, 0xff, 0x80, 1, 0, 0, 0]);
            cases.push((w, At { pre: 3, win: Some(b.len()) }));
            if i % 16 == 3 {
                // far from the start, and followed by a lot
                let mut w = vec![0x5a; 300];
                w.extend_from_slice(b);
                w.extend([1, 0, 0x80].iter().cycle().take(300));
                cases.push((w, At { pre: 300, win: Some(b.len()) }));
            }
            let want = decv(&s, b, opts);
            if want.is_some() {
                acc += 1
            } else {
                rej += 1
            }
            for (buf, at) in cases {
                for k in PKS {
                    if ck.stop() {
                        return;
                    }
                    ck.tr(1);
                    ck.vcase(
                        || format!("decode {name} from {} (buffer {}, {at:?}, {k:?} parser)", hexs(b), hexs(&buf)),
                        || {
                            let got = match quiet(|| decode_at::<T>(k, &buf, at)) {
                                Ok(g) => g,
                                Err(e) => return Verdict::Fail(format!("decoder panicked: {e}")),
                            };
                            match (&want, got) {
                                (None, None) => Verdict::Pass,
                                (Some((v, n)), Some(g)) => {
                                    if g.val != *v {
                                        Verdict::Fail(format!("decoded {}, the layout says {}", vshow(&g.val), vshow(v)))
                                    } else if g.used != *n {
                                        Verdict::Fail(format!("consumed {} bytes, the encoding has {n}", g.used))
                                    } else {
                                        Verdict::Pass
                                    }
                                }
                                (None, Some(g)) => Verdict::Fail(format!("accepted an invalid encoding as {}", vshow(&g.val))),
                                (Some((v, _)), None) => Verdict::Fail(format!("rejected a valid encoding of {}", vshow(v))),
                            }
                        },
                    );
                }
            }
        }
        ck.outn("inputs the layout accepts", acc);
        ck.outn("inputs the layout rejects", rej);
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}
fn main() {
    run(
        Spec {
            prop: "C07",
            explanation: "states = (type, input) pairs; a transition = one decode by the real code (three parsers; bare, after other bytes, inside a window followed by other bytes) compared with a reference decoder written from the documented layout: same verdict, same value, same number of bytes. Inputs: all one-byte strings, all words over the type's tailored alphabet up to the cap, every enumerated value's encoding with truncations, extensions and one-byte edits (all 256 values for short encodings).",
            assumptions: &["inputs outside the enumerated neighbourhoods behave like those inside", "types outside the catalogue behave like their catalogued constituents"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = V(vec![], tier);
            catalog::all(&mut v);
            v.0
        },
    )
}
