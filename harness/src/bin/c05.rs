//! C05: encoded bytes follow the documented binary layout.
use mcheck::catalog::Visitor;
use mcheck::*;
use tedium::{Encode, Estimable};

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(name, move |ck| {
        let s = T::sch();
        let d = if tier == Tier::Quick {
            Dom { lvl: 2, long: true, cap: 8000, depth: 3 }
        } else {
            Dom { lvl: 2, long: true, cap: 200_000, depth: 4 }
        };
        let vs = vals(&s, d);
        ck.st(vs.len() as u64);
        let mut lens = std::collections::BTreeSet::new();
        for v in &vs {
            if ck.stop() {
                return;
            }
            let want = encv(&s, v);
            lens.insert(want.len());
            ck.tr(1);
            ck.vcase(
                || format!("{name}: {}", vshow(v)),
                || {
                    let t = T::make(v);
                    let got: Vec<u8> = t.encode::<Vec<u8>>();
                    if got != want {
                        return Verdict::Fail(format!("encoded as {}, the layout says {}", hexs(&got), hexs(&want)));
                    }
                    let mut again = vec![0xA5u8];
                    t.write_to(&mut again);
                    if again[0] != 0xA5 || again[1..] != want[..] {
                        return Verdict::Fail(format!("appended {} to a5, the layout says {}", hexs(&again), hexs(&want)));
                    }
                    Verdict::Pass
                },
            );
        }
        ck.outn("distinct encoding lengths", lens.len() as u64);
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}
fn main() {
    run(
        Spec {
            prop: "C05",
            explanation: "states = (type, value) pairs enumerated; a transition = one value encoded by the real code and compared byte for byte with a reference encoder written from the documented layout (full leaf domains of boundary numbers, products full up to the cap and otherwise all with at most two fields away from default, sequences up to 4 elements and long ones).",
            assumptions: &["types outside the catalogue behave like their catalogued constituents"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = V(vec![], tier);
            catalog::all(&mut v);
            v.0
        },
    )
}
