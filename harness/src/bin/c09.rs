//! C09: every output target receives the same bytes and reports the same counts.
use mcheck::catalog::{self, Visitor};
use mcheck::*;
use std::borrow::Borrow;
use tedium::builder::Builder;
use tedium::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    One,
    Many0,
    Many1,
    Many2,
    Many9,
    All0,
    All1,
    All3,
    All70,
    Hint0,
    Hint5,
    Hint5000,
    Mark,
    MarkZero,
    MarkMacro,
}
const OPS: [Op; 15] = [
    Op::One, Op::Many2, Op::All3, Op::Mark, Op::Hint5, Op::All0, Op::Many0, Op::All1, Op::Many1, Op::Many9, Op::All70, Op::MarkZero,
    Op::MarkMacro, Op::Hint0, Op::Hint5000,
];

struct Feed(u8);
impl Feed {
    fn take<const K: usize>(&mut self) -> [u8; K] {
        let mut a = [0u8; K];
        for x in a.iter_mut() {
            *x = self.0;
            // runs through all byte values, with zero and ff among the first
            self.0 = self.0.wrapping_mul(5).wrapping_add(0xff);
        }
        a
    }
    fn vec(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.take::<1>()[0]).collect()
    }
}

/// Applies one operation; returns the count the target reported (hints report nothing: 0).
fn apply<U: Target>(u: &mut U, op: Op, f: &mut Feed, model: &mut Vec<u8>) -> (usize, usize) {
    fn many<U: Target, const K: usize>(u: &mut U, f: &mut Feed, model: &mut Vec<u8>) -> (usize, usize) {
        let a = f.take::<K>();
        model.extend(a);
        (u.push_many(a), K)
    }
    fn all<U: Target>(u: &mut U, f: &mut Feed, model: &mut Vec<u8>, n: usize) -> (usize, usize) {
        let a = f.vec(n);
        model.extend(&a);
        (u.push_all(&a), n)
    }
    match op {
        Op::One => {
            let b = f.take::<1>()[0];
            model.push(b);
            (u.push_one(b), 1)
        }
        Op::Many0 => many::<U, 0>(u, f, model),
        Op::Many1 => many::<U, 1>(u, f, model),
        Op::Many2 => many::<U, 2>(u, f, model),
        Op::Many9 => many::<U, 9>(u, f, model),
        Op::All0 => all(u, f, model, 0),
        Op::All1 => all(u, f, model, 1),
        Op::All3 => all(u, f, model, 3),
        Op::All70 => all(u, f, model, 70),
        Op::Hint0 => {
            u.anticipate(0);
            (0, 0)
        }
        Op::Hint5 => {
            u.anticipate(5);
            (0, 0)
        }
        Op::Hint5000 => {
            u.anticipate(5000);
            (0, 0)
        }
        Op::Mark => {
            u.resolve();
            (0, 0)
        }
        Op::MarkZero => (u.resolve_zero(), 0),
        Op::MarkMacro => {
            let n: usize = tedium::resolve_zero!(u);
            (n, 0)
        }
    }
}

/// An output target together with every way of looking at what it holds.
trait Tgt: Target + Sized {
    const NAME: &'static str;
    /// number of ways to obtain a non-empty starting target
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)>;
    fn look(&self, want: &[u8]) -> Result<(), String>;
    fn end(self, want: &[u8]) -> Result<(), String>;
}
fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} holds {}, pushed {}", hexs(got), hexs(want)))
    }
}
fn hexof(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    b.iter().flat_map(|x| [D[(x >> 4) as usize] as char, D[(x & 15) as usize] as char]).collect()
}
fn ends<B: Builder + Clone>(b: B, want: &[u8]) -> Result<(), String> {
    if b.len() != want.len() || b.is_empty() != want.is_empty() {
        return Err(format!("len() {} is_empty() {} for {} bytes", b.len(), b.is_empty(), want.len()));
    }
    same("into_vec", &b.clone().into_vec(), want)?;
    let v: Vec<u8> = b.clone().finalize().into();
    same("finalize().into()", &v, want)?;
    if b.clone().into_hex() != hexof(want) {
        return Err(format!("into_hex is {} for {}", b.into_hex(), hexs(want)));
    }
    match (b.into_bin(), String::from_utf8(want.to_vec())) {
        (Ok(a), Ok(c)) if a == c => Ok(()),
        (Err(a), Err(_)) => same("the error of into_bin", a.as_bytes(), want),
        (a, _) => Err(format!("into_bin gave {a:?} for {}", hexs(want))),
    }
}
impl Tgt for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        let mut c = Vec::with_capacity(3);
        c.extend([1, 2, 3]);
        vec![("create", <Self as Target>::create(), vec![]), ("full vector", c, vec![1, 2, 3])]
    }
    fn look(&self, want: &[u8]) -> Result<(), String> {
        same("the vector", self, want)
    }
    fn end(self, want: &[u8]) -> Result<(), String> {
        same("the vector", &self, want)
    }
}
impl Tgt for std::io::Sink {
    const NAME: &'static str = "ByteCounter";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        vec![("create", <Self as Target>::create(), vec![])]
    }
    fn look(&self, _: &[u8]) -> Result<(), String> {
        Ok(())
    }
    fn end(self, _: &[u8]) -> Result<(), String> {
        Ok(())
    }
}
impl Tgt for HexString {
    const NAME: &'static str = "HexString";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        vec![
            ("create", <Self as Target>::create(), vec![]),
            ("from_bytes", HexString::from_bytes(vec![0xab, 0]), vec![0xab, 0]),
            ("from_hex", HexString::from_hex("0Fff00").unwrap(), vec![0x0f, 0xff, 0]),
        ]
    }
    fn look(&self, want: &[u8]) -> Result<(), String> {
        same("as_bytes", self.as_bytes(), want)?;
        if self.len() != want.len() || self.is_empty() != want.is_empty() {
            return Err("len or is_empty".into());
        }
        Ok(())
    }
    fn end(self, want: &[u8]) -> Result<(), String> {
        if self.to_hex() != hexof(want) {
            return Err(format!("to_hex is {}", self.to_hex()));
        }
        same("into_inner", &self.into_inner(), want)
    }
}
impl Tgt for StrictBuilder {
    const NAME: &'static str = "StrictBuilder";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        vec![
            ("create", <Self as Target>::create(), vec![]),
            ("empty", StrictBuilder::empty(), vec![]),
            ("word", StrictBuilder::word(0xff), vec![0xff]),
            ("words", StrictBuilder::words([0, 1, 2]), vec![0, 1, 2]),
            ("promote", StrictBuilder::promote(StrictBuilder::from(&[7u8, 8][..])), vec![7, 8]),
            ("from vec", StrictBuilder::from(vec![5u8; 40]), vec![5; 40]),
        ]
    }
    fn look(&self, want: &[u8]) -> Result<(), String> {
        let b: &[u8] = self.borrow();
        same("borrow", b, want)?;
        if self.len() != want.len() || self.is_empty() != want.is_empty() {
            return Err("len or is_empty".into());
        }
        Ok(())
    }
    fn end(self, want: &[u8]) -> Result<(), String> {
        let v: Vec<u8> = self.clone().into();
        same("into", &v, want)?;
        ends(self, want)
    }
}
impl Tgt for MemoBuilder {
    const NAME: &'static str = "MemoBuilder";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        vec![
            ("create", <Self as Target>::create(), vec![]),
            ("new", MemoBuilder::new(), vec![]),
            ("default", MemoBuilder::default(), vec![]),
            ("empty", MemoBuilder::empty(), vec![]),
            ("word", MemoBuilder::word(0xff), vec![0xff]),
            ("words", MemoBuilder::words([0, 1, 2]), vec![0, 1, 2]),
            ("promote", MemoBuilder::promote(vec![7, 8]), vec![7, 8]),
            ("from slice", MemoBuilder::from(&[5u8; 40][..]), vec![5; 40]),
            ("from vec", MemoBuilder::from(vec![9u8]), vec![9]),
        ]
    }
    fn look(&self, want: &[u8]) -> Result<(), String> {
        if self.len() != want.len() || self.is_empty() != want.is_empty() {
            return Err("len or is_empty".into());
        }
        Ok(())
    }
    fn end(self, want: &[u8]) -> Result<(), String> {
        let v: Vec<u8> = self.clone().into();
        same("into", &v, want)?;
        ends(self, want)
    }
}
/// A third-party target with only the required methods.
#[derive(Clone)]
struct Own(Vec<u8>);
impl Target for Own {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Own(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.0.push(b);
        1
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.0.extend(a);
        K
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.0.extend(b);
        b.len()
    }
}
impl Tgt for Own {
    const NAME: &'static str = "user-defined target";
    fn seeds() -> Vec<(&'static str, Self, Vec<u8>)> {
        vec![("create", Own(vec![]), vec![])]
    }
    fn look(&self, want: &[u8]) -> Result<(), String> {
        same("the target", &self.0, want)
    }
    fn end(self, want: &[u8]) -> Result<(), String> {
        same("the target", &self.0, want)
    }
}

fn histories<U: Tgt>(ck: &mut Ck) {
    let max = if ck.thorough() { 6 } else { 4 };
    let k = U::seeds().len();
    for depth in 0..=max {
        let total = OPS.len().pow(depth as u32);
        for seed in 0..k {
            // the deepest layer only from the first seed and the last
            if depth == max && seed != 0 && seed != k - 1 {
                continue;
            }
            for code in 0..total {
                if ck.stop() {
                    return;
                }
                let mut h = Vec::with_capacity(depth);
                let mut c = code;
                for _ in 0..depth {
                    h.push(OPS[c % OPS.len()]);
                    c /= OPS.len();
                }
                ck.st(1);
                ck.tr(depth as u64);
                ck.case(
                    || format!("{} from {}: {h:?}", U::NAME, U::seeds()[seed].0),
                    || {
                        let (_, mut u, mut model) = U::seeds().swap_remove(seed);
                        let mut f = Feed(0);
                        u.look(&model)?;
                        for &op in &h {
                            let (got, want) = apply(&mut u, op, &mut f, &mut model);
                            if got != want {
                                return Err(format!("{op:?} reported {got} bytes, given {want}"));
                            }
                            u.look(&model)?;
                        }
                        u.end(&model)
                    },
                );
            }
        }
    }
}

/// Arrays, slices and hints of every size up to 70 and around the powers of two, from every start,
/// alone, after a byte and after one another.
fn sizes<U: Tgt>(ck: &mut Ck) {
    fn arr<U: Tgt, const K: usize>(ck: &mut Ck) {
        for seed in 0..U::seeds().len() {
            for pre in 0..3usize {
                ck.st(1);
                ck.tr(3);
                ck.case(
                    || format!("{} from {}: {pre} bytes, an array of {K}, a byte, the array again", U::NAME, U::seeds()[seed].0),
                    || {
                        let (_, mut u, mut m) = U::seeds().swap_remove(seed);
                        let mut f = Feed(K as u8);
                        for _ in 0..pre {
                            apply(&mut u, Op::One, &mut f, &mut m);
                        }
                        let a = f.take::<K>();
                        for i in 0..2 {
                            let n = u.push_many(a);
                            m.extend(a);
                            if n != K {
                                return Err(format!("reported {n}"));
                            }
                            u.look(&m)?;
                            if i == 0 {
                                apply(&mut u, Op::One, &mut f, &mut m);
                            }
                        }
                        u.end(&m)
                    },
                );
            }
        }
    }
    macro_rules! arrs { ($($k:literal)*) => { $( if ck.stop() { return } arr::<U, $k>(ck); )* }; }
    arrs!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 95 96 97 100 126 127 128 129 191 192 193 254 255 256 257 300 511 512 513 1000 1023 1024 1025 4095 4096 4097 65535 65536 65537);
    let mut ns: Vec<usize> = (0..300).collect();
    for e in 9..if ck.thorough() { 25 } else { 21 } {
        ns.extend([(1usize << e) - 1, 1 << e, (1 << e) + 1, 3 << (e - 1)]);
    }
    ns.extend([1000, 10_000, 100_000]);
    for n in ns {
        for seed in 0..U::seeds().len() {
            if ck.stop() {
                return;
            }
            ck.st(1);
            ck.tr(4);
            ck.case(
                || format!("{} from {}: a slice of {n}, a byte, the slice again after a hint", U::NAME, U::seeds()[seed].0),
                || {
                    let (_, mut u, mut m) = U::seeds().swap_remove(seed);
                    let mut f = Feed(n as u8);
                    let a = f.vec(n);
                    for i in 0..2 {
                        let k = u.push_all(&a);
                        m.extend(&a);
                        if k != n {
                            return Err(format!("reported {k}"));
                        }
                        if n < 300 {
                            u.look(&m)?;
                        }
                        if i == 0 {
                            apply(&mut u, Op::One, &mut f, &mut m);
                            u.anticipate(n);
                            u.look(&m)?;
                        }
                    }
                    if n % 2 == 0 {
                        u.resolve();
                    }
                    u.look(&m)?;
                    u.end(&m)
                },
            );
        }
    }
}

/// std::io::Write on the targets that have it, mixed with pushes.
fn writers(ck: &mut Ck) {
    use std::io::Write;
    fn go<U: Tgt + Write>(ck: &mut Ck) {
        // 0 push_one, 1 write 0, 2 write 3, 3 write_all 70, 4 flush, 5 resolve, 6 write! text
        let depth = if ck.thorough() { 7 } else { 5 };
        for d in 0..=depth {
            for code in 0..7usize.pow(d) {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                ck.tr(d as u64);
                ck.case(
                    || format!("{} io::Write history {code} (base 7, depth {d})", U::NAME),
                    || {
                        let mut u = <U as Target>::create();
                        let mut m: Vec<u8> = vec![];
                        let mut f = Feed(0);
                        let mut c = code;
                        for _ in 0..d {
                            match c % 7 {
                                0 => {
                                    let b = f.take::<1>()[0];
                                    m.push(b);
                                    u.push_one(b);
                                }
                                k @ (1 | 2) => {
                                    let n = if k == 1 { 0 } else { 3 };
                                    let v = f.vec(n);
                                    m.extend(&v);
                                    match u.write(&v) {
                                        Ok(x) if x == n => {}
                                        r => return Err(format!("write of {n} bytes gave {r:?}")),
                                    }
                                }
                                3 => {
                                    let v = f.vec(70);
                                    m.extend(&v);
                                    if u.write_all(&v).is_err() {
                                        return Err("write_all failed".into());
                                    }
                                }
                                4 => {
                                    if u.flush().is_err() {
                                        return Err("flush failed".into());
                                    }
                                }
                                5 => u.resolve(),
                                _ => {
                                    m.extend(b"x=5");
                                    if write!(u, "x={}", 5).is_err() {
                                        return Err("write! failed".into());
                                    }
                                }
                            }
                            c /= 7;
                            u.look(&m)?;
                        }
                        u.end(&m)
                    },
                );
            }
        }
    }
    fn big<U: Tgt + Write>(ck: &mut Ck) {
        for n in (0..300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20]) {
            ck.st(1);
            ck.tr(3);
            ck.case(
                || format!("{}: writing {n} bytes three times", U::NAME),
                || {
                    let mut u = <U as Target>::create();
                    let v = Feed(n as u8).vec(n);
                    match u.write(&v) {
                        Ok(x) if x == n => {}
                        r => return Err(format!("write gave {r:?}")),
                    }
                    u.write_all(&v).map_err(|e| e.to_string())?;
                    std::io::copy(&mut &v[..], &mut u).map_err(|e| e.to_string())?;
                    let m = [&v[..], &v, &v].concat();
                    u.look(&m)?;
                    u.end(&m)
                },
            );
        }
    }
    big::<StrictBuilder>(ck);
    big::<MemoBuilder>(ck);
    big::<HexString>(ck);
    go::<StrictBuilder>(ck);
    go::<MemoBuilder>(ck);
    go::<HexString>(ck);
}

fn on<T: Encode, U: Tgt>(t: &T, want: &[u8]) -> Result<(), String> {
    for (name, mut u, mut model) in U::seeds() {
        let n = t.write_to(&mut u);
        if n != want.len() {
            return Err(format!("{}: write_to reported {n} of {} bytes", U::NAME, want.len()));
        }
        model.extend_from_slice(want);
        u.look(&model).map_err(|e| format!("{} ({name}): {e}", U::NAME))?;
        // a second value behind the first
        u.push_one(0xEE);
        model.push(0xEE);
        let n = t.write_to(&mut u);
        model.extend_from_slice(want);
        if n != want.len() {
            return Err(format!("{}: the second write_to reported {n} of {} bytes", U::NAME, want.len()));
        }
        u.end(&model).map_err(|e| format!("{} ({name}), written twice: {e}", U::NAME))?;
    }
    t.encode::<U>().end(want).map_err(|e| format!("encode::<{}>: {e}", U::NAME))
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(name, move |ck| {
        let s = T::sch();
        let d = if tier == Tier::Quick {
            Dom { lvl: 2, long: true, cap: 600, depth: 3 }
        } else {
            Dom { lvl: 2, long: true, cap: 20_000, depth: 4 }
        };
        let vs = vals(&s, d);
        ck.st(vs.len() as u64);
        for v in &vs {
            if ck.stop() {
                return;
            }
            ck.tr(6);
            ck.case(
                || format!("{name}: {} on every target", vshow(v)),
                || {
                    let t = T::make(v);
                    // the plainest target is the yardstick; C05 ties its content to the layout
                    let mut own = Own(vec![]);
                    let n = t.write_to(&mut own);
                    let want = own.0;
                    if n != want.len() {
                        return Err(format!("write_to reported {n} of {} bytes", want.len()));
                    }
                    same("to_bytes", &t.to_bytes(), &want)?;
                    let mut w = vec![4u8, 5];
                    t.write_to_vec(&mut w);
                    same("write_to_vec after the bytes there", &w[2..], &want)?;
                    same("write_to_vec before the new bytes", &w[..2], &[4, 5])?;
                    on::<T, Vec<u8>>(&t, &want)?;
                    on::<T, std::io::Sink>(&t, &want)?;
                    on::<T, HexString>(&t, &want)?;
                    on::<T, StrictBuilder>(&t, &want)?;
                    on::<T, MemoBuilder>(&t, &want)?;
                    on::<T, Own>(&t, &want)
                },
            );
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn main() {
    run(
        Spec {
            prop: "C09",
            explanation: "states = (target, start, history) triples and (type, value) pairs; a transition = one push, hint, mark or write on a real target, after which its content, length and reported count are compared with the concatenation of what was pushed. All histories over 15 operations to depth 4 (6) from the first and last constructor (one less from the others), all io::Write histories over 7 operations to depth 5 (7), arrays and slices of every size up to 70 and around the powers of two up to 2^20 (2^24), and every catalogue value on six targets, each fresh, prefilled and written twice.",
            assumptions: &["the allocator serves the size hints given"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let mut v = V(vec![], tier);
            v.0.push(section("histories Vec", histories::<Vec<u8>>));
            v.0.push(section("histories ByteCounter", histories::<std::io::Sink>));
            v.0.push(section("histories HexString", histories::<HexString>));
            v.0.push(section("histories StrictBuilder", histories::<StrictBuilder>));
            v.0.push(section("histories MemoBuilder", histories::<MemoBuilder>));
            v.0.push(section("histories of a user-defined target", histories::<Own>));
            v.0.push(section("sizes Vec<u8>", sizes::<Vec<u8>>));
            v.0.push(section("sizes std::io::Sink", sizes::<std::io::Sink>));
            v.0.push(section("sizes HexString", sizes::<HexString>));
            v.0.push(section("sizes StrictBuilder", sizes::<StrictBuilder>));
            v.0.push(section("sizes MemoBuilder", sizes::<MemoBuilder>));
            v.0.push(section("sizes Own", sizes::<Own>));
            v.0.push(section("io::Write histories", writers));
            catalog::all(&mut v);
            v.0
        },
    )
}
