//! C16: segmented output: splitting marks boundaries and never alters the bytes.
use mcheck::catalog::Visitor;
use mcheck::*;
use std::fmt::Debug;
use tedium::builder::memo::MemoBuffer;
use tedium::internal::SplitVec;
use tedium::*;

/// The reference: finished segments, and the one being written, if any.
#[derive(Clone, Default, Debug, PartialEq)]
struct M {
    done: Vec<Vec<u8>>,
    cur: Option<Vec<u8>>,
}
impl M {
    fn push(&mut self, b: &[u8]) {
        self.cur.get_or_insert(vec![]).extend(b);
    }
    fn split(&mut self) {
        if let Some(c) = self.cur.take() {
            self.done.push(c);
        }
    }
    fn force(&mut self) {
        let c = self.cur.take().unwrap_or_default();
        self.done.push(c);
    }
    fn join(&mut self, o: &M) {
        self.split();
        self.done.extend(o.done.iter().cloned());
        self.cur = o.cur.clone();
    }
    fn segs(&self) -> Vec<Vec<u8>> {
        self.done.iter().chain(self.cur.iter()).cloned().collect()
    }
    fn bytes(&self) -> Vec<u8> {
        self.segs().concat()
    }
}

trait Elem: Clone + Debug + PartialEq + Eq + std::hash::Hash + PartialOrd + 'static {
    fn of(b: u8) -> Self;
    fn b(&self) -> u8;
}
impl Elem for u8 {
    fn of(b: u8) -> Self {
        b
    }
    fn b(&self) -> u8 {
        *self
    }
}
impl Elem for Box<u8> {
    fn of(b: u8) -> Self {
        Box::new(b)
    }
    fn b(&self) -> u8 {
        **self
    }
}
fn es<E: Elem>(b: &[u8]) -> Vec<E> {
    b.iter().map(|x| E::of(*x)).collect()
}
fn bs<E: Elem>(e: &[E]) -> Vec<u8> {
    e.iter().map(Elem::b).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push,
    Extend(usize),
    Slice(usize),
    Append(usize),
    Split,
    Force,
    Cleave,
    /// joins one of a few other buffers
    Concat(usize),
    Spans(&'static [usize]),
    Clone,
}

/// Buffers to join: segments given by their lengths, and whether the last one is still open.
const OTHERS: [(&[usize], bool); 8] = [(&[], false), (&[0], true), (&[0], false), (&[1], true), (&[2], false), (&[1, 2], true), (&[2, 0, 1], false), (&[0, 0], true)];

fn other<E: Elem>(k: usize, base: u8) -> (SplitVec<E>, M) {
    let (lens, open) = OTHERS[k];
    let mut s = SplitVec::new();
    let mut m = M::default();
    let mut n = base;
    for (i, l) in lens.iter().enumerate() {
        let b: Vec<u8> = (0..*l as u8).map(|x| n + x).collect();
        n += *l as u8;
        s.extend_current_from_slice(&es::<E>(&b));
        m.push(&b);
        if i + 1 < lens.len() || !open {
            s.split();
            m.split();
        }
    }
    (s, m)
}

fn apply<E: Elem>(s: &mut SplitVec<E>, m: &mut M, op: Op, base: u8) -> Result<(), String> {
    let by = |n: usize| -> Vec<u8> { (0..n as u8).map(|x| base + x).collect() };
    match op {
        Op::Push => {
            s.push_current(E::of(base));
            m.push(&[base]);
        }
        Op::Extend(n) => {
            s.extend_current(es::<E>(&by(n)));
            m.push(&by(n));
        }
        Op::Slice(n) => {
            s.extend_current_from_slice(&es::<E>(&by(n)));
            m.push(&by(n));
        }
        Op::Append(n) => {
            let mut v = es::<E>(&by(n));
            s.append_current(&mut v);
            m.push(&by(n));
            if !v.is_empty() {
                return Err("the appended vector is not left empty".into());
            }
        }
        Op::Split => {
            s.split();
            m.split();
        }
        Op::Force => {
            s.split_force();
            m.force();
        }
        Op::Cleave => {
            s.cleave();
            m.split();
            m.force();
        }
        Op::Concat(k) => {
            let (mut o, n) = other::<E>(k, base);
            s.concat(&mut o);
            m.join(&n);
            if !o.is_empty() || o.len() != 0 || o.spans().next().is_some() || !o.is_balanced() {
                return Err("the joined buffer is not left empty".into());
            }
            // it can be used again
            o.push_current(E::of(1));
            if o.spans().map(bs).collect::<Vec<_>>() != [[1]] || !o.is_balanced() {
                return Err("the joined buffer is not usable any more".into());
            }
        }
        Op::Spans(lens) => {
            let mut n = 0;
            let sp: Vec<Vec<u8>> = lens
                .iter()
                .map(|l| {
                    n += l;
                    by(n)[n - l..].to_vec()
                })
                .collect();
            s.extend(sp.iter().map(|b| es::<E>(b)));
            for b in &sp {
                m.split();
                m.push(b);
            }
            m.split();
        }
        Op::Clone => {
            let c = s.clone();
            if c != *s {
                return Err("a clone differs".into());
            }
            *s = c;
        }
    }
    Ok(())
}

fn shown(text: &str) -> Option<Vec<Vec<u8>>> {
    let t = text.strip_prefix("[|")?.strip_suffix("]")?;
    let mut v: Vec<Vec<u8>> = vec![];
    if t.is_empty() {
        return Some(v);
    }
    for part in t.strip_suffix('|')?.split('|') {
        if part.len() % 2 != 0 || !part.is_ascii() {
            return None;
        }
        v.push((0..part.len() / 2).map(|i| u8::from_str_radix(&part[2 * i..2 * i + 2], 16)).collect::<Result<_, _>>().ok()?);
    }
    Some(v)
}

fn observe<E: Elem>(s: &SplitVec<E>, m: &M) -> Result<(), String> {
    let (segs, bytes) = (m.segs(), m.bytes());
    let say = |v: &Vec<Vec<u8>>| format!("{v:x?}");
    let fwd: Vec<Vec<u8>> = s.spans().map(bs).collect();
    if fwd != segs {
        return Err(format!("segments {}, expected {}", say(&fwd), say(&segs)));
    }
    let mut bwd: Vec<Vec<u8>> = s.spans().rev().map(bs).collect();
    bwd.reverse();
    if bwd != segs {
        return Err(format!("segments from the back {}, expected {}", say(&bwd), say(&segs)));
    }
    // both ends at once, in every order for few segments, else two orders
    let n = segs.len();
    let orders: Vec<u32> = if n <= 4 { (0..1 << n).collect() } else { vec![0x5555_5555, 0x3333_3333] };
    for o in orders {
        let mut it = s.spans();
        let (mut i, mut j) = (0, n);
        for k in 0..n {
            let (g, w) = if o >> (k % 32) & 1 == 0 {
                i += 1;
                (it.next(), &segs[i - 1])
            } else {
                j -= 1;
                (it.next_back(), &segs[j])
            };
            if g.map(bs).as_ref() != Some(w) {
                return Err(format!("taking segments from both ends gave {g:?}, expected {w:x?}"));
            }
        }
        if it.next().is_some() || it.next_back().is_some() {
            return Err("more segments than there are".into());
        }
    }
    // leaps from either end, after some segments were taken, and what is left afterwards
    let far = n <= 6;
    for f in 0..=if far { n.min(2) } else { 1 } {
        for b in 0..=if far { (n - f).min(1) } else { 0 } {
            for k in if far { (0..=n + 1).collect::<Vec<_>>() } else { vec![0, 1, 2, 7, n - 1, n] } {
                for back in [false, true] {
                    let mut it = s.spans();
                    for _ in 0..f {
                        it.next();
                    }
                    for _ in 0..b {
                        it.next_back();
                    }
                    let (mut lo, mut hi) = (f, n - b);
                    let (l, h) = it.size_hint();
                    if l > hi - lo || h.map_or(false, |h| h < hi - lo) {
                        return Err(format!("{} segments are left, the size hint is {l}, {h:?}", hi - lo));
                    }
                    let (g, w) = if hi - lo <= k {
                        let g = if back { it.nth_back(k) } else { it.nth(k) };
                        lo = hi;
                        (g, None)
                    } else if back {
                        hi -= k + 1;
                        (it.nth_back(k), Some(&segs[hi]))
                    } else {
                        lo += k + 1;
                        (it.nth(k), Some(&segs[lo - 1]))
                    };
                    if g.map(bs).as_ref() != w {
                        return Err(format!("leaping over {k} segments (from the back: {back}) gave {g:?}, expected {w:x?}"));
                    }
                    let rest: Vec<Vec<u8>> = it.map(bs).collect();
                    if rest != segs[lo..hi] {
                        return Err(format!("after leaping over {k} segments (from the back: {back}) {} are left, expected {:x?}", say(&rest), &segs[lo..hi]));
                    }
                }
            }
        }
    }
    if s.spans().count() != n || s.spans().last().map(bs).as_ref() != segs.last() {
        return Err(format!("{} segments counted, the last is {:?}, of {}", s.spans().count(), s.spans().last(), say(&segs)));
    }
    if s.spans().fold(0, |a, x| a + x.len()) != bytes.len() || s.spans().rfold(0, |a, x| a + x.len()) != bytes.len() {
        return Err("folding over the segments".into());
    }
    if s.len() != bytes.len() || bs(s.as_ref()) != bytes || bs(&s.clone().into_inner()) != bytes || bs(&Vec::from(s.clone())) != bytes {
        return Err(format!("content {}, expected {}", hexs(&bs(s.as_ref())), hexs(&bytes)));
    }
    let (b, l) = s.clone().into_parts();
    if bs(&b) != bytes || l != segs.iter().map(Vec::len).collect::<Vec<_>>() {
        return Err(format!("parts {:x?} {l:?}", bs(&b)));
    }
    if !s.is_balanced() {
        return Err("not balanced".into());
    }
    if s.is_empty() != (bytes.is_empty() && segs.is_empty()) || s.is_contiguous() != (segs.len() <= 1) {
        return Err(format!("empty: {}, contiguous: {}", s.is_empty(), s.is_contiguous()));
    }
    if s.clone() != *s {
        return Err("not equal to its clone".into());
    }
    let _ = format!("{s:?}");
    Ok(())
}

fn starts<E: Elem>() -> Vec<(&'static str, SplitVec<E>, M)> {
    let m = |l: &[&[u8]], open: bool| {
        let mut m = M::default();
        for (i, s) in l.iter().enumerate() {
            m.push(s);
            if !open || i + 1 < l.len() {
                m.split();
            }
        }
        m
    };
    vec![
        ("new", SplitVec::new(), m(&[], false)),
        ("from_vec of nothing", SplitVec::from_vec(vec![]), m(&[&[]], true)),
        ("from_vec of one", SplitVec::from_vec(es(&[0xa0])), m(&[&[0xa0]], true)),
        ("from a vector of two", SplitVec::from(es::<E>(&[0xa0, 0xa1])), m(&[&[0xa0, 0xa1]], true)),
        ("collected from no segments", Vec::<Vec<E>>::new().into_iter().collect(), m(&[], false)),
        ("collected from segments", vec![es::<E>(&[0xa0]), vec![], es(&[0xa1, 0xa2])].into_iter().collect(), m(&[&[0xa0], &[], &[0xa1, 0xa2]], false)),
    ]
}

fn ops() -> Vec<Op> {
    let mut v = vec![Op::Push, Op::Split, Op::Force, Op::Cleave, Op::Clone];
    for n in 0..3 {
        v.extend([Op::Extend(n), Op::Slice(n), Op::Append(n)]);
    }
    v.extend((0..OTHERS.len()).map(Op::Concat));
    v.extend([Op::Spans(&[]), Op::Spans(&[0]), Op::Spans(&[1]), Op::Spans(&[2, 0, 1])]);
    v
}

fn splitvecs<E: Elem>(which: usize, depth: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let (name, s, m) = starts::<E>().remove(which);
        let all = ops();
        ck.case(|| name.into(), || observe(&s, &m));
        let mut h = vec![];
        rec(ck, name, &s, &m, &all, &mut h, depth);
    }
}
fn rec<E: Elem>(ck: &mut Ck, name: &str, s: &SplitVec<E>, m: &M, all: &[Op], h: &mut Vec<Op>, depth: usize) {
    if depth == 0 {
        return;
    }
    for op in all {
        if ck.stop() {
            return;
        }
        h.push(*op);
        ck.st(1);
        ck.tr(1);
        let mut next = None;
        let ok = ck.case(
            || format!("SplitVec {name}: {h:?}"),
            || {
                let (mut t, mut n) = (s.clone(), m.clone());
                apply(&mut t, &mut n, *op, 0x10 * h.len() as u8)?;
                observe(&t, &n)?;
                next = Some((t, n));
                Ok(())
            },
        );
        if let (true, Some((t, n))) = (ok, next) {
            rec(ck, name, &t, &n, all, h, depth - 1);
        }
        h.pop();
    }
}

// ---- the builder ----

#[derive(Clone, Copy, Debug)]
enum B {
    One,
    Many(usize),
    All(usize),
    Resolve,
    ResolveZero,
    Write(usize),
    Flush,
    Hint(usize),
    Byte(u8),
}
fn bapply(s: &mut MemoBuilder, m: &mut M, op: B, base: u8) -> Result<(), String> {
    use std::io::Write;
    let by = |n: usize| -> Vec<u8> { (0..n as u8).map(|x| base.wrapping_add(x)).collect() };
    let (n, want) = match op {
        B::One => (s.push_one(base), by(1)),
        B::Byte(b) => (s.push_one(b), vec![b]),
        B::Many(0) => (s.push_many([]), vec![]),
        B::Many(1) => (s.push_many([base]), by(1)),
        B::Many(_) => (s.push_many([base, base.wrapping_add(1), base.wrapping_add(2)]), by(3)),
        B::All(k) => (s.push_all(&by(k)), by(k)),
        B::Write(k) => (s.write(&by(k)).map_err(|e| e.to_string())?, by(k)),
        B::Resolve => {
            s.resolve();
            m.split();
            return Ok(());
        }
        B::ResolveZero => {
            if s.resolve_zero() != 0 {
                return Err("resolve_zero is not zero".into());
            }
            m.split();
            return Ok(());
        }
        B::Flush => {
            s.flush().map_err(|e| e.to_string())?;
            m.split();
            return Ok(());
        }
        B::Hint(k) => {
            s.anticipate(k);
            return Ok(());
        }
    };
    if n != want.len() {
        return Err(format!("reported {n} bytes"));
    }
    m.push(&want);
    Ok(())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn lens_of(debug: &str) -> Option<Vec<usize>> {
    let t = debug.split("lens: [").nth(1)?.split(']').next()?;
    t.split(',').map(str::trim).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}
fn bobserve(s: &MemoBuilder, m: &M) -> Result<(), String> {
    let (segs, bytes) = (m.segs(), m.bytes());
    let g = shown(&s.to_string());
    if g.as_ref() != Some(&segs) {
        return Err(format!("shown as {s}, expected {segs:x?}"));
    }
    if s.len() != bytes.len() || s.is_empty() != bytes.is_empty() {
        return Err(format!("length {}", s.len()));
    }
    if s.clone().into_vec() != bytes || Vec::from(s.clone()) != bytes || s.clone().into_hex() != hex(&bytes) {
        return Err(format!("content {}", s.clone().into_hex()));
    }
    if s.clone().into_bin().ok() != String::from_utf8(bytes.clone()).ok() {
        return Err("text content".into());
    }
    let f: MemoBuffer = s.clone().finalize();
    let d = format!("{f:?}");
    if lens_of(&d) != Some(segs.iter().map(Vec::len).collect()) {
        return Err(format!("finalized as {d}, expected segments {segs:x?}"));
    }
    let t = f.to_string();
    if !t.starts_with("[|") || !t.ends_with(']') || t.chars().any(|c| !c.is_ascii_hexdigit() && !"[]| ".contains(c)) {
        return Err(format!("finalized, shown as {t}"));
    }
    let t: String = t.chars().filter(char::is_ascii_hexdigit).collect();
    if t != hex(&bytes) || f != s.clone().finalize() || Vec::<u8>::from(f) != bytes {
        return Err(format!("finalized as {t}"));
    }
    if s.clone() != *s {
        return Err("not equal to its clone".into());
    }
    Ok(())
}
fn bstarts() -> Vec<(&'static str, MemoBuilder, M)> {
    let one = |b: &[u8]| M { done: vec![], cur: Some(b.to_vec()) };
    vec![
        ("new", MemoBuilder::new(), M::default()),
        ("create", MemoBuilder::create(), M::default()),
        ("default", MemoBuilder::default(), M::default()),
        ("word", MemoBuilder::word(0xa5), one(&[0xa5])),
        ("words", MemoBuilder::words([0xa5, 1]), one(&[0xa5, 1])),
        ("promote", MemoBuilder::promote(vec![1, 2, 3]), one(&[1, 2, 3])),
        ("from a slice", MemoBuilder::from(&[9u8, 8][..]), one(&[9, 8])),
        ("from a vector", MemoBuilder::from(vec![9u8]), one(&[9])),
    ]
}
fn builders(which: usize, depth: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let (name, s, m) = bstarts().remove(which);
        let mut all = vec![B::One, B::Byte(0xff), B::Resolve, B::ResolveZero, B::Flush, B::Hint(0), B::Hint(100)];
        for n in [0, 1, 3] {
            all.extend([B::Many(n), B::All(n), B::Write(n)]);
        }
        ck.case(|| name.into(), || bobserve(&s, &m));
        let mut h = vec![];
        brec(ck, name, &s, &m, &all, &mut h, depth);
    }
}
fn brec(ck: &mut Ck, name: &str, s: &MemoBuilder, m: &M, all: &[B], h: &mut Vec<B>, depth: usize) {
    if depth == 0 {
        return;
    }
    for op in all {
        if ck.stop() {
            return;
        }
        h.push(*op);
        ck.st(1);
        ck.tr(1);
        let mut next = None;
        let ok = ck.case(
            || format!("MemoBuilder {name}: {h:?}"),
            || {
                let (mut t, mut n) = (s.clone(), m.clone());
                bapply(&mut t, &mut n, *op, 0x10 * h.len() as u8)?;
                bobserve(&t, &n)?;
                next = Some((t, n));
                Ok(())
            },
        );
        if let (true, Some((t, n))) = (ok, next) {
            brec(ck, name, &t, &n, all, h, depth - 1);
        }
        h.pop();
    }
}

/// `MemoBuilder::empty` makes either no segment or an empty one; both are empty builders.
fn empties(ck: &mut Ck) {
    ck.case(
        || "empty".into(),
        || {
            let e = MemoBuilder::empty();
            if !e.is_empty() || e.len() != 0 || shown(&e.to_string()).map(|v| v.concat()) != Some(vec![]) || !e.into_vec().is_empty() {
                return Err("not empty".into());
            }
            Ok(())
        },
    );
}

/// Long contents and many segments.
fn big(ck: &mut Ck) {
    let shapes = [1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000].iter().flat_map(|n| [0usize, 1, 3, 300].map(|e| (*n, e)));
    let huge = [(5usize, 4095usize), (5, 4096), (5, 4097), (3, 65535), (3, 65536), (3, 65537), (1, 1 << 20), (4096, 1), (4097, 0), (65535, 1), (65537, 1)];
    for (n, each) in shapes.chain(huge) {
        {
            ck.st(1);
            ck.tr(n as u64);
            ck.case(
                || format!("{n} segments of {each}"),
                || {
                    let mut s = SplitVec::<u8>::new();
                    let mut b = MemoBuilder::new();
                    let mut m = M::default();
                    for i in 0..n {
                        let d: Vec<u8> = (0..each).map(|k| (k * 7 + i) as u8).collect();
                        s.extend_current_from_slice(&d);
                        s.split();
                        s.split();
                        b.push_all(&d);
                        b.resolve();
                        b.resolve();
                        m.push(&d);
                        m.split();
                    }
                    observe(&s, &m)?;
                    bobserve(&b, &m)?;
                    let mut t = s.clone();
                    let mut u = s.clone();
                    t.concat(&mut u);
                    let mut mm = m.clone();
                    mm.join(&m);
                    observe(&t, &mm)
                },
            );
        }
    }
}

/// A target that records what an encoder does; the segments of the builder must be those pieces.
#[derive(Default)]
struct Rec(M);
impl Target for Rec {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Rec::default()
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.0.push(&[b]);
        1
    }
    fn push_many<const K: usize>(&mut self, a: [u8; K]) -> usize {
        self.0.push(&a);
        K
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.0.push(b);
        b.len()
    }
    fn resolve(&mut self) {
        self.0.split()
    }
}
impl std::io::Write for Rec {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.push(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.split();
        Ok(())
    }
}

struct V(Vec<Section>, Tier);
fn add<T: Reflect>(v: &mut V, name: &'static str) {
    let tier = v.1;
    v.0.push(section(format!("encoding {name}"), move |ck| {
        let d = if tier == Tier::Quick { Dom { lvl: 2, long: true, cap: 600, depth: 3 } } else { Dom { lvl: 2, long: true, cap: 20_000, depth: 4 } };
        for v in &vals(&T::sch(), d) {
            if ck.stop() {
                return;
            }
            ck.st(1);
            ck.tr(2);
            ck.case(
                || format!("{name}: segments of {}", vshow(v)),
                || {
                    let t = T::make(v);
                    let mut r = Rec::default();
                    t.write_to(&mut r);
                    bobserve(&t.encode::<MemoBuilder>(), &r.0)?;
                    let mut b = MemoBuilder::promote(vec![1, 2]);
                    let mut r = Rec(M { done: vec![], cur: Some(vec![1, 2]) });
                    t.write_to(&mut b);
                    t.write_to(&mut r);
                    t.write_to(&mut b);
                    t.write_to(&mut r);
                    bobserve(&b, &r.0)
                },
            );
        }
    }));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + Debug>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        add::<T>(self, name)
    }
}

fn main() {
    run(
        Spec {
            prop: "C16",
            explanation: "states = operation histories; a transition = one operation on the real SplitVec or MemoBuilder, after which its content, length, segments (forwards, backwards and from both ends in every order), parts, hex and textual forms are compared with a list of byte lists. All histories over 26 SplitVec operations (pushes, three bulk appends of 0 to 2, split, forced split, cleave, joining 8 other buffers, appending segment lists, cloning) to depth 4 (thorough 5) from six starts, for bytes, and to depth 3 (4) for boxed elements; all histories over 16 builder operations to depth 4 (5) from eight starts; many and long segments; and for every catalogue value the builder's segments against the pushes and marks its encoder makes.",
            assumptions: &["the textual form of a segmented buffer is [|seg|seg|] in hex"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], tier);
            for i in 0..6 {
                v.0.push(section(format!("SplitVec<u8> histories, start {i}"), splitvecs::<u8>(i, if th { 5 } else { 4 })));
                v.0.push(section(format!("SplitVec<Box> histories, start {i}"), splitvecs::<Box<u8>>(i, if th { 4 } else { 3 })));
            }
            for i in 0..8 {
                v.0.push(section(format!("MemoBuilder histories, start {i}"), builders(i, if th { 5 } else { 4 })));
            }
            v.0.push(section("empty builders", empties));
            v.0.push(section("many and long segments", big));
            catalog::all(&mut v);
            v.0
        },
    )
}
