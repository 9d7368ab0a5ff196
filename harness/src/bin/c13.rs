//! C13: bounded sequences respect their element-count bound under every operation.
use mcheck::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use tedium::conv::target::Target;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::ParseResult;
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

thread_local! {
    static LIVE: RefCell<BTreeSet<u64>> = RefCell::new(BTreeSet::new());
    static NEXT: Cell<u64> = Cell::new(0);
    static BAD: Cell<bool> = Cell::new(false);
}
fn fresh() -> u64 {
    NEXT.with(|n| n.set(n.get() + 1));
    let id = NEXT.with(Cell::get);
    LIVE.with(|l| l.borrow_mut().insert(id));
    id
}
/// Element that notices lost, duplicated and made-up elements: each instance is registered while alive.
#[derive(Debug)]
struct El {
    v: u16,
    id: u64,
}
impl El {
    fn new(v: u16) -> Self {
        El { v, id: fresh() }
    }
}
impl Drop for El {
    fn drop(&mut self) {
        if !LIVE.with(|l| l.borrow_mut().remove(&self.id)) {
            BAD.with(|b| b.set(true));
        }
    }
}
impl Clone for El {
    fn clone(&self) -> Self {
        El::new(self.v)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.v == o.v
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> {
        Some(self.v.cmp(&o.v))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for El {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl Encode for El {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.v.write_to(buf)
    }
}
/// values from 0xff00 on are not valid elements
impl Decode for El {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let v = u16::parse(p)?;
        if v >= 0xff00 {
            return Err(tedium::error::LengthError::TooLong { limit: 0, actual: 0 }.into());
        }
        Ok(El::new(v))
    }
}
impl FixedLength for El {
    const LEN: usize = 2;
}

/// An iterator over new elements whose size hint is right, unknown, too high or too low, and which
/// can be told to panic.
struct It {
    next: u16,
    left: usize,
    hint: u8,
    boom: Option<usize>,
}
impl Iterator for It {
    type Item = El;
    fn next(&mut self) -> Option<El> {
        if self.left == 0 {
            return None;
        }
        if self.boom == Some(0) {
            panic!("iterator");
        }
        if let Some(b) = &mut self.boom {
            *b -= 1;
        }
        if self.left < INFINITE {
            self.left -= 1;
        }
        self.next += 1;
        Some(El::new(self.next - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 if self.left < INFINITE => (self.left, Some(self.left)),
            0 => (usize::MAX, None),
            1 => (0, None),
            2 => (self.left.min(1000) + 5, None),
            _ => (0, Some(0)),
        }
    }
}
const INFINITE: usize = 1 << 30;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Lim,
    Fix,
    Any,
}

trait Bs: Clone + Eq + PartialOrd + std::fmt::Debug + std::hash::Hash + std::ops::DerefMut<Target = [El]> + Default + Encode + Decode + FromIterator<El> + Extend<El> + IntoIterator<Item = El> {
    const KIND: Kind;
    const LIM: usize;
    fn new_() -> Self;
    fn from_vec_(v: Vec<El>) -> Self;
    fn unchecked_(v: Vec<El>) -> Self;
    fn slice_(v: &[El]) -> Result<Self, ()>;
    fn vec_(v: Vec<El>) -> Result<Self, ()>;
    fn into_vec_(self) -> Vec<El>;
    fn into_vec2_(self) -> Vec<El>;
    fn refs(&self) -> Vec<u16>;
    fn est(&self) -> usize;
}
impl<const K: usize> Bs for LimSeq<El, K> {
    const KIND: Kind = Kind::Lim;
    const LIM: usize = K;
    fn new_() -> Self {
        Self::new()
    }
    fn from_vec_(v: Vec<El>) -> Self {
        Self::from_vec(v)
    }
    fn unchecked_(v: Vec<El>) -> Self {
        unsafe { Self::from_vec_unchecked(v) }
    }
    fn slice_(v: &[El]) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn vec_(v: Vec<El>) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn into_vec_(self) -> Vec<El> {
        self.into_vec()
    }
    fn into_vec2_(self) -> Vec<El> {
        Vec::from(self)
    }
    fn refs(&self) -> Vec<u16> {
        self.into_iter().map(|e: &El| e.v).collect()
    }
    fn est(&self) -> usize {
        Estimable::estimate(self)
    }
}
impl<const K: usize> Bs for FixSeq<El, K> {
    const KIND: Kind = Kind::Fix;
    const LIM: usize = K;
    fn new_() -> Self {
        Self::new()
    }
    fn from_vec_(v: Vec<El>) -> Self {
        Self::try_from(v).unwrap()
    }
    fn unchecked_(v: Vec<El>) -> Self {
        Self::try_from(v).unwrap()
    }
    fn slice_(v: &[El]) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn vec_(v: Vec<El>) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn into_vec_(self) -> Vec<El> {
        Vec::from(self)
    }
    fn into_vec2_(self) -> Vec<El> {
        self.into_iter().collect()
    }
    fn refs(&self) -> Vec<u16> {
        self.into_iter().map(|e: &El| e.v).collect()
    }
    fn est(&self) -> usize {
        Estimable::estimate(self)
    }
}
impl Bs for Sequence<El> {
    const KIND: Kind = Kind::Any;
    const LIM: usize = usize::MAX;
    fn new_() -> Self {
        Self::new()
    }
    fn from_vec_(v: Vec<El>) -> Self {
        Self::from_vec(v)
    }
    fn unchecked_(v: Vec<El>) -> Self {
        Self::from(v)
    }
    fn slice_(v: &[El]) -> Result<Self, ()> {
        Ok(Self::from_vec(v.to_vec()))
    }
    fn vec_(v: Vec<El>) -> Result<Self, ()> {
        Ok(Self::from(v))
    }
    fn into_vec_(self) -> Vec<El> {
        self.into_inner()
    }
    fn into_vec2_(self) -> Vec<El> {
        Vec::from(self)
    }
    fn refs(&self) -> Vec<u16> {
        let a: Vec<u16> = self.into_iter().map(|e: &El| e.v).collect();
        let b: Vec<u16> = self.as_slice().iter().map(|e| e.v).collect();
        let c: Vec<u16> = (0..self.len()).map(|i| self[i].v).collect();
        let d: Vec<u16> = AsRef::<[El]>::as_ref(self).iter().map(|e| e.v).collect();
        assert!(a == b && b == c && c == d && self[..].len() == a.len());
        a
    }
    fn est(&self) -> usize {
        Estimable::estimate(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New,
    Default,
    FromVec(usize),
    Unchecked(usize),
    TrySlice(usize),
    TryVec(usize),
    /// elements, size hint behaviour, panic after that many
    Collect(usize, u8, Option<usize>),
    /// elements in the input, bytes of a further partial element, index of an invalid element, parser
    Decode(usize, usize, Option<usize>, bool),
    Extend(usize, u8, Option<usize>),
    Set(usize),
    Reverse,
    Clone,
    IntoVec(bool),
    IntoIter,
    HalfIter,
    EncDec,
    Take,
}

fn names(x: &[u16]) -> String {
    format!("{x:x?}")
}

/// Applies one operation to the real value and to the model; None means the value is gone.
fn step<S: Bs>(s: Option<S>, m: Vec<u16>, op: Op, base: u16) -> Result<(Option<S>, Vec<u16>), String> {
    let lim = S::LIM;
    let els = |k: usize| -> Vec<El> { (0..k).map(|i| El::new(base + i as u16)).collect() };
    let want: Vec<u16> = match op {
        Op::FromVec(k) | Op::Unchecked(k) | Op::TrySlice(k) | Op::TryVec(k) | Op::Collect(k, ..) | Op::Extend(k, ..) | Op::Decode(k, ..) => (0..k.min(lim.saturating_add(70).min(2000)) as u16).map(|i| base + i).collect(),
        _ => vec![],
    };
    // a construction that may be refused
    let made = |r: Result<Option<S>, String>, ok: bool, may_panic: bool, m: Vec<u16>| -> Result<(Option<S>, Vec<u16>), String> {
        match (r, ok) {
            (Ok(Some(s)), true) => Ok((Some(s), m)),
            (Ok(Some(s)), false) => Err(format!("accepted as {}", names(&s.refs()))),
            (Ok(None), true) => Err("refused".into()),
            (Err(p), true) => Err(format!("panicked: {p}")),
            (Ok(None), false) => Ok((None, vec![])),
            (Err(p), false) if !may_panic => Err(format!("panicked: {p}")),
            (Err(_), false) => Ok((None, vec![])),
        }
    };
    match op {
        Op::New => Ok((Some(S::new_()), vec![])),
        Op::Default => Ok((Some(S::default()), vec![])),
        Op::FromVec(k) => made(quiet(|| Some(S::from_vec_(els(k)))), k <= lim, true, want),
        Op::Unchecked(k) => made(quiet(|| Some(S::unchecked_(els(k)))), true, true, want),
        Op::TrySlice(k) if S::KIND == Kind::Fix && k < lim => {
            let e = els(k);
            match quiet(|| S::slice_(&e)) {
                Ok(Ok(s)) => Ok((Some(s), want)),
                Ok(Err(())) => Ok((None, vec![])),
                Err(p) => Err(format!("panicked: {p}")),
            }
        }
        Op::TrySlice(k) => {
            let e = els(k);
            made(quiet(|| S::slice_(&e).ok()), k <= lim, false, want)
        }
        Op::TryVec(k) => made(quiet(|| S::vec_(els(k)).ok()), k <= lim, false, want),
        Op::Collect(k, hint, boom) => {
            let it = It { next: base, left: k, hint, boom };
            let r = quiet(|| Some(S::from_iter(it)));
            match boom {
                None => made(r, k <= lim, true, want),
                Some(b) => match r {
                    Err(_) if k > lim || b < k => Ok((None, vec![])),
                    Ok(Some(s)) if k <= lim && b >= k => Ok((Some(s), want)),
                    Err(p) => Err(format!("panicked: {p}")),
                    Ok(s) => Err(format!("gave {s:?}")),
                },
            }
        }
        Op::Decode(k, part, bad, slice) => {
            let mut by = vec![];
            for i in 0..k {
                let v = if bad == Some(i) { 0xff00 | i as u16 } else { base + i as u16 };
                by.extend(v.to_be_bytes());
            }
            by.extend(&[9u8][..part]);
            let mut left = 0;
            let r = quiet(|| {
                if slice {
                    let mut p = SliceParser::from_buffer(SliceBuffer::new(&by));
                    let r = S::parse(&mut p).ok();
                    left = p.remainder();
                    r
                } else {
                    let mut p = ByteParser::from_buffer(VecBuffer::from(by.as_slice()));
                    let r = S::parse(&mut p).ok();
                    left = p.remainder();
                    r
                }
            });
            let (ok, n) = match S::KIND {
                Kind::Fix => (k >= lim && bad.map_or(true, |b| b >= lim), lim.min(k)),
                _ => (k <= lim && part == 0 && bad.is_none(), k),
            };
            let r = made(r, ok, false, want[..n].to_vec())?;
            if ok && left != 2 * k + part - 2 * n {
                return Err(format!("{left} bytes left after decoding"));
            }
            Ok(r)
        }
        Op::Extend(k, hint, boom) => {
            let mut s = s.ok_or("no value")?;
            let it = It { next: base, left: k, hint, boom };
            let room = lim.saturating_sub(m.len());
            let r = quiet(|| s.extend(it));
            let all: Vec<u16> = m.iter().chain(want.iter()).copied().collect();
            let now = s.refs();
            let clean = k <= room && m.len() <= lim;
            match (r, boom) {
                (Ok(()), b) if clean && b.map_or(true, |b| b >= k) => {
                    if now != all {
                        return Err(format!("holds {}, expected {}", names(&now), names(&all)));
                    }
                    Ok((Some(s), all))
                }
                (Ok(()), _) => Err(format!("accepted, holds {}", names(&now))),
                (Err(p), None) if clean => Err(format!("panicked: {p}")),
                (Err(p), Some(b)) if clean && b >= k => Err(format!("panicked: {p}")),
                (Err(_), _) => {
                    // stopped half way: a prefix of what it would be, never more than the bound
                    if now.len() < m.len() || now.len() > lim.max(m.len()) || !all.starts_with(&now) {
                        return Err(format!("after the refused extension it holds {}, before it held {}", names(&now), names(&m)));
                    }
                    Ok((Some(s), now))
                }
            }
        }
        Op::Set(i) => {
            let mut s = s.ok_or("no value")?;
            let mut m = m;
            if i < m.len() {
                s[i] = El::new(base);
                m[i] = base;
            }
            Ok((Some(s), m))
        }
        Op::Reverse => {
            let mut s = s.ok_or("no value")?;
            let mut m = m;
            s.reverse();
            m.reverse();
            Ok((Some(s), m))
        }
        Op::Clone => {
            let s = s.ok_or("no value")?;
            let t = s.clone();
            if t != s {
                return Err("a clone is not equal to its original".into());
            }
            drop(s);
            Ok((Some(t), m))
        }
        Op::IntoVec(other) => {
            let s = s.ok_or("no value")?;
            let v = if other { s.into_vec2_() } else { s.into_vec_() };
            if v.iter().map(|e| e.v).collect::<Vec<_>>() != m {
                return Err("into a vector".into());
            }
            let fits = m.len() <= lim;
            made(quiet(|| S::vec_(v).ok()), fits, false, m)
        }
        Op::IntoIter => {
            let s = s.ok_or("no value")?;
            let fits = m.len() <= lim;
            made(quiet(|| Some(s.into_iter().collect::<S>())), fits, true, m)
        }
        Op::HalfIter => {
            let s = s.ok_or("no value")?;
            let mut it = s.into_iter();
            let a: Vec<u16> = it.by_ref().take(1).map(|e| e.v).collect();
            drop(it);
            if a != m[..m.len().min(1)] {
                return Err("first element of into_iter".into());
            }
            Ok((None, vec![]))
        }
        Op::EncDec => {
            let s = s.ok_or("no value")?;
            let b = quiet(|| s.to_bytes());
            let ok = match S::KIND {
                Kind::Fix => m.len() == lim,
                _ => m.len() <= lim,
            };
            let w: Vec<u8> = m.iter().flat_map(|x| x.to_be_bytes()).collect();
            match (b, ok) {
                (Ok(b), true) if b == w => {}
                (Err(_), false) => return Ok((Some(s), m)),
                (Ok(b), _) => return Err(format!("encodes as {}", hexs(&b))),
                (Err(p), true) => return Err(format!("encoding panicked: {p}")),
            }
            if s.est() != w.len() {
                return Err(format!("estimated length {}", s.est()));
            }
            match S::try_decode::<_, ByteParser>(w) {
                Ok(t) if t == s => Ok((Some(t), m)),
                r => Err(format!("does not decode to itself: {r:?}")),
            }
        }
        Op::Take => {
            let mut s = s.ok_or("no value")?;
            let t = std::mem::take(&mut s);
            if t.refs() != m || !s.refs().is_empty() {
                return Err("taking the value".into());
            }
            drop(s);
            Ok((Some(t), m))
        }
    }
}

fn observe<S: Bs>(s: &S, m: &[u16]) -> Result<(), String> {
    let r = s.refs();
    if r != m {
        return Err(format!("holds {}, expected {}", names(&r), names(m)));
    }
    if s.len() != m.len() || s.is_empty() != m.is_empty() || s.iter().map(|e| e.v).ne(m.iter().copied()) || s.iter().rev().map(|e| e.v).ne(m.iter().rev().copied()) {
        return Err("slice view differs".into());
    }
    if s.get(m.len()).is_some() || s.first().map(|e| e.v) != m.first().copied() || s.last().map(|e| e.v) != m.last().copied() {
        return Err("slice accessors differ".into());
    }
    Ok(())
}

/// Numbers up to `top`: all, or for large limits those around the ends, the middle and powers of two.
fn around(top: usize) -> Vec<usize> {
    if top <= 6 {
        return (0..=top).collect();
    }
    let mut v = vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, top / 2, top - 4, top - 3, top - 2, top - 1, top];
    v.retain(|x| *x <= top);
    v.sort_unstable();
    v.dedup();
    v
}
fn ctors(lim: usize, kind: Kind) -> Vec<Op> {
    let mut v = vec![Op::New, Op::Default];
    for k in around(lim + 2) {
        v.extend([Op::FromVec(k), Op::TrySlice(k), Op::TryVec(k)]);
        if k <= lim {
            v.push(Op::Unchecked(k));
        }
        for h in 0..4 {
            v.push(Op::Collect(k, h, None));
        }
        let below = |k: usize| around(k).into_iter().filter(move |b| *b < k);
        for b in below(k) {
            v.push(Op::Collect(k, 0, Some(b)));
            v.push(Op::Collect(k, 1, Some(b)));
        }
        for p in 0..2 {
            for s in [false, true] {
                v.push(Op::Decode(k, p, None, s));
                for b in below(k) {
                    v.push(Op::Decode(k, p, Some(b), s));
                }
            }
        }
    }
    if kind != Kind::Any {
        for h in [0, 1, 3] {
            v.push(Op::Collect(INFINITE, h, None));
        }
    }
    v
}
fn muts(lim: usize, kind: Kind) -> Vec<Op> {
    let mut v = vec![];
    for k in around(lim + 1) {
        for h in 0..4 {
            v.push(Op::Extend(k, h, None));
        }
        v.push(Op::Extend(k, 0, Some(k / 2)));
    }
    if kind != Kind::Any {
        v.push(Op::Extend(INFINITE, 0, None));
        v.push(Op::Extend(INFINITE, 1, None));
    }
    v.extend(around(lim).into_iter().filter(|i| *i < lim).map(Op::Set));
    v.extend([Op::Reverse, Op::Clone, Op::IntoVec(false), Op::IntoVec(true), Op::IntoIter, Op::HalfIter, Op::EncDec, Op::Take]);
    v
}

fn run_ops<S: Bs>(ops: &[Op]) -> Result<(), String> {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| b.set(false));
    let r = (|| {
        let mut s: Option<S> = None;
        let mut m: Vec<u16> = vec![];
        for (i, op) in ops.iter().enumerate() {
            if i > 0 && s.is_none() {
                break;
            }
            let (a, b) = step::<S>(s, m, *op, 0x100 * (i as u16 + 1)).map_err(|e| format!("{op:?}: {e}"))?;
            s = a;
            m = b;
            if let Some(x) = &s {
                observe(x, &m).map_err(|e| format!("after {op:?}: {e}"))?;
                let alive = LIVE.with(|l| l.borrow().len());
                if alive != m.len() {
                    return Err(format!("after {op:?}: {alive} elements are alive, {} are held", m.len()));
                }
            }
        }
        Ok(())
    })();
    r?;
    let alive = LIVE.with(|l| l.borrow().len());
    if alive != 0 || BAD.with(Cell::get) {
        return Err(format!("{alive} elements were leaked, or one was dropped twice ({})", BAD.with(Cell::get)));
    }
    Ok(())
}

/// All histories of one construction followed by up to `depth` further operations.
fn histories<S: Bs>(lim: usize, depth: usize, first: usize, of: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let ms = muts(lim, S::KIND);
        for (i, c) in ctors(lim, S::KIND).into_iter().enumerate() {
            if i % of != first {
                continue;
            }
            let mut h = vec![c];
            rec::<S>(ck, &mut h, &ms, depth);
        }
    }
}
fn rec<S: Bs>(ck: &mut Ck, h: &mut Vec<Op>, ms: &[Op], depth: usize) {
    if ck.stop() {
        return;
    }
    ck.st(1);
    ck.tr(h.len() as u64);
    // a history whose prefix fails, or whose value is gone, is not extended
    let mut gone = false;
    let ok = ck.case(
        || format!("{}: {h:?}", std::any::type_name::<S>().replace("tedium::seq::", "").replace("c13::", "")),
        || {
            run_ops::<S>(h)?;
            gone = ends_gone::<S>(h);
            Ok(())
        },
    );
    if !ok || gone || depth == 0 {
        return;
    }
    for m in ms {
        h.push(*m);
        rec::<S>(ck, h, ms, depth - 1);
        h.pop();
    }
}
fn ends_gone<S: Bs>(h: &[Op]) -> bool {
    matches!(h.last(), Some(Op::HalfIter))
        || h.len() == 1 && {
            let mut g = false;
            let r = step::<S>(None, vec![], h[0], 0x100);
            if let Ok((None, _)) = r {
                g = true
            }
            g
        }
}

/// Order, equality and hashing agree with those of the element lists.
fn compare<S: Bs>(lim: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let mut all: Vec<Vec<u16>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..lim {
            last = last.iter().flat_map(|v| (0..3).map(move |x| [v.clone(), vec![x]].concat())).collect();
            all.extend(last.clone());
        }
        let mk = |v: &Vec<u16>| S::vec_(v.iter().map(|x| El::new(*x)).collect()).unwrap();
        let hash = |s: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s(&mut h);
            h.finish()
        };
        for a in &all {
            for b in &all {
                if ck.stop() {
                    return;
                }
                ck.st(1);
                ck.tr(3);
                ck.case(
                    || format!("{}: comparing {a:?} and {b:?}", std::any::type_name::<S>()),
                    || {
                        let (x, y) = (mk(a), mk(b));
                        if (x == y) != (a == b) || x.partial_cmp(&y) != a.partial_cmp(b) {
                            return Err("equality or order".into());
                        }
                        if a == b && hash(&|h| x.hash(h)) != hash(&|h| y.hash(h)) {
                            return Err("hash".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// The documented behaviour of values oversaturated through the unchecked constructor: it refuses
/// the elements, or encoding and extending the value panic.
fn oversaturated<const K: usize>(ck: &mut Ck) {
    for k in K + 1..=K + 3 {
        ck.st(1);
        ck.tr(3);
        ck.case(
            || format!("LimSeq<_, {K}>::from_vec_unchecked of {k} elements"),
            || {
                let Ok(s) = quiet(|| <LimSeq<El, K>>::unchecked_((0..k).map(|i| El::new(i as u16)).collect())) else { return Ok(()) };
                if quiet(|| s.to_bytes()).is_ok() || quiet(|| s.encode::<tedium::StrictBuilder>()).is_ok() {
                    return Err("was encoded".into());
                }
                let mut t = s.clone();
                if quiet(|| t.extend(vec![El::new(1)])).is_ok() {
                    return Err("was extended".into());
                }
                Ok(())
            },
        );
    }
}

/// Elements of other types and widths, without the registry: each operation once, at every count.
trait Li: Clone + PartialEq + std::fmt::Debug + 'static {
    fn li(i: usize) -> Self;
}
impl Li for u8 {
    fn li(i: usize) -> u8 {
        (i * 7 + 1) as u8
    }
}
impl Li for i64 {
    fn li(i: usize) -> i64 {
        -(i as i64) << 33 | 5
    }
}
impl Li for bool {
    fn li(i: usize) -> bool {
        i % 3 == 1
    }
}
impl Li for FixedBytes<3> {
    fn li(i: usize) -> Self {
        FixedBytes::from([i as u8, 2, (i >> 8) as u8])
    }
}
impl Li for Dynamic<u8, Bytes> {
    fn li(i: usize) -> Self {
        Dynamic::new(Bytes::from(vec![i as u8; i % 5]))
    }
}
impl Li for Option<Box<u16>> {
    fn li(i: usize) -> Self {
        (i % 2 == 0).then(|| Box::new(i as u16))
    }
}
impl Li for () {
    fn li(_: usize) {}
}

trait Lseq<E>: Clone + PartialEq + std::fmt::Debug + std::ops::DerefMut<Target = [E]> + FromIterator<E> + Extend<E> + IntoIterator<Item = E> + Default {
    fn vec_(v: Vec<E>) -> Result<Self, ()>;
    fn slice_(v: &[E]) -> Result<Self, ()>;
    fn vec2_(v: Vec<E>) -> Result<Self, ()>;
    fn out_(self) -> Vec<E>;
}
impl<E: Li, const K: usize> Lseq<E> for LimSeq<E, K> {
    fn vec_(v: Vec<E>) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn slice_(v: &[E]) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn vec2_(v: Vec<E>) -> Result<Self, ()> {
        quiet(|| Self::from_vec(v)).map_err(|_| ())
    }
    fn out_(self) -> Vec<E> {
        Vec::from(self)
    }
}
impl<E: Li, const K: usize> Lseq<E> for FixSeq<E, K> {
    fn vec_(v: Vec<E>) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn slice_(v: &[E]) -> Result<Self, ()> {
        // a short slice may be refused
        Self::try_from(v).or_else(|_| if v.len() < K { Self::vec_(v.to_vec()) } else { Err(()) })
    }
    fn vec2_(v: Vec<E>) -> Result<Self, ()> {
        Self::try_from(v).map_err(|_| ())
    }
    fn out_(self) -> Vec<E> {
        Vec::from(self)
    }
}
fn light<E: Li, S: Lseq<E>>(lim: usize) -> impl Fn(&mut Ck) {
    move |ck| {
        let name = || std::any::type_name::<S>().replace("tedium::", "");
        let mk = |a: usize, k: usize| -> Vec<E> { (a..a + k).map(E::li).collect() };
        for k in around(lim + 2) {
            let want = mk(0, k);
            let made = |ck: &mut Ck, how: &str, s: Result<S, ()>| {
                ck.tr(1);
                ck.case(
                    || format!("{} of {k} elements, {how}", name()),
                    || match s {
                        Ok(_) if k > lim => Err("accepted".into()),
                        Err(()) if k <= lim => Err("refused".into()),
                        Ok(s) if *s != want[..] || s.clone() != s || s.clone().into_iter().ne(want.iter().cloned()) || s.clone().out_() != want => Err(format!("holds {s:?}")),
                        _ => Ok(()),
                    },
                );
            };
            made(ck, "from a vector", S::vec_(want.clone()));
            let mut roomy = Vec::with_capacity(k + lim + 100);
            roomy.extend(want.clone());
            made(ck, "from a roomy vector", S::vec_(roomy.clone()));
            made(ck, "from_vec", S::vec2_(roomy));
            made(ck, "from a slice", S::slice_(&want));
            made(ck, "collected", quiet(|| want.iter().cloned().collect::<S>()).map_err(|_| ()));
            made(ck, "collected by filter", quiet(|| want.iter().cloned().filter(|_| true).collect::<S>()).map_err(|_| ()));
            made(ck, "cloned", S::vec_(want.clone()).map(|s| s.clone()));
            for a in around(k.min(lim)) {
                ck.st(1);
                for way in 0..3 {
                    let mut s = S::vec_(mk(0, a)).unwrap();
                    let r = match way {
                        0 => quiet(|| s.extend(mk(a, k - a))),
                        1 => quiet(|| s.extend(mk(a, k - a).into_iter().filter(|_| true))),
                        _ => quiet(|| (a..k).for_each(|i| s.extend(Some(E::li(i))))),
                    };
                    made(ck, &format!("{a} extended, {way}"), if k <= lim || r.is_ok() { Ok(s) } else if s.len() <= lim && want.starts_with(&s) { Err(()) } else { Ok(s) });
                }
            }
            if k <= lim {
                let mut d = S::default();
                d.clone_from(&S::vec_(want.clone()).unwrap());
                made(ck, "clone_from", Ok(d));
                let mut e = S::vec_(mk(3, lim)).unwrap();
                e.clone_from(&S::vec_(want.clone()).unwrap());
                made(ck, "clone_from onto a full one", Ok(e));
            }
        }
    }
}
fn light_codec<E: Li + Encode + Decode, S: Lseq<E> + Encode + Decode>(lim: usize, exact: bool) -> impl Fn(&mut Ck) {
    move |ck| {
        for k in around(lim + 2) {
            for slice in [false, true] {
                ck.st(1);
                ck.tr(2);
                ck.case(
                    || format!("coding {} of {k} elements, slice parser {slice}", std::any::type_name::<S>()),
                    || {
                        let want: Vec<E> = (0..k).map(E::li).collect();
                        let mut by = vec![];
                        want.iter().for_each(|e| by.extend(e.to_bytes()));
                        let r = if slice {
                            let mut p = SliceParser::from_buffer(SliceBuffer::new(&by));
                            S::parse(&mut p).ok().map(|s| (s, p.remainder()))
                        } else {
                            let mut p = ByteParser::from_buffer(VecBuffer::from(by.as_slice()));
                            S::parse(&mut p).ok().map(|s| (s, p.remainder()))
                        };
                        let n = if exact { lim } else { k };
                        let rest: usize = want.iter().skip(n).map(|e| e.to_bytes().len()).sum();
                        match r {
                            Some(_) if (exact && k < lim) || (!exact && k > lim) => Err("accepted".into()),
                            None if (exact && k >= lim) || (!exact && k <= lim) => Err("refused".into()),
                            None => Ok(()),
                            Some((s, l)) => {
                                if *s != want[..n] || l != rest {
                                    return Err(format!("decoded {s:?}, {l} bytes left"));
                                }
                                if s.to_bytes() != by[..by.len() - rest] {
                                    return Err("encoded differently".into());
                                }
                                Ok(())
                            }
                        }
                    },
                );
            }
        }
    }
}

fn macros(ck: &mut Ck) {
    ck.case(
        || "the seq! macro".into(),
        || {
            let a: Sequence<u8> = seq![];
            let b: Sequence<u8> = seq![7; 3];
            let c: Sequence<u8> = seq![1, 2, 3,];
            if !a.is_empty() || b.into_inner() != [7, 7, 7] || c.into_inner() != [1, 2, 3] {
                return Err("wrong content".into());
            }
            let mut d: Sequence<u8> = seq![1, 2];
            d.as_mut_slice()[0] = 9;
            AsMut::<[u8]>::as_mut(&mut d)[1] = 8;
            for x in &mut d {
                *x += 1;
            }
            if d.into_inner() != [10, 9] {
                return Err("mutable views".into());
            }
            Ok(())
        },
    );
}

fn main() {
    run(
        Spec {
            prop: "C13",
            explanation: "states = histories (one construction, then every sequence of further operations up to the depth); transitions = operations run on the real LimSeq, FixSeq and Sequence and compared, after each one, with a plain list and its bound. Constructions: new, default, from vectors and slices of every count up to two above the limit, from iterators with right, unknown, too high and too low size hints, infinite and panicking ones, and decoding (two parsers) of every element count with partial and invalid elements. Elements are registered while alive, so a lost, duplicated or leaked element is noticed. Limits 0 to 4 with every count, depth 2 to 4 (thorough 3 to 4); limits 8, 17, 64, 129, 256 and 300 with counts around the ends, the middle and powers of two, depth 1 (thorough 2); for Vec and ArrayVec storage. Each way to build and extend, and coding, also with elements of seven other types (bytes, 64-bit, boolean, fixed and dynamic strings, boxed, zero-sized).",
            assumptions: &["FixSeq::try_from of a short slice may be accepted or refused (code and documentation disagree)", "elements of zero width are outside the schema language", "encoding an undersaturated FixSeq and overflowing from_vec, from_iter or extend panic, as documented"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = vec![section("seq! macro", macros)];
            macro_rules! lims { ($($k:literal: $d:expr),*) => {$(
                for i in 0..4 {
                    v.push(section(format!("LimSeq<_, {}> histories, part {i}", $k), histories::<LimSeq<El, $k>>($k, $d, i, 4)));
                    v.push(section(format!("FixSeq<_, {}> histories, part {i}", $k), histories::<FixSeq<El, $k>>($k, $d, i, 4)));
                }
                v.push(section(format!("LimSeq<_, {}> comparisons", $k), compare::<LimSeq<El, $k>>($k)));
                v.push(section(format!("FixSeq<_, {}> comparisons", $k), compare::<FixSeq<El, $k>>($k)));
                v.push(section(format!("LimSeq<_, {}> oversaturated", $k), oversaturated::<$k>));
            )*}; }
            lims!(0: 4, 1: if th { 4 } else { 3 }, 2: if th { 4 } else { 3 }, 3: if th { 3 } else { 2 }, 4: if th { 3 } else { 2 });
            macro_rules! large { ($($k:literal: $d:expr),*) => {$(
                for i in 0..4 {
                    v.push(section(format!("LimSeq<_, {}> histories, part {i}", $k), histories::<LimSeq<El, $k>>($k, $d, i, 4)));
                    v.push(section(format!("FixSeq<_, {}> histories, part {i}", $k), histories::<FixSeq<El, $k>>($k, $d, i, 4)));
                }
                v.push(section(format!("LimSeq<_, {}> oversaturated", $k), oversaturated::<$k>));
            )*}; }
            large!(8: if th { 2 } else { 1 }, 17: if th { 2 } else { 1 }, 64: if th { 2 } else { 1 }, 129: if th { 2 } else { 1 }, 256: if th { 2 } else { 1 }, 300: 1);
            macro_rules! other { ($($e:ty => $($k:literal)*;)*) => {$($(
                v.push(section(format!("LimSeq<{}, {}>", stringify!($e), $k), light::<$e, LimSeq<$e, $k>>($k)));
                v.push(section(format!("FixSeq<{}, {}>", stringify!($e), $k), light::<$e, FixSeq<$e, $k>>($k)));
            )*)*}; }
            macro_rules! coded { ($($e:ty => $($k:literal)*;)*) => {$($(
                v.push(section(format!("coding LimSeq<{}, {}>", stringify!($e), $k), light_codec::<$e, LimSeq<$e, $k>>($k, false)));
                v.push(section(format!("coding FixSeq<{}, {}>", stringify!($e), $k), light_codec::<$e, FixSeq<$e, $k>>($k, true)));
            )*)*}; }
            other!(u8 => 0 1 2 5 8 33 255 256 300; i64 => 0 1 3 5 16 64 100; bool => 0 1 3 9 70; FixedBytes<3> => 0 1 4 40; Dynamic<u8, Bytes> => 0 1 3 6 20 130; Option<Box<u16>> => 1 4 20; () => 0 1 3 10 300;);
            coded!(u8 => 0 1 2 5 8 33 255 256 300 4097; i64 => 0 1 3 5 16 64 100 513; bool => 0 1 3 9 70; FixedBytes<3> => 0 1 4 40 1366; Dynamic<u8, Bytes> => 0 1 3 6 20 130;);
            for i in 0..4 {
                v.push(section(format!("Sequence histories, part {i}"), histories::<Sequence<El>>(2, if th { 4 } else { 2 }, i, 4)));
            }
            v.push(section("Sequence comparisons", compare::<Sequence<El>>(3)));
            v
        },
    )
}
