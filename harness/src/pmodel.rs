//! The parser state machine: operations, the reference model, and the exploration of histories on
//! the real parsers.
use crate::engine::*;
use crate::reflect::PK;
use std::collections::{HashSet, VecDeque};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::{ParseError, WindowError};
use tedium::parse::ParserExt;
use tedium::*;

pub const READ: u8 = 1;
pub const WIN: u8 = 2;
pub const EXT: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Byte,
    Next,
    /// the iterator's nth element; everything up to it is consumed, everything there is when there is none
    Nth(usize),
    /// the last element of the iterator over the bytes left
    Last,
    /// the number of elements of the iterator over the bytes left
    Count,
    /// up to so many bytes collected through the iterator
    Iter(usize),
    /// the iterator's size hint, which must admit the number of bytes left
    Hint,
    Consume(usize),
    Dyn(usize),
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F64,
    Bool,
    Arr(u8),
    FixedArr(u8),
    /// `take_fixed` of one of the widths in `WIDE`
    Wide(usize),
    /// `consume_arr` of one of the widths in `WIDE`
    WideArr(usize),
    /// tag word of the given width; every value is valid
    Tag8,
    Tag16,
    /// bytes up to and including the first one below the threshold
    SelfTerm(u8),
    Fit(usize),
    Close,
    Test,
    Skip(usize),
    SkipX(usize),
    Pfx(u8),
    SkipDyn(u8),
    /// key width, value width, index into the buffer the key is copied from (or an absent key)
    Kv(u8, u8, usize),
}

impl Op {
    pub fn class(&self) -> u8 {
        use Op::*;
        match self {
            Fit(_) | Close | Test => WIN,
            Skip(_) | SkipX(_) => READ | EXT,
            Pfx(_) | SkipDyn(_) | Kv(..) => EXT,
            _ => READ,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Unit,
    Bytes(Vec<u8>),
    Num(u64),
    Bool(bool),
    Len(usize),
    NoItem,
    Val(Option<Vec<u8>>),
    Err,
    /// an error after which the position is not specified
    ErrLoose,
    NoWindow,
    Residue,
    Panic(String),
}
impl Out {
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err | Out::ErrLoose | Out::NoWindow | Out::Residue)
    }
    /// Whether an observed outcome is what the model calls for.
    pub fn admits(&self, seen: &Out) -> bool {
        match (self, seen) {
            (Out::ErrLoose, s) | (Out::Err, s) => s.is_err(),
            (a, b) => a == b,
        }
    }
}

/// Model state: position and the ends of the enclosing windows, outermost (the buffer) first.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct M {
    pub pos: usize,
    pub ends: Vec<usize>,
}

impl M {
    pub fn new(n: usize) -> M {
        M { pos: 0, ends: vec![n] }
    }
    pub fn rem(&self) -> usize {
        self.ends[self.ends.len() - 1] - self.pos
    }
    fn read(&mut self, b: &[u8], n: usize) -> Option<Vec<u8>> {
        if n > self.rem() {
            return None;
        }
        let r = b[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Some(r)
    }
    fn num(&mut self, b: &[u8], n: usize) -> Option<u64> {
        self.read(b, n).map(|v| v.iter().fold(0u64, |a, x| (a << 8) | *x as u64))
    }
    /// The outcome the operation must have; updates the state.
    pub fn step(&mut self, b: &[u8], op: &Op) -> Out {
        use Op::*;
        let bytes = |r: Option<Vec<u8>>| r.map_or(Out::Err, Out::Bytes);
        let num = |r: Option<u64>| r.map_or(Out::Err, Out::Num);
        match op {
            Byte | U8 | Tag8 => num(self.num(b, 1)),
            Next => match self.num(b, 1) {
                Some(x) => Out::Num(x),
                None => Out::NoItem,
            },
            Nth(k) => match self.rem().checked_sub(1).map_or(false, |r| *k <= r) {
                false => {
                    self.pos += self.rem();
                    Out::NoItem
                }
                true => {
                    self.pos += k;
                    num(self.num(b, 1))
                }
            },
            Iter(k) => {
                let n = self.rem().min(*k);
                bytes(self.read(b, n))
            }
            Last => {
                let n = self.rem();
                match self.read(b, n).unwrap().last() {
                    Some(x) => Out::Num(*x as u64),
                    None => Out::NoItem,
                }
            }
            Count => {
                let n = self.rem();
                self.pos += n;
                Out::Len(n)
            }
            Hint => Out::Bool(true),
            Consume(k) | Dyn(k) | Wide(k) | WideArr(k) => bytes(self.read(b, *k)),
            Arr(k) | FixedArr(k) => bytes(self.read(b, *k as usize)),
            I8 => num(self.num(b, 1).map(|x| x as u8 as i8 as i64 as u64)),
            U16 | Tag16 => num(self.num(b, 2)),
            I16 => num(self.num(b, 2).map(|x| x as u16 as i16 as i64 as u64)),
            U32 => num(self.num(b, 4)),
            I32 => num(self.num(b, 4).map(|x| x as u32 as i32 as i64 as u64)),
            U64 | I64 | F64 => num(self.num(b, 8)),
            Bool => match self.num(b, 1) {
                None => Out::Err,
                Some(0) => Out::Bool(false),
                Some(0xff) => Out::Bool(true),
                Some(_) => Out::ErrLoose,
            },
            SelfTerm(t) => {
                let end = self.pos + self.rem();
                match b[self.pos..end].iter().position(|x| x < t) {
                    Some(i) => bytes(self.read(b, i + 1)),
                    None => Out::ErrLoose,
                }
            }
            Fit(n) => {
                if *n > self.rem() {
                    return Out::Err;
                }
                self.ends.push(self.pos + n);
                Out::Unit
            }
            Close => {
                if self.ends.len() == 1 {
                    Out::NoWindow
                } else if self.rem() > 0 {
                    Out::Residue
                } else {
                    self.ends.pop();
                    Out::Unit
                }
            }
            Test => Out::Bool(self.ends.len() > 1 && self.rem() == 0),
            Skip(k) => {
                let d = self.rem().min(*k);
                self.pos += d;
                Out::Len(d)
            }
            SkipX(k) => match self.read(b, *k) {
                Some(_) => Out::Unit,
                None => Out::Err,
            },
            Pfx(w) | SkipDyn(w) => {
                let l = match self.num(b, *w as usize) {
                    None => return Out::Err,
                    Some(x) => x,
                };
                if *w == 4 && l > 0x3fff_ffff {
                    return Out::ErrLoose;
                }
                let l = l as usize;
                if l > self.rem() {
                    // the prefix is read, the window is not opened
                    return Out::Err;
                }
                if let Pfx(_) = op {
                    self.ends.push(self.pos + l);
                } else {
                    self.pos += l;
                }
                Out::Len(l)
            }
            Kv(m, n, at) => {
                let (m, n) = (*m as usize, *n as usize);
                let key = key_of(b, m, *at);
                loop {
                    if self.rem() == 0 {
                        return Out::Val(None);
                    }
                    if self.rem() < m + n {
                        return Out::ErrLoose;
                    }
                    let k = self.read(b, m).unwrap();
                    let v = self.read(b, n).unwrap();
                    if k == key {
                        return Out::Val(Some(v));
                    }
                    if m + n == 0 {
                        return Out::Val(Some(vec![]));
                    }
                }
            }
        }
    }
}

pub fn key_of(b: &[u8], m: usize, at: usize) -> Vec<u8> {
    if at + m <= b.len() {
        b[at..at + m].to_vec()
    } else {
        vec![0xEE; m]
    }
}

fn r<T>(x: Result<T, ParseError>, f: impl FnOnce(T) -> Out) -> Out {
    match x {
        Ok(v) => f(v),
        Err(ParseError::Window(WindowError::CloseWithoutWindow)) => Out::NoWindow,
        Err(ParseError::Window(WindowError::CloseWithResidue { .. })) => Out::Residue,
        Err(_) => Out::Err,
    }
}

fn kv<P: ParserExt, const A: usize, const B: usize>(p: &mut P, key: &[u8]) -> Out {
    let mut k = [0u8; A];
    k.copy_from_slice(key);
    r(p.fast_kv_search::<(), _, _, A, B>(&k, |v: [u8; B]| v.to_vec()), Out::Val)
}

/// Performs one operation on a real parser.
pub fn apply<P: Parser + ParserExt + Iterator<Item = u8>>(p: &mut P, buf: &[u8], op: &Op) -> Out {
    use Op::*;
    match op {
        Byte => r(p.consume_byte(), |x| Out::Num(x as u64)),
        Next => match Iterator::next(p) {
            Some(x) => Out::Num(x as u64),
            None => Out::NoItem,
        },
        Nth(k) => match Iterator::nth(p, *k) {
            Some(x) => Out::Num(x as u64),
            None => Out::NoItem,
        },
        Last => match p.by_ref().last() {
            Some(x) => Out::Num(x as u64),
            None => Out::NoItem,
        },
        Count => Out::Len(p.by_ref().count()),
        Iter(k) => Out::Bytes(p.by_ref().take(*k).collect()),
        Hint => {
            let (lo, hi) = p.size_hint();
            let left = p.remainder();
            Out::Bool(lo <= left && hi.map_or(true, |h| h >= left))
        }
        Consume(k) => r(p.consume(*k), |x| Out::Bytes(x.to_vec())),
        Dyn(k) => r(p.take_dynamic(*k), Out::Bytes),
        U8 => r(p.take_u8(), |x| Out::Num(x as u64)),
        I8 => r(p.take_i8(), |x| Out::Num(x as i64 as u64)),
        U16 => r(p.take_u16(), |x| Out::Num(x as u64)),
        I16 => r(p.take_i16(), |x| Out::Num(x as i64 as u64)),
        U32 => r(p.take_u32(), |x| Out::Num(x as u64)),
        I32 => r(p.take_i32(), |x| Out::Num(x as i64 as u64)),
        U64 => r(p.take_u64(), Out::Num),
        I64 => r(p.take_i64(), |x| Out::Num(x as u64)),
        F64 => r(p.take_f64(), |x| Out::Num(x.to_bits())),
        Bool => r(p.take_bool(), Out::Bool),
        Arr(0) => r(p.consume_arr::<0>(), |x| Out::Bytes(x.to_vec())),
        Arr(1) => r(p.consume_arr::<1>(), |x| Out::Bytes(x.to_vec())),
        Arr(3) => r(p.consume_arr::<3>(), |x| Out::Bytes(x.to_vec())),
        Arr(33) => r(p.consume_arr::<33>(), |x| Out::Bytes(x.to_vec())),
        Arr(_) => r(p.consume_arr::<5>(), |x| Out::Bytes(x.to_vec())),
        FixedArr(0) => r(p.take_fixed::<0>(), |x| Out::Bytes(x.to_vec())),
        FixedArr(2) => r(p.take_fixed::<2>(), |x| Out::Bytes(x.to_vec())),
        FixedArr(64) => r(p.take_fixed::<64>(), |x| Out::Bytes(x.to_vec())),
        FixedArr(_) => r(p.take_fixed::<4>(), |x| Out::Bytes(x.to_vec())),
        Wide(k) => r(wide(p, *k, true), Out::Bytes),
        WideArr(k) => r(wide(p, *k, false), Out::Bytes),
        Tag8 => r(p.take_tagword::<(), u8, Vec<u8>>((0..=255).collect()), |x| Out::Num(x as u64)),
        Tag16 => r(p.take_tagword::<(), u16, &[u16]>(all16()), |x| Out::Num(x as u64)),
        SelfTerm(t) => {
            let t = *t;
            r(p.take_self_terminating(move |x| x < t), Out::Bytes)
        }
        Fit(n) => r(p.set_fit(*n), |_| Out::Unit),
        Close => r(p.enforce_target(), |_| Out::Unit),
        Test => r(p.test_target(), Out::Bool),
        Skip(k) => r(p.skip(*k), Out::Len),
        SkipX(k) => r(p.skip_exactly(*k), |_| Out::Unit),
        Pfx(1) => r(p.process_prefix::<u8>(), Out::Len),
        Pfx(2) => r(p.process_prefix::<u16>(), Out::Len),
        Pfx(_) => r(p.process_prefix::<u30>(), Out::Len),
        SkipDyn(1) => r(p.skip_dynamic::<u8>(), Out::Len),
        SkipDyn(2) => r(p.skip_dynamic::<u16>(), Out::Len),
        SkipDyn(_) => r(p.skip_dynamic::<u30>(), Out::Len),
        Kv(m, n, at) => {
            let key = key_of(buf, *m as usize, *at);
            match (m, n) {
                (1, 1) => kv::<P, 1, 1>(p, &key),
                (2, 1) => kv::<P, 2, 1>(p, &key),
                (1, 2) => kv::<P, 1, 2>(p, &key),
                (2, 2) => kv::<P, 2, 2>(p, &key),
                (1, 0) => kv::<P, 1, 0>(p, &key),
                (0, 1) => kv::<P, 0, 1>(p, &key),
                (3, 2) => kv::<P, 3, 2>(p, &key),
                (4, 1) => kv::<P, 4, 1>(p, &key),
                (8, 2) => kv::<P, 8, 2>(p, &key),
                (9, 1) => kv::<P, 9, 1>(p, &key),
                (16, 4) => kv::<P, 16, 4>(p, &key),
                (17, 3) => kv::<P, 17, 3>(p, &key),
                (20, 8) => kv::<P, 20, 8>(p, &key),
                (21, 33) => kv::<P, 21, 33>(p, &key),
                (32, 16) => kv::<P, 32, 16>(p, &key),
                (33, 1) => kv::<P, 33, 1>(p, &key),
                (65, 5) => kv::<P, 65, 5>(p, &key),
                (2, 65) => kv::<P, 2, 65>(p, &key),
                (5, 200) => kv::<P, 5, 200>(p, &key),
                (128, 0) => kv::<P, 128, 0>(p, &key),
                x => panic!("kv shape {x:?}"),
            }
        }
    }
}

macro_rules! widths {
    ($($n:literal)*) => {
        /// Widths of fixed-size reads besides the small ones.
        pub const WIDE: &[usize] = &[$($n),*];
        pub fn wide<P: Parser>(p: &mut P, k: usize, fixed: bool) -> Result<Vec<u8>, ParseError> {
            match (k, fixed) {
                $(($n, true) => p.take_fixed::<$n>().map(|x| x.to_vec()),
                ($n, false) => p.consume_arr::<$n>().map(|x| x.to_vec()),)*
                x => panic!("width {x:?}"),
            }
        }
    };
}
widths!(6 7 8 9 12 15 16 17 20 24 31 32 33 40 48 63 64 65 66 96 100 127 128 129 192 255 256 257 500 512 1000 1023 1024 1025 4095 4096 4097 8193);

fn all16() -> &'static [u16] {
    static A: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    A.get_or_init(|| (0..=65535).collect())
}

/// Sizes that matter in a state.
pub fn sizes(m: &M, n: usize, full: bool) -> Vec<usize> {
    let rem = m.rem();
    let mut v = vec![0, 1, 2];
    v.push(rem);
    v.push(rem.wrapping_add(1));
    if full {
        if rem > 0 {
            v.push(rem - 1);
        }
        v.extend([n, n + 1, n - m.pos]);
        v.extend([usize::MAX, isize::MAX as usize, isize::MAX as usize + 1]);
        v.extend([usize::MAX - m.pos, (usize::MAX - m.pos).wrapping_add(1), usize::MAX - n, (usize::MAX - n).wrapping_add(1)]);
        v.extend([256, 65536, 1 << 32]);
    } else {
        v.push(usize::MAX);
    }
    v.sort();
    v.dedup();
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alpha {
    /// what shapes the state
    Core,
    /// the smallest set that still reaches every (position, window stack)
    Min,
    Full,
}

/// The operations explored in a state.
pub fn ops(m: &M, b: &[u8], a: Alpha, classes: u8) -> Vec<Op> {
    use Op::*;
    let n = b.len();
    let mut v = vec![];
    if a == Alpha::Min {
        v.extend([Byte, Consume(2), Skip(1), Fit(0), Fit(1), Close, Test]);
        if m.rem() > 1 {
            v.extend([Consume(m.rem()), Fit(m.rem()), Fit(m.rem() - 1)]);
        }
        v.extend([Fit(usize::MAX), Consume(usize::MAX)]);
        return v;
    }
    let full = a == Alpha::Full;
    let sz = sizes(m, n, full);
    for k in &sz {
        v.push(Consume(*k));
        v.push(Fit(*k));
        v.push(Skip(*k));
        if full || *k <= 1 || *k == m.rem() {
            v.push(SkipX(*k));
        }
        if full {
            v.push(Dyn(*k));
        }
    }
    v.extend([Byte, Close, Test, Pfx(1)]);
    if full {
        v.extend([Next, U8, I8, U16, I16, U32, I32, U64, I64, F64, Bool, Tag8, Tag16, Pfx(2), Pfx(4), SkipDyn(1), SkipDyn(2), SkipDyn(4)]);
        v.extend([Arr(0), Arr(1), Arr(3), Arr(5), FixedArr(0), FixedArr(2), FixedArr(4), Arr(33), FixedArr(64)]);
        v.extend([Hint, Nth(0), Nth(1), Nth(m.rem().wrapping_sub(1)), Nth(m.rem()), Nth(m.rem() + 2), Last, Count, Iter(1), Iter(2), Iter(m.rem() + 1)]);
        v.extend([SelfTerm(1), SelfTerm(0x30), SelfTerm(0x80)]);
        for (kw, vw) in [(1u8, 1u8), (2, 1), (1, 2), (2, 2), (1, 0), (0, 1), (3, 2)] {
            let mut seen = HashSet::new();
            for at in (m.pos..=n).chain([0, usize::MAX / 2]) {
                if seen.insert(key_of(b, kw as usize, at)) {
                    v.push(Kv(kw, vw, at));
                }
                if n > 12 && seen.len() > 6 {
                    break;
                }
            }
        }
    }
    v.retain(|o| o.class() & classes != 0);
    v
}

/// What a history did to the real parser, compared with the model.
pub enum Fate {
    Same,
    /// deviation first seen at operation i (or while draining: i = number of operations + drain step)
    At { i: usize, class: u8, msg: String },
}

/// Runs a history and drains the parser afterwards; the whole state is observed.
pub fn run_history<P: Parser + ParserExt + Iterator<Item = u8>>(mut p: P, buf: &[u8], h: &[Op]) -> Fate {
    let mut m = M::new(buf.len());
    let mut loose = false;
    for (i, op) in h.iter().enumerate() {
        let exp = m.step(buf, op);
        let got = match quiet(|| apply(&mut p, buf, op)) {
            Ok(g) => g,
            Err(e) => Out::Panic(e),
        };
        if !exp.admits(&got) {
            return Fate::At { i, class: op.class(), msg: format!("operation {i} ({op:?}) gave {got:?}, expected {exp:?}") };
        }
        if exp == Out::ErrLoose {
            loose = true;
            break;
        }
        let rem = p.remainder();
        if rem != m.rem() {
            return Fate::At { i, class: op.class(), msg: format!("after operation {i} ({op:?}) {rem} bytes remain, expected {}", m.rem()) };
        }
    }
    if loose {
        return Fate::Same;
    }
    // drain
    let mut d = h.len();
    loop {
        let k = m.rem();
        let seq = [Op::Test, Op::Consume(k), Op::Byte, Op::Test, Op::Close];
        let mut ended = false;
        for op in &seq {
            let exp = m.step(buf, op);
            let got = match quiet(|| apply(&mut p, buf, op)) {
                Ok(g) => g,
                Err(e) => Out::Panic(e),
            };
            if !exp.admits(&got) {
                return Fate::At { i: d, class: op.class(), msg: format!("after the history, {op:?} gave {got:?}, expected {exp:?}") };
            }
            if p.remainder() != m.rem() {
                return Fate::At {
                    i: d,
                    class: op.class(),
                    msg: format!("after the history and {op:?} {} bytes remain, expected {}", p.remainder(), m.rem()),
                };
            }
            d += 1;
            ended = exp == Out::NoWindow;
        }
        if ended {
            return Fate::Same;
        }
    }
}

pub fn run_kind(k: PK, buf: &[u8], h: &[Op]) -> Fate {
    match k {
        PK::Byte => run_history(ByteParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Memo => run_history(MemoParser::from_buffer(VecBuffer::from(buf)), buf, h),
        PK::Slice => run_history(SliceParser::from_buffer(SliceBuffer::new(buf)), buf, h),
    }
}

/// Judges the last operation of a history whose proper prefixes were explored before.
pub fn judge(k: PK, buf: &[u8], h: &[Op], mine: u8) -> Verdict {
    let cls = h.last().map_or(0, |o| o.class());
    match run_kind(k, buf, h) {
        Fate::Same => Verdict::Pass,
        Fate::At { i, class, msg } => {
            if i + 1 < h.len() {
                Verdict::Prune
            } else if i >= h.len() && (class | cls) & mine != 0 || i + 1 == h.len() && class & mine != 0 {
                Verdict::Fail(msg)
            } else {
                Verdict::Prune
            }
        }
    }
}

pub fn buffers(max: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut out = Vec::new();
    for n in 0..=max {
        out.push(("count", (1..=n as u8).collect::<Vec<u8>>()));
        if n > 0 {
            out.push(("flags", (0..n).map(|i| if i % 2 == 0 { 0xff } else { 0 }).collect()));
            out.push(("zeros", (0..n).map(|i| [0, 0, 0, 2, 0, 1][i % 6]).collect()));
            out.push(("high", (0..n).map(|i| 0x80 | i as u8).collect()));
        }
        if n > 3 {
            // u30 prefixes with the two reserved bits set
            out.push(("tops", (0..n).map(|i| [0x40, 0, 0, 1, 0x80, 0, 0, 0, 0xc0][i % 9]).collect()));
        }
        if n > 2 {
            out.push(("small", (0..n).map(|i| [1, 0, 2, 1, 0, 3, 1][i % 7]).collect()));
        }
    }
    out
}

/// All histories of up to `depth` operations: the first ones from `inner`, the last from the full
/// alphabet restricted to `last` classes.  `visit` judges a history; `false` stops its extension.
pub fn dfs(
    ck: &mut Ck,
    buf: &[u8],
    depth: usize,
    inner: Alpha,
    last: u8,
    visit: &mut dyn FnMut(&mut Ck, &[Op]) -> bool,
) {
    fn go(
        ck: &mut Ck,
        buf: &[u8],
        m: &M,
        h: &mut Vec<Op>,
        left: usize,
        inner: Alpha,
        last: u8,
        visit: &mut dyn FnMut(&mut Ck, &[Op]) -> bool,
    ) {
        ck.st(1);
        let deep: HashSet<Op> = if left > 1 { ops(m, buf, inner, 7).into_iter().collect() } else { HashSet::new() };
        let mut all = ops(m, buf, Alpha::Full, last);
        let mut extra: Vec<Op> = deep.iter().copied().filter(|o| !all.contains(o)).collect();
        extra.sort();
        all.extend(extra);
        for op in all {
            if ck.stop() {
                return;
            }
            h.push(op);
            ck.tr(1);
            let ok = visit(ck, h);
            if ok && deep.contains(&op) {
                let mut m2 = m.clone();
                let o = m2.step(buf, &op);
                // a failed operation leaves the state as it was: extend it once, in the last-but-one
                // position too, since "unchanged" is what is being checked
                if o != Out::ErrLoose {
                    go(ck, buf, &m2, h, left - 1, inner, last, visit);
                }
            }
            h.pop();
        }
    }
    let mut h = Vec::new();
    ck.tr(1);
    if visit(ck, &h) {
        go(ck, buf, &M::new(buf.len()), &mut h, depth, inner, last, visit);
    }
}

/// Breadth-first search over model states (position, window stack) with windows at most `wins` deep;
/// every state is reached by up to `reps` different shortest-first histories and every operation
/// of the full alphabet is tried in it.
pub fn bfs(
    ck: &mut Ck,
    buf: &[u8],
    wins: usize,
    reps: usize,
    max_states: usize,
    inner: Alpha,
    last: u8,
    visit: &mut dyn FnMut(&mut Ck, &[Op]) -> bool,
) {
    use std::collections::HashMap;
    let mut seen: HashMap<M, usize> = HashMap::new();
    let mut q: VecDeque<(M, Vec<Op>)> = VecDeque::new();
    let m0 = M::new(buf.len());
    seen.insert(m0.clone(), 1);
    q.push_back((m0, vec![]));
    while let Some((m, h)) = q.pop_front() {
        ck.st(1);
        let deep = ops(&m, buf, inner, 7);
        let mut all = ops(&m, buf, Alpha::Full, last);
        for o in &deep {
            if !all.contains(o) {
                all.push(*o);
            }
        }
        for op in all {
            if ck.stop() {
                return;
            }
            let mut h2 = h.clone();
            h2.push(op);
            ck.tr(1);
            let ok = visit(ck, &h2);
            if !ok || !deep.contains(&op) {
                continue;
            }
            let mut m2 = m.clone();
            let o = m2.step(buf, &op);
            if o == Out::ErrLoose || m2.ends.len() > wins + 1 {
                continue;
            }
            let known = seen.len();
            let c = seen.entry(m2.clone()).or_insert(0);
            if *c < reps && (*c > 0 || known < max_states) && h2.len() < 40 {
                *c += 1;
                q.push_back((m2, h2));
            }
        }
    }
    ck.outn("model states (position, windows)", seen.len() as u64);
}

pub fn show(buf: &[u8], k: Option<PK>, h: &[Op]) -> String {
    match k {
        Some(k) => format!("{k:?} parser over {} bytes {}: {h:?}", buf.len(), hexs(buf)),
        None => format!("over {} bytes {}: {h:?}", buf.len(), hexs(buf)),
    }
}

/// Long buffers whose sizes cross the widths of prefixes and counters.
pub fn long_buffers(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    let mk = |n: usize, head: &[u8]| {
        let mut b: Vec<u8> = head.to_vec();
        while b.len() < n {
            b.push((b.len() * 7 + b.len() / 256) as u8);
        }
        b
    };
    v.push(("300 bytes, u8 prefix 255".into(), mk(300, &[255])));
    v.push(("600 bytes, u16 prefix 256".into(), mk(600, &[1, 0])));
    v.push(("300 bytes, u30 prefix 290".into(), mk(300, &[0, 0, 1, 0x22])));
    if thorough {
        v.push(("66000 bytes, u16 prefix 65535".into(), mk(66000, &[255, 255])));
        v.push(("66000 bytes, u30 prefix 65536".into(), mk(66000, &[0, 1, 0, 0])));
    }
    v
}

/// Tables of fixed-size entries with wide keys and values: keys differ in one byte only, values may
/// contain keys, the last entry may be cut short; looked up for every key there is and for absent ones.
fn tables(ck: &mut Ck, k: PK) {
    let shapes = [(1u8, 1u8), (2, 1), (4, 1), (8, 2), (9, 1), (16, 4), (17, 3), (20, 8), (21, 33), (32, 16), (33, 1), (65, 5), (2, 65), (5, 200), (128, 0)];
    let many: &[usize] = if ck.thorough() { &[0, 1, 2, 3, 4, 9, 40, 300, 1000] } else { &[0, 1, 2, 3, 4, 9, 40, 300] };
    for (kw, vw) in shapes {
        let (m, n) = (kw as usize, vw as usize);
        for entries in many {
            // which byte of the key tells the entries apart
            let mut wheres = vec![0, m - 1, m / 2, m.saturating_sub(2), 7.min(m - 1), 8.min(m - 1), 15.min(m - 1), 16.min(m - 1)];
            wheres.sort();
            wheres.dedup();
            for at in wheres {
                let key = |i: usize| {
                    let mut k = vec![1u8; m];
                    k[at] = i as u8;
                    if i > 255 {
                        k[(at + 1) % m] = 2;
                    }
                    k
                };
                let mut b = vec![];
                for i in 0..*entries {
                    b.extend(key(i));
                    // the value repeats the key of the next entry
                    let nk = key(i + 1);
                    b.extend((0..n).map(|j| nk[j % m]));
                }
                let whole = b.len();
                for cut in [0usize, 1, n, n + 1, m + n - 1] {
                    if cut > whole {
                        continue;
                    }
                    let mut buf = b[..whole - cut].to_vec();
                    // an absent key, and one only in the cut-off entry, lie behind the table
                    let tail = buf.len();
                    buf.extend(key(*entries));
                    let mut last = key(*entries);
                    last[at] ^= 0x80;
                    buf.extend(&last);
                    let mut wanted: Vec<usize> = (0..entries.saturating_sub(1)).take(5).map(|i| i * (m + n)).collect();
                    wanted.extend([entries.saturating_sub(2), entries.saturating_sub(1), entries / 2].map(|i| i * (m + n)));
                    wanted.extend([tail, tail + m]);
                    wanted.retain(|w| w + m <= buf.len());
                    wanted.sort();
                    wanted.dedup();
                    for w in wanted {
                        if ck.stop() {
                            return;
                        }
                        let h = [Op::Fit(tail), Op::Kv(kw, vw, w)];
                        ck.st(1);
                        ck.tr(2);
                        ck.vcase(|| show(&buf, Some(k), &h), || judge(k, &buf, &h, EXT));
                        // again from where the first lookup left the parser
                        let h = [Op::Fit(tail), Op::Kv(kw, vw, w), Op::Kv(kw, vw, w)];
                        ck.vcase(|| show(&buf, Some(k), &h), || judge(k, &buf, &h, EXT));
                    }
                }
            }
        }
    }
}

/// Histories over long buffers: a few ways to get going, then a read, window or skip of every size
/// around the powers of two, then one more operation; and terminators at every distance.
/// `visit` judges the last operation (or the whole history); `false` from it stops the enumeration.
pub fn size_histories(th: bool, mine: u8, visit: &mut dyn FnMut(&[u8], &[Op]) -> bool) {
    let mut szs: Vec<usize> = (0..40).collect();
    for e in 5..if th { 25 } else { 18 } {
        let c = 1usize << e;
        szs.extend([c - 1, c, c + 1]);
    }
    szs.extend([100, 300, 1000, 10_000, 100_000]);
    szs.sort();
    szs.dedup();
    let lens: &[usize] = if th { &[70, 300, 5000, 140_000, 1 << 24] } else { &[70, 300, 5000, 140_000] };
    for len in lens {
        let b: Vec<u8> = (0..*len).map(|i| (i * 7 + i / 251) as u8).collect();
        for pre in [&[][..], &[Op::Byte], &[Op::Fit(len / 2 + 1)], &[Op::Consume(33), Op::Fit(33)], &[Op::Skip(len - 3)], &[Op::Fit(len - 1), Op::Fit(len - 2), Op::Byte]] {
            let mut m = M::new(*len);
            for op in pre {
                m.step(&b, op);
            }
            let rem = m.rem();
            let mut all: Vec<usize> = szs.clone();
            all.extend([rem.saturating_sub(1), rem, rem + 1]);
            for n in all {
                if n > rem + 70 {
                    continue;
                }
                for op in [Op::Consume(n), Op::Dyn(n), Op::Skip(n), Op::SkipX(n), Op::Fit(n), Op::Nth(n), Op::Iter(n)] {
                    if op.class() & mine == 0 && op.class() != WIN {
                        continue;
                    }
                    let mut h = pre.to_vec();
                    h.push(op);
                    if !visit(&b, &h) {
                        return;
                    }
                    // what follows a window, a read or a skip of this size
                    for next in [Op::Byte, Op::Close, Op::U32, Op::Fit(1)] {
                        if next.class() & mine == 0 {
                            continue;
                        }
                        h.push(next);
                        if !visit(&b, &h) {
                            return;
                        }
                        h.pop();
                    }
                }
            }
        }
    }
    // fixed widths, with every number of bytes left that could matter, at the end of the buffer and
    // at the end of a window
    for n in WIDE.iter().copied() {
        let mut lefts = vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 4096, n / 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n];
        lefts.sort();
        lefts.dedup();
        for left in lefts.into_iter().filter(|l| *l < n + 3 || *l == 2 * n) {
            for (pre, extra) in [(&[][..], 0), (&[Op::Byte], 1), (&[Op::Fit(left)], 9), (&[Op::Byte, Op::Fit(left)], n + 1), (&[Op::Fit(left + 1), Op::Byte], 3 + n)] {
                let b: Vec<u8> = (0..left + extra).map(|i| (i * 5 + i / 253 + 1) as u8).collect();
                for op in [Op::Wide(n), Op::WideArr(n)] {
                    let mut h = pre.to_vec();
                    h.push(op);
                    if !visit(&b, &h) {
                        return;
                    }
                    for next in [Op::Byte, Op::Close, op] {
                        if next.class() & mine == 0 {
                            continue;
                        }
                        h.push(next);
                        if !visit(&b, &h) {
                            return;
                        }
                        h.pop();
                    }
                }
            }
        }
    }
    for dist in szs.iter().filter(|d| **d < 70_000) {
        let mut b = vec![0xaau8; *dist];
        b.extend([0x01, 0x02, 0x80]);
        for pre in [&[][..], &[Op::Fit(*dist)], &[Op::Fit(dist + 1)], &[Op::Fit(dist + 2)]] {
            let mut h = pre.to_vec();
            h.push(Op::SelfTerm(0x80));
            if !visit(&b, &h) {
                return;
            }
        }
    }
}

/// The same, judged by `verdict`.
pub fn sized(ck: &mut Ck, k: Option<PK>, mine: u8, verdict: &mut dyn FnMut(&[u8], &[Op]) -> Verdict) {
    let th = ck.thorough();
    size_histories(th, mine, &mut |b, h| {
        ck.st(1);
        ck.tr(1);
        ck.vcase(|| format!("long buffer of {} bytes, {}", b.len(), show(&b[..b.len().min(64)], k, h)), || verdict(b, h));
        !ck.stop()
    });
}

/// The sections shared by C01, C02 and C20: all histories, judged on operations of class `mine`.
pub fn parser_sections(tier: Tier, mine: u8, kinds: &'static [PK]) -> Vec<Section> {
    let th = tier == Tier::Thorough;
    let mut v = Vec::new();
    for k in kinds.iter().copied() {
        for (pn, b) in buffers(if th { 7 } else { 6 }) {
            let depth = match (th, b.len(), pn) {
                (false, 0..=5, _) => 4,
                (false, _, "count") => 4,
                (false, ..) => 3,
                (true, 0..=4, "count") => 5,
                (true, ..) => 4,
            };
            let b2 = b.clone();
            v.push(section(format!("all histories of {depth} operations, {k:?}, {pn} {}", b.len()), move |ck| {
                dfs(ck, &b2, depth, Alpha::Core, mine, &mut |ck, h| ck.vcase(|| show(&b2, Some(k), h), || judge(k, &b2, h, mine)));
            }));
        }
        for (pn, b) in buffers(if th { 6 } else { 4 }).into_iter().filter(|x| x.0 == "count" || x.0 == "small") {
            if b.len() < 2 {
                continue;
            }
            let depth = if th { 6 } else { 5 };
            let b2 = b.clone();
            v.push(section(format!("all histories of {depth} operations over the small alphabet, {k:?}, {pn} {}", b.len()), move |ck| {
                dfs(ck, &b2, depth, Alpha::Min, WIN | (mine & READ), &mut |ck, h| {
                    ck.vcase(|| show(&b2, Some(k), h), || judge(k, &b2, h, mine))
                });
            }));
        }
        for (pn, b) in buffers(if th { 9 } else { 7 }).into_iter().filter(|x| x.0 == "count" || x.0 == "zeros") {
            if b.len() < 3 {
                continue;
            }
            let b2 = b.clone();
            let (wins, reps, maxs) = if th { (6, 3, 6000) } else { (4, 2, 500) };
            v.push(section(format!("state graph, windows up to {wins}, {k:?}, {pn} {}", b.len()), move |ck| {
                bfs(ck, &b2, wins, reps, maxs, Alpha::Core, mine, &mut |ck, h| {
                    ck.vcase(|| show(&b2, Some(k), h), || judge(k, &b2, h, mine))
                });
            }));
        }
        // deep window stacks (inline storage of the window stack is exceeded)
        {
            let b2: Vec<u8> = (1..=5).collect();
            let wins = if th { 40 } else { 20 };
            v.push(section(format!("window stacks up to {wins} deep, {k:?}"), move |ck| {
                for base in [Op::Fit(5), Op::Fit(4), Op::Fit(0), Op::Consume(2)] {
                    for d in 1..wins {
                        let mut m = M::new(b2.len());
                        let mut h = vec![base];
                        m.step(&b2, &base);
                        for i in 0..d {
                            let w = if i % 6 == 5 && m.rem() > 0 { m.rem() - 1 } else { m.rem() };
                            h.push(Op::Fit(w));
                            m.step(&b2, &Op::Fit(w));
                        }
                        for op in ops(&m, &b2, Alpha::Full, mine) {
                            h.push(op);
                            ck.tr(1);
                            ck.vcase(|| show(&b2, Some(k), &h), || judge(k, &b2, &h, mine));
                            h.pop();
                        }
                    }
                }
            }));
        }
        v.push(section(format!("sizes around powers of two, {k:?}"), move |ck| sized(ck, Some(k), mine, &mut |b, h| judge(k, b, h, mine))));
        if mine & EXT != 0 {
            v.push(section(format!("keyed lookup in tables, {k:?}"), move |ck| tables(ck, k)));
        }
        for (pn, b) in long_buffers(true) {
            v.push(section(format!("long buffer {pn}, {k:?}"), move |ck| {
                let d = if b.len() > 1000 { 2 } else { 3 };
                dfs(ck, &b, d, if d == 2 { Alpha::Core } else { Alpha::Min }, mine, &mut |ck, h| {
                    ck.vcase(|| show(&b, Some(k), h), || judge(k, &b, h, mine))
                });
            }));
        }
    }
    v
}
