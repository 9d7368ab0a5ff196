//! C31: the work an operation takes grows with the size of what it handles, never exponentially
//! with the depth and never quadratically with the length.
use mcheck::catalog::{self, Visitor};
use mcheck::inputs::*;
use mcheck::*;
use num_bigint::{BigInt, BigUint};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use tedium::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
use tedium::conv::{target::ByteCounter, EncodeLength};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::CleanupResult;
use tedium::parse::error::ParseResult;
use tedium::parse::ParserExt;
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
    static TIMES: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn asked(n: usize) {
    let _ = ASKED.try_with(|x| x.set(x.get() + n as u64));
    let _ = TIMES.try_with(|x| x.set(x.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        asked(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

const SHORT: &str = "steps are not enough";
/// One step of a caller-supplied element, parser or target.
fn step() {
    STEPS.with(|x| x.set(x.get() + 1));
    if STEPS.with(|x| x.get()) > LIMIT.with(|x| x.get()) {
        LIMIT.with(|x| x.set(u64::MAX));
        panic!("{} {SHORT}", STEPS.with(|x| x.get()) - 1);
    }
}
/// The steps, bytes asked for and requests for memory of one execution.
fn cost(limit: u64, f: impl FnOnce()) -> Result<(u64, u64, u64), String> {
    STEPS.with(|x| x.set(0));
    LIMIT.with(|x| x.set(limit));
    let b = (ASKED.with(|x| x.get()), TIMES.with(|x| x.get()));
    let r = quiet(f);
    LIMIT.with(|x| x.set(u64::MAX));
    let c = (STEPS.with(|x| x.get()), ASKED.with(|x| x.get()) - b.0, TIMES.with(|x| x.get()) - b.1);
    r.map(|_| c)
}

// ---- elements that count what is done to them ------------------------------------------------

/// Its length has to be asked for.
pub struct Probe(u8);
/// Its length is static.
pub struct Fixed(u8);
macro_rules! probe {
    ($t:ident) => {
        impl Encode for $t {
            fn write_to<T: Target>(&self, b: &mut T) -> usize {
                step();
                b.push_one(self.0) + b.resolve_zero()
            }
        }
        impl Decode for $t {
            fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
                step();
                p.take_u8().map($t)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                step();
                $t(self.0)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                step();
                self.0 == o.0
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                step();
                self.0.partial_cmp(&o.0)
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                step();
                self.0.hash(h)
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                step();
                write!(f, "{}", self.0)
            }
        }
    };
}
probe!(Probe);
probe!(Fixed);
impl Estimable for Probe {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        step();
        1
    }
}
impl FixedLength for Fixed {
    const LEN: usize = 1;
}

type B = AutoBox<Node>;
#[derive(Encode, Decode, Estimable, Clone, PartialEq, PartialOrd, Hash, Debug)]
pub struct Named {
    pub a: u8,
    pub b: B,
}
#[derive(Encode, Decode, Estimable, Clone, PartialEq, PartialOrd, Hash, Debug)]
pub struct Tail {
    pub a: VPadded<B, 1>,
    pub b: u8,
}
data!(Node, u8, node, {
    0 => Leaf (pub Probe),
    1 => Static (pub Fixed),
    2 => D8 (pub Dynamic<u8, B>),
    3 => D16 (pub Dynamic<u16, B>),
    4 => D30 (pub Dynamic<u30, B>),
    5 => Seq (pub Dynamic<u30, Sequence<B>>),
    6 => Lim (pub Dynamic<u16, LimSeq<B, 4>>),
    7 => Fix (pub FixSeq<B, 1>),
    8 => Opt (pub Option<B>),
    9 => Null (pub Dynamic<u8, Nullable<B>>),
    10 => Cut (pub Tail),
    11 => Rec (pub Named),
    12 => Twice (pub Dynamic<u30, Dynamic<u8, B>>),
    13 => Bare (pub Sequence<B>),
    14 => Flag (pub u8, pub Option<Dynamic<u16, B>>),
    15 => Wide { pub a: Dynamic<u8, Probe>, pub b: Dynamic<u16, B> }
});
/// The kinds of inner nodes.
const INNER: u8 = 14;
const NAMES: [&str; INNER as usize] = ["D8", "D16", "D30", "Seq", "Lim", "Fix", "Opt", "Null", "Cut", "Rec", "Twice", "Bare", "Flag", "Wide"];
fn wrap(k: u8, x: Node) -> Node {
    let b = AutoBox::new(x);
    match k {
        0 => Node::D8(node::D8(b.into())),
        1 => Node::D16(node::D16(b.into())),
        2 => Node::D30(node::D30(b.into())),
        3 => Node::Seq(node::Seq(Sequence::from_vec(vec![b]).into())),
        4 => Node::Lim(node::Lim(LimSeq::from_vec(vec![b]).into())),
        5 => Node::Fix(node::Fix(std::iter::once(b).collect())),
        6 => Node::Opt(node::Opt(Some(b))),
        7 => Node::Null(node::Null(Dynamic::new(Nullable::from(b)))),
        8 => Node::Cut(node::Cut(Tail { a: VPadded::new(b), b: 5 })),
        9 => Node::Rec(node::Rec(Named { a: 1, b })),
        10 => Node::Twice(node::Twice(Dynamic::new(b.into()))),
        11 => Node::Bare(node::Bare(Sequence::from_vec(vec![b]))),
        12 => Node::Flag(node::Flag(3, Some(b.into()))),
        _ => Node::Wide(node::Wide { a: Probe(8).into(), b: b.into() }),
    }
}
fn branch(k: u8, v: Vec<Node>) -> Node {
    let v: Vec<B> = v.into_iter().map(AutoBox::new).collect();
    match k {
        0 => Node::Seq(node::Seq(Sequence::from_vec(v).into())),
        1 => Node::Lim(node::Lim(LimSeq::from_vec(v).into())),
        _ => Node::D30(node::D30(AutoBox::new(Node::Bare(node::Bare(Sequence::from_vec(v)))).into())),
    }
}

/// A parser that counts the calls made to it.
struct Meter<'a>(SliceParser<'a>);
struct MeterBuf<'a>(&'a [u8]);
impl<'a> From<&'a [u8]> for MeterBuf<'a> {
    fn from(b: &'a [u8]) -> Self {
        MeterBuf(b)
    }
}
impl<'a> Parser for Meter<'a> {
    type Buffer = MeterBuf<'a>;
    fn from_buffer(b: MeterBuf<'a>) -> Self {
        Meter(SliceParser::from_buffer(SliceBuffer::new(b.0)))
    }
    fn view_len(&self) -> usize {
        step();
        self.0.view_len()
    }
    fn offset(&self) -> usize {
        step();
        self.0.offset()
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        step();
        self.0.consume_byte()
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        step();
        self.0.consume(n)
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        step();
        self.0.set_fit(n)
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        step();
        self.0.test_target()
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        step();
        self.0.enforce_target()
    }
    fn cleanup(self) -> CleanupResult {
        step();
        self.0.cleanup()
    }
}
impl ParserExt for Meter<'_> {
    fn skip(&mut self, n: usize) -> ParseResult<usize> {
        step();
        ParserExt::skip(&mut self.0, n)
    }
    fn skip_exactly(&mut self, n: usize) -> ParseResult<()> {
        step();
        self.0.skip_exactly(n)
    }
}
impl Iterator for Meter<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        step();
        self.0.next()
    }
}
/// A target that counts the calls made to it.
struct Tape(Vec<u8>);
impl Target for Tape {
    fn anticipate(&mut self, _: usize) {
        step()
    }
    fn create() -> Self {
        Tape(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        step();
        self.0.push_one(b)
    }
    fn push_many<const N: usize>(&mut self, a: [u8; N]) -> usize {
        step();
        self.0.push_many(a)
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        step();
        self.0.push_all(b)
    }
    fn resolve(&mut self) {
        step()
    }
}
/// A writer that only counts.
struct Sponge;
impl std::fmt::Write for Sponge {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        black_box(s);
        Ok(())
    }
}

// ---- nested values ---------------------------------------------------------------------------

/// What is allowed for a value of this many nodes and leaves, nested this deep.
struct Room {
    /// steps of elements: some passes for each level
    steps: u64,
    /// calls of parsers and targets
    calls: u64,
    bytes: u64,
    times: u64,
}
fn room(nodes: u64, leaves: u64, depth: u64) -> Room {
    let k = nodes + 1;
    Room { steps: 12 * (leaves + 1) * (depth + 8), calls: 64 * k * (depth + 4), bytes: 4096 * k * (depth + 4), times: 32 * k * (depth + 4) }
}

/// Every operation on one value; the first that takes too much.
fn measure(x: &Node, nodes: u64, leaves: u64, depth: u64) -> Result<u64, String> {
    let r = room(nodes, leaves, depth);
    let mut n = 0;
    let mut op = |what: &str, calls: bool, f: &mut dyn FnMut()| {
        n += 1;
        let limit = if calls { r.calls } else { r.steps };
        let (_, bytes, times) = cost(limit, f).map_err(|e| format!("{what}: {e}"))?;
        if bytes > r.bytes || times > r.times {
            return Err(format!("{what} asks {times} times for memory, {bytes} bytes altogether"));
        }
        Ok::<(), String>(())
    };
    op("estimate", false, &mut || drop(black_box(Estimable::estimate(x))))?;
    op("enc_len", false, &mut || drop(black_box(x.enc_len())))?;
    let mut out = vec![];
    op("to_bytes", false, &mut || out = x.to_bytes())?;
    op("to_bytes_full", false, &mut || drop(black_box(x.to_bytes_full())))?;
    op("counting bytes", false, &mut || drop(black_box(x.write_to(&mut ByteCounter::create()))))?;
    op("encoding into a builder", false, &mut || drop(black_box(x.encode::<StrictBuilder>())))?;
    op("encoding into a segmented builder", false, &mut || drop(black_box(x.encode::<MemoBuilder>().finalize())))?;
    op("encoding into hex", false, &mut || drop(black_box(x.encode::<HexString>())))?;
    op("encoding into a hand-written target", true, &mut || drop(black_box(x.encode::<Tape>().0)))?;
    op("cloning", false, &mut || drop(black_box(x.clone())))?;
    let y = x.clone();
    op("comparing", false, &mut || drop(black_box(*x == y)))?;
    op("ordering", false, &mut || drop(black_box(x.partial_cmp(&y))))?;
    op("less", false, &mut || drop(black_box(*x <= y)))?;
    op("hashing", false, &mut || x.hash(&mut std::collections::hash_map::DefaultHasher::new()))?;
    op("printing", false, &mut || {
        use std::fmt::Write;
        write!(Sponge, "{x:?}").unwrap()
    })?;
    op("dropping", false, &mut || {
        let y = x.clone();
        drop(y)
    })?;
    let mut decode = |b: &[u8], ok: bool| {
        let say = |what: &str| format!("{what}{}", if ok { String::new() } else { format!(" {}", hexs(b)) });
        let mut good = true;
        op(&say("decoding"), false, &mut || good &= Node::try_decode::<_, ByteParser>(VecBuffer::from(b)).is_ok())?;
        op(&say("decoding with the tracing parser"), false, &mut || good &= Node::try_decode::<_, MemoParser>(VecBuffer::from(b)).is_ok())?;
        op(&say("decoding from a slice"), false, &mut || good &= Node::try_decode::<_, SliceParser>(SliceBuffer::new(b)).is_ok())?;
        op(&say("decoding with a hand-written parser"), true, &mut || good &= Node::parse(&mut Meter(SliceParser::from_buffer(SliceBuffer::new(b)))).is_ok())?;
        op(&say("discarding"), true, &mut || {
            let mut p = Meter(SliceParser::from_buffer(SliceBuffer::new(b)));
            let _ = black_box(Node::parse(&mut p).is_ok());
            let _ = black_box(p.cleanup().is_ok());
        })?;
        if ok && !good {
            return Err(format!("{} is not decoded", hexs(b)));
        }
        Ok(())
    };
    decode(&out, true)?;
    // what is wrong shows at the innermost place only
    let last = out.len() - 1;
    decode(&out[..last], false)?;
    for i in [out.len() / 2, last.saturating_sub(1), last] {
        let mut b = out.clone();
        b[i] ^= 0x55;
        decode(&b, false)?;
    }
    Ok(n)
}

fn chain(w: &[u8], depth: usize, leaf: bool) -> Node {
    let mut x = if leaf { Node::Leaf(node::Leaf(Probe(7))) } else { Node::Static(node::Static(Fixed(7))) };
    for i in (0..depth).rev() {
        x = wrap(w[i % w.len()], x);
    }
    x
}
/// All words over the kinds of inner nodes, each repeated down to the depth.
fn chains(len: usize, first: u8, depth: usize) -> Section {
    // how much the prefixes can hold
    let most = if depth > 60 { 60_000 } else { 250 };
    section(format!("values nested {depth} deep, {len} kinds in turn, {} first", NAMES[first as usize]), move |ck| {
        let mut w = vec![0; len];
        w[0] = first;
        loop {
            if most > 250 && w.iter().any(|k| matches!(k, 0 | 7 | 10)) {
                // a prefix of one byte cannot hold it
                if !next(&mut w) {
                    return;
                }
                continue;
            }
            ck.st(1);
            let leaf = w.iter().map(|x| *x as usize).sum::<usize>() % 2 == 0;
            let mut n = 0;
            let text: Vec<&str> = w.iter().map(|x| NAMES[*x as usize]).collect();
            if !ck.case(
                || format!("{} … down to {depth} levels around a {}", text.join("("), if leaf { "Probe" } else { "Fixed" }),
                || {
                    let d = (1..=depth).rev().find(|d| chain(&w, *d, leaf).estimate() < most || *d == 1).unwrap();
                    let side = (0..d).filter(|i| w[i % w.len()] == 13).count() as u64;
                    n = measure(&chain(&w, d, leaf), 2 * d as u64 + 1, 1 + side, 2 * d as u64)?;
                    Ok(())
                },
            ) || ck.stop()
            {
                return;
            }
            ck.tr(n);
            if !next(&mut w) {
                return;
            }
        }
    })
}
/// The next word, its first letter kept.
fn next(w: &mut [u8]) -> bool {
    for i in (1..w.len()).rev() {
        w[i] += 1;
        if w[i] < INNER {
            return true;
        }
        w[i] = 0;
    }
    false
}
/// All ordered trees with this many inner nodes, each of up to three children, leaves added.
fn trees(n: usize, out: &mut Vec<Vec<u8>>) {
    // preorder words over arities 0..=3 that make one tree of n nodes
    fn go(w: &mut Vec<u8>, open: usize, left: usize, out: &mut Vec<Vec<u8>>) {
        if open > left {
            return;
        }
        if left == 0 {
            if open == 0 {
                out.push(w.clone());
            }
            return;
        }
        if open == 0 {
            return;
        }
        for a in 0..=3usize {
            w.push(a as u8);
            go(w, open - 1 + a, left - 1, out);
            w.pop();
        }
    }
    go(&mut vec![], 1, n, out);
}
fn build(w: &[u8], at: &mut usize, depth: u64, deep: &mut u64, kind: u8) -> Node {
    let a = w[*at];
    *at += 1;
    *deep = (*deep).max(depth);
    if a == 0 {
        return Node::Leaf(node::Leaf(Probe(*at as u8)));
    }
    let v = (0..a).map(|_| build(w, at, depth + 1, deep, kind)).collect();
    branch(if kind == 3 { (depth % 3) as u8 } else { kind }, v)
}
fn all_trees(n: usize, kind: u8) -> Section {
    section(format!("all trees of {n} nodes, {}", ["sequences", "limited sequences", "bare sequences", "all kinds in turn"][kind as usize]), move |ck| {
        let mut v = vec![];
        trees(n, &mut v);
        for w in v {
            ck.st(1);
            let mut k = 0;
            if !ck.case(
                || format!("arities in preorder {w:?}"),
                || {
                    let mut deep = 0;
                    let x = build(&w, &mut 0, 0, &mut deep, kind);
                    k = measure(&x, 2 * n as u64, n as u64, 2 * deep)?;
                    Ok(())
                },
            ) || ck.stop()
            {
                return;
            }
            ck.tr(k);
        }
    })
}
/// Full trees, and combs: one long branch among leaves.
fn shapes(ck: &mut Ck) {
    fn full(k: u8, arity: usize, d: usize) -> Node {
        if d == 0 {
            return Node::Leaf(node::Leaf(Probe(1)));
        }
        branch(k, (0..arity).map(|_| full(k, arity, d - 1)).collect())
    }
    for k in 0..3 {
        for (arity, max) in [(2, 9), (3, 6), (4, 4)] {
            for d in 0..=max {
                let leaves = (arity as u64).pow(d as u32);
                if k == 1 && leaves * 12 > 60_000 {
                    continue;
                }
                ck.st(1);
                let mut n = 0;
                ck.case(
                    || format!("full tree of kind {k}, {arity} children, {d} levels"),
                    || {
                        n = measure(&full(k, arity, d), 3 * leaves, leaves, 2 * d as u64)?;
                        Ok(())
                    },
                );
                ck.tr(n);
            }
        }
        for arity in 2..=4usize {
            for at in 0..arity {
                for d in [4usize, 16, 40] {
                    ck.st(1);
                    let mut n = 0;
                    ck.case(
                        || format!("comb of kind {k}, {arity} children, the long branch at {at}, {d} levels"),
                        || {
                            let mut x = Node::Leaf(node::Leaf(Probe(1)));
                            for _ in 0..d {
                                let mut v: Vec<Node> = (1..arity).map(|i| Node::Leaf(node::Leaf(Probe(i as u8)))).collect();
                                v.insert(at, x);
                                x = branch(k, v);
                            }
                            n = measure(&x, (2 * arity * d) as u64, (arity * d) as u64, 2 * d as u64)?;
                            Ok(())
                        },
                    );
                    ck.tr(n);
                }
            }
        }
    }
}

// ---- long values -----------------------------------------------------------------------------

/// Runs an operation over growing sizes: memory in proportion, and an end before the watchdog's.
fn long(ck: &mut Ck, what: &str, top: u32, f: impl Fn(usize)) {
    for k in [4, 10, 14, 17, 20] {
        if k > top {
            break;
        }
        for n in [1usize << k, (1usize << k) + 1] {
            ck.st(1);
            ck.tr(1);
            let ok = ck.case(
                || format!("{what}, {n} items"),
                || {
                    let n64 = n as u64;
                    let (_, bytes, _) = cost(128 * n64 + 4096, || f(n))?;
                    if bytes > 2048 * n64 + (1 << 21) {
                        return Err(format!("{bytes} bytes of memory are asked for altogether"));
                    }
                    Ok(())
                },
            );
            if !ok || ck.stop() {
                return;
            }
        }
    }
}
fn parsers(ck: &mut Ck, what: &str, top: u32, b: impl Fn(usize) -> Vec<u8>, run: impl Fn(u8, &[u8], usize)) {
    for k in 0..3u8 {
        long(ck, &format!("{what}, {} parser", ["byte", "tracing", "slice"][k as usize]), top, |n| run(k, &b(n), n));
    }
}
macro_rules! with_parser {
    ($ck:expr, $what:expr, $top:expr, $n:ident => $b:expr, |$p:ident| $body:expr) => {
        parsers($ck, $what, $top, |$n| $b, |k, b, $n| match k {
            0 => {
                let mut $p = ByteParser::from_buffer(VecBuffer::from(b));
                $body;
                let _ = black_box($p.cleanup().is_ok());
            }
            1 => {
                let mut $p = MemoParser::from_buffer(VecBuffer::from(b));
                $body;
                let _ = black_box($p.cleanup().is_ok());
            }
            _ => {
                let mut $p = SliceParser::from_buffer(SliceBuffer::new(b));
                $body;
                let _ = black_box($p.cleanup().is_ok());
            }
        })
    };
}
fn flat<T: Encode + Decode + Estimable>(ck: &mut Ck, what: &str, top: u32, one: &'static [u8]) {
    with_parser!(ck, &format!("decoding a sequence of {what}"), top, n => one.repeat(n), |p| {
        let s = Sequence::<T>::parse(&mut p).unwrap();
        assert_eq!(s.len(), n);
        black_box(s);
    });
    with_parser!(ck, &format!("decoding {what} one after the other in a window"), top, n => one.repeat(n), |p| {
        p.set_fit(one.len() * n).unwrap();
        for _ in 0..n {
            black_box(T::parse(&mut p).is_ok());
        }
        p.enforce_target().unwrap()
    });
    long(ck, &format!("encoding a sequence of {what}"), top, |n| {
        let b = one.repeat(n);
        let s = Sequence::<T>::try_decode::<_, ByteParser>(VecBuffer::from(&b[..])).unwrap();
        assert_eq!(s.enc_len(), b.len());
        assert_eq!(s.estimate(), b.len());
        assert!(s.to_bytes() == b);
        black_box(s.to_bytes_full());
        black_box(s.encode::<StrictBuilder>());
        black_box(s.encode::<MemoBuilder>().finalize());
        black_box(s.encode::<HexString>());
        black_box(Dynamic::<u30, _>::new(s).to_bytes());
    });
}
fn decodes(ck: &mut Ck, top: u32) {
    flat::<Probe>(ck, "counting elements", top, &[1]);
    flat::<Fixed>(ck, "counting elements of static length", top, &[1]);
    flat::<u8>(ck, "bytes", top, &[1]);
    flat::<u64>(ck, "u64", top.min(17), &[1, 2, 3, 4, 5, 6, 7, 8]);
    flat::<bool>(ck, "booleans", top, &[0xff]);
    flat::<u30>(ck, "u30", top, &[0, 0, 0, 9]);
    flat::<f64>(ck, "f64", top.min(17), &[0; 8]);
    flat::<Option<u8>>(ck, "options", top, &[0xff, 3]);
    flat::<N>(ck, "naturals", top.min(17), &[0x81, 1]);
    flat::<Z>(ck, "integers", top.min(17), &[0x81, 1]);
}
fn decodes2(ck: &mut Ck, top: u32) {
    flat::<Dynamic<u8, Bytes>>(ck, "prefixed bytes", top.min(17), &[2, 7, 8]);
    flat::<Dynamic<u30, Bytes>>(ck, "empty prefixed bytes", top.min(17), &[0, 0, 0, 0]);
    flat::<Dynamic<u16, String>>(ck, "prefixed texts", top.min(17), &[0, 2, 65, 66]);
    flat::<FixedBytes<4>>(ck, "fixed-width bytes", top, &[1, 2, 3, 4]);
    flat::<Padded<u8, 2>>(ck, "padded bytes", top, &[1, 0, 0]);
    flat::<FixSeq<u8, 3>>(ck, "triples", top.min(17), &[1, 2, 3]);
    flat::<Dynamic<u8, LimSeq<u8, 3>>>(ck, "limited sequences", top.min(17), &[2, 1, 2]);
    flat::<Dynamic<u8, Nullable<u8>>>(ck, "nullable bytes", top, &[1, 2]);
    flat::<Dynamic<u8, Sequence<Dynamic<u8, Sequence<u8>>>>>(ck, "sequences of sequences", top.min(17), &[4, 1, 1, 1, 2]);
    flat::<Node>(ck, "unions", top.min(17), &[4, 0, 0, 0, 2, 1, 9]);
}
fn one_value(ck: &mut Ck, top: u32) {
    fn whole<T: Encode + Decode + Estimable>(ck: &mut Ck, what: &str, top: u32, b: impl Fn(usize) -> Vec<u8> + Copy) {
        with_parser!(ck, &format!("decoding {what}"), top, n => b(n), |p| {
            let x = T::parse(&mut p).unwrap();
            black_box(x);
        });
        long(ck, &format!("encoding {what}"), top, |n| {
            let x = T::try_decode::<_, ByteParser>(VecBuffer::from(b(n))).unwrap();
            let k = x.to_bytes().len();
            assert_eq!(x.enc_len(), k);
            assert_eq!(x.estimate(), k);
            black_box(x.encode::<MemoBuilder>().finalize());
        });
    }
    whole::<Bytes>(ck, "bytes", top, |n| vec![7; n]);
    whole::<Vec<u8>>(ck, "a vector", top, |n| vec![7; n]);
    whole::<String>(ck, "a text", top, |n| vec![65; n]);
    whole::<String>(ck, "a text of invalid bytes", top, |n| vec![0xff; n]);
    whole::<Dynamic<u30, Bytes>>(ck, "prefixed bytes", top, |n| [&(n as u32).to_be_bytes()[..], &vec![7; n]].concat());
    whole::<Dynamic<u30, Sequence<Probe>>>(ck, "a prefixed sequence", top, |n| [&(n as u32).to_be_bytes()[..], &vec![7; n]].concat());
    whole::<Option<Bytes>>(ck, "optional bytes", top, |n| [&[0xff][..], &vec![7; n]].concat());
    whole::<Nullable<Bytes>>(ck, "nullable bytes", top, |n| vec![7; n]);
    whole::<VPadded<Bytes, 1>>(ck, "virtually padded bytes", top, |n| vec![7; n]);
    whole::<LimSeq<Probe, 1_100_000>>(ck, "a limited sequence", top, |n| vec![7; n]);
    whole::<AutoBox<Bytes>>(ck, "boxed bytes", top, |n| vec![7; n]);
    whole::<N>(ck, "a natural", top, |n| [&vec![0x81; n - 1][..], &[1]].concat());
    whole::<Z>(ck, "an integer", top, |n| [&vec![0xc1; n - 1][..], &[1]].concat());
    long(ck, "a number without end", top, |n| {
        assert!(N::try_decode::<_, ByteParser>(VecBuffer::from(vec![0x81; n])).is_err());
        assert!(Z::try_decode::<_, SliceParser>(SliceBuffer::new(&vec![0x81; n])).is_err());
        assert!(Z::try_decode::<_, MemoParser>(VecBuffer::from(vec![0x81; n])).is_err());
    });
    long(ck, "numbers as arithmetic values", top.min(17), |n| {
        let x = N(BigUint::from(1u8) << n);
        let y = Z(-(BigInt::from(1u8) << n));
        assert_eq!(x.to_bytes().len(), x.estimate());
        assert_eq!(y.to_bytes().len(), y.estimate());
    });
}
fn reads(ck: &mut Ck, top: u32) {
    with_parser!(ck, "single bytes", top, n => vec![1; n], |p| for _ in 0..n {
        black_box(p.take_u8().unwrap());
    });
    with_parser!(ck, "iterating", top, n => vec![1; n], |p| {
        assert_eq!(p.by_ref().count(), n);
    });
    with_parser!(ck, "reads of no bytes", top, n => vec![1; n], |p| for _ in 0..n {
        black_box(p.consume(0).unwrap().len());
        black_box(p.remainder());
    });
    with_parser!(ck, "skips", top, n => vec![1; n], |p| for _ in 0..n / 2 {
        ParserExt::skip(&mut p, 1).unwrap();
        p.skip_exactly(1).unwrap();
    });
    with_parser!(ck, "windows one after the other", top, n => vec![1; n], |p| for _ in 0..n {
        p.set_fit(1).unwrap();
        p.take_u8().unwrap();
        assert!(p.test_target().unwrap());
        p.enforce_target().unwrap();
    });
    with_parser!(ck, "windows within windows", top, n => vec![1; n], |p| {
        for i in 0..n {
            p.set_fit(n - i).unwrap();
            p.take_u8().unwrap();
        }
        for _ in 0..n {
            p.enforce_target().unwrap();
        }
    });
    with_parser!(ck, "discarding many windows", top, n => vec![1; n], |p| for i in 0..n {
        p.set_fit(n - i).unwrap();
    });
    with_parser!(ck, "discarding many windows with leftovers", top, n => vec![1; 2 * n], |p| for i in 0..n {
        p.set_fit(2 * n - 1 - i).unwrap();
    });
    with_parser!(ck, "owned reads", top.min(17), n => vec![1; n], |p| for _ in 0..n {
        black_box(p.take_dynamic(1).unwrap());
    });
    with_parser!(ck, "self-terminating reads", top.min(17), n => vec![1; n], |p| for _ in 0..n {
        black_box(p.take_self_terminating(|b| b == 1).unwrap());
    });
    with_parser!(ck, "one self-terminating read", top, n => [&vec![0; n - 1][..], &[1]].concat(), |p| {
        assert_eq!(p.take_self_terminating(|b| b == 1).unwrap().len(), n);
    });
    with_parser!(ck, "a keyed lookup at the end", top, n => [&vec![0; 3 * n][..], &[1, 7, 8]].concat(), |p| {
        assert_eq!(p.fast_kv_search::<u8, [u8; 2], _, 1, 2>(&[1], |v| v).unwrap(), Some([7, 8]));
    });
    with_parser!(ck, "a keyed lookup of what is not there", top, n => vec![0; 3 * n], |p| {
        assert_eq!(p.fast_kv_search::<u8, [u8; 2], _, 1, 2>(&[1], |v| v).unwrap(), None);
    });
    with_parser!(ck, "skipped payloads", top, n => vec![1; 2 * n], |p| for _ in 0..n {
        p.skip_dynamic::<u8>().unwrap();
    });
    with_parser!(ck, "prefixes", top, n => [2, 1].repeat(n), |p| {
        p.process_prefix::<u8>().unwrap();
        black_box(p.take_u8().unwrap());
    });
    with_parser!(ck, "tags", top, n => vec![3; n], |p| for _ in 0..n {
        black_box(p.take_tagword::<u8, u8, _>([1, 2, 3]).unwrap());
    });
}
fn writes(ck: &mut Ck, top: u32) {
    fn target<T: Target>(ck: &mut Ck, what: &str, top: u32, done: impl Fn(T)) {
        long(ck, &format!("single bytes into {what}"), top, |n| {
            let mut t = T::create();
            for _ in 0..n {
                t.push_one(1);
            }
            done(t)
        });
        long(ck, &format!("marked single bytes into {what}"), top, |n| {
            let mut t = T::create();
            for _ in 0..n {
                t.push_one(1);
                t.resolve();
            }
            done(t)
        });
        long(ck, &format!("marks alone into {what}"), top, |n| {
            let mut t = T::create();
            for _ in 0..n {
                t.resolve_zero();
            }
            t.push_all(&[1]);
            done(t)
        });
        long(ck, &format!("arrays and slices into {what}"), top, |n| {
            let mut t = T::create();
            for _ in 0..n {
                t.push_many([1, 2]);
                t.push_all(&[3]);
                t.push_all(&[]);
            }
            done(t)
        });
        long(ck, &format!("announced bytes into {what}"), top, |n| {
            let mut t = T::create();
            for _ in 0..n {
                t.anticipate(1);
                t.push_one(1);
                t.resolve();
            }
            done(t)
        });
        long(ck, &format!("one long slice into {what}"), top, |n| {
            let mut t = T::create();
            t.push_all(&vec![1; n]);
            done(t)
        });
    }
    target::<Vec<u8>>(ck, "a vector", top, |t| assert!(!t.is_empty()));
    target::<ByteCounter>(ck, "the byte counter", top, drop);
    target::<HexString>(ck, "hex", top, |t| assert!(!t.to_hex().is_empty()));
    target::<StrictBuilder>(ck, "a builder", top, |t| {
        assert!(t.len() > 0 && !t.is_empty());
        assert!(!t.clone().into_hex().is_empty());
        assert!(!t.into_vec().is_empty());
    });
    target::<MemoBuilder>(ck, "a segmented builder", top, |t| {
        use std::fmt::Write;
        assert!(t.len() > 0 && !t.is_empty());
        write!(Sponge, "{t}{t:?}").unwrap();
        let u = t.clone();
        assert!(u == t && u <= t);
        let f = t.finalize();
        write!(Sponge, "{f}").unwrap();
        assert!(!u.into_hex().is_empty());
    });
    long(ck, "the length of a segmented builder after every byte", top, |n| {
        let mut t = MemoBuilder::new();
        for _ in 0..n {
            t.push_one(1);
            t.resolve();
            black_box((t.len(), t.is_empty()));
        }
    });
    long(ck, "writing into a segmented builder", top, |n| {
        use std::io::Write;
        let mut t = MemoBuilder::new();
        for _ in 0..n {
            t.write_all(&[1]).unwrap();
            t.flush().unwrap();
        }
        assert_eq!(t.len(), n);
    });
}
fn containers(ck: &mut Ck, top: u32) {
    long(ck, "hex texts", top, |n| {
        let s = "0f".repeat(n);
        let h = HexString::from_hex(&s).unwrap();
        assert_eq!(h.len(), n);
        assert!(h.eq_hex(&s) && h.to_hex() == s && format!("{h}") == s);
        assert!(HexString::from_hex(s.clone() + "0x").is_err() && HexString::from_hex(s.clone() + "0").is_err());
        let mut t = HexString::new();
        for b in &h {
            t.extend([*b]);
        }
        assert!(t == h && t.into_iter().collect::<HexString>() == h);
    });
    long(ck, "bytes one by one", top, |n| {
        let mut b = Bytes::new();
        for _ in 0..n {
            b.extend([1]);
        }
        assert!(b.iter().copied().collect::<Bytes>() == b);
        assert_eq!(b.into_iter().count(), n);
    });
    long(ck, "elements one by one into a sequence", top, |n| {
        let mut b = Sequence::<Probe>::new();
        for _ in 0..n {
            b.extend([Probe(1)]);
        }
        let c = b.clone();
        assert!(b == c && b <= c);
        assert_eq!(c.into_iter().map(|x| x).collect::<Sequence<Probe>>().len(), n);
    });
    long(ck, "elements one by one into a limited sequence", top.min(14), |n| {
        let mut b = LimSeq::<Probe, 20_000>::new();
        for _ in 0..n {
            b.extend([Probe(1)]);
        }
        let c = b.clone();
        assert!(b == c && b <= c);
        let d: LimSeq<Probe, 20_000> = c.into_iter().collect();
        assert_eq!(d.len(), n);
        assert_eq!(LimSeq::<Probe, 20_000>::from_vec(d.into_vec()).len(), n);
        assert!(std::panic::catch_unwind(|| (0..30_000).map(|_| 1u8).collect::<LimSeq<u8, 20_000>>()).is_err());
    });
    long(ck, "a fixed sequence", 14, |n| {
        let n = n.min(16384);
        if n == 16384 {
            let b: FixSeq<Probe, 16384> = (0..n).map(|_| Probe(1)).collect();
            let c = b.clone();
            assert!(b == c);
            assert_eq!(c.to_bytes().len(), n);
        }
    });
}

/// Every catalogued type over its tailored inputs: calls and memory in proportion to the input.
struct V(Vec<Section>, bool);
fn typed<T: Reflect>(name: &'static str, th: bool) -> Section {
    section(format!("work of decoding {name}"), move |ck| {
        let s = T::sch();
        let seeds: Vec<Vec<u8>> = vals(&s, Dom { lvl: 1, long: true, cap: 60, depth: 3 }).iter().map(|v| encv(&s, v)).collect();
        let ins = inputs(&s, &InBounds { words: if th { 30000 } else { 2000 }, seeds: if th { 100 } else { 30 }, positions: if th { 40 } else { 12 }, full_bytes: th, two_bytes: false }, &seeds);
        for b in &ins {
            ck.st(1);
            let mut enc = false;
            let n = b.len() as u64;
            ck.case(
                || hexs(b),
                || {
                    let mut x = None;
                    let (_, bytes, times) = cost(200 * (n + 8), || x = T::parse(&mut Meter(SliceParser::from_buffer(SliceBuffer::new(b)))).ok())?;
                    if bytes > 2048 * (n + 32) + DECLARED || times > 64 * (n + 8) {
                        return Err(format!("decoding asks {times} times for memory, {bytes} bytes altogether"));
                    }
                    if let Some(x) = x {
                        enc = true;
                        let mut k = 0;
                        let (_, bytes, times) = match cost(200 * (n + 64), || k = x.encode::<Tape>().0.len()) {
                            // a replaced text may have outgrown its prefix, which is for C10 to judge
                            Err(e) if !e.contains(SHORT) => (0, 0, 0),
                            r => r?,
                        };
                        if bytes > 4096 * (k as u64 + 32) || times > 64 * (k as u64 + 8) {
                            return Err(format!("encoding asks {times} times for memory, {bytes} bytes altogether"));
                        }
                    }
                    Ok(())
                },
            );
            ck.tr(1 + enc as u64);
            if ck.stop() {
                return;
            }
        }
    })
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        self.0.push(typed::<T>(name, self.1));
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        self.0.push(typed::<T>(name, self.1));
    }
}
/// What a bounded type may reserve for its declared limit.
const DECLARED: u64 = 1 << 20;

fn main() {
    run(
        Spec {
            prop: "C31",
            explanation: "States = nested values, trees, growing runs and decoder inputs; a transition = one operation on one of them, executed on the real code with counting elements, parser, target and allocator, stopped at the first step above the bound for its size and depth.",
            assumptions: &["the bounds (12 x leaves x depth steps, 64 x nodes x depth calls, 4 KiB x nodes x depth of memory requested; 128 steps and 2 KiB per item on long runs) separate linear passes per level from exponential growth, not one linear pass from another", "a quadratic run of 2^20 items exceeds the watchdog's 30 s"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = V(vec![], th);
            for f in 0..INNER {
                for len in 1..=if th { 5 } else { 3 } {
                    v.0.push(chains(len, f, if th { 40 } else { 28 }));
                }
                for len in 1..=if th { 3 } else { 2 } {
                    v.0.push(chains(len, f, if th { 240 } else { 120 }));
                }
            }
            for n in 1..=if th { 11 } else { 8 } {
                for k in 0..4 {
                    v.0.push(all_trees(n, k));
                }
            }
            v.0.push(section("full trees and combs", shapes));
            let top = 20;
            v.0.push(section("long sequences of scalars", move |ck| decodes(ck, top)));
            v.0.push(section("long sequences of compounds", move |ck| decodes2(ck, top)));
            v.0.push(section("long single values", move |ck| one_value(ck, top)));
            v.0.push(section("long runs of parser operations", move |ck| reads(ck, top)));
            v.0.push(section("long runs of writes", move |ck| writes(ck, top)));
            v.0.push(section("long containers", move |ck| containers(ck, top)));
            catalog::all(&mut v);
            v.0
        },
    )
}
