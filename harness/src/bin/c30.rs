//! C30: memory safety and ownership.  The same sections run twice: natively, compiled with
//! AddressSanitizer and with a balance of allocated memory kept for every case, and, over smaller
//! domains, in Miri, which reports every kind of undefined behaviour and every leak.
use mcheck::catalog::{self, Visitor};
use mcheck::engine::*;
use mcheck::inputs::*;
use mcheck::pmodel::*;
use mcheck::reflect::*;
use mcheck::schema::*;
use num_bigint::{BigInt, BigUint};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::convert::{TryFrom, TryInto};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tedium::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
use tedium::conv::len::{Estimable, FixedLength};
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::ParseResult;
use tedium::parse::{ParserExt, TryIntoParser};
use tedium::seq::{fix::FixSeq, lim::LimSeq, Sequence};
use tedium::*;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BOMBS: Cell<isize> = const { Cell::new(0) };
    static FUSE: Cell<isize> = const { Cell::new(-1) };
    static NOT_TEXT: Cell<bool> = const { Cell::new(false) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as isize));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as isize));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + n as isize - l.size() as isize));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs one case; afterwards everything it allocated must be free again and every element dropped.
/// Whether the library panicked or gave the right answer is for the other properties to say.
fn clean(ck: &mut Ck, desc: impl FnOnce() -> String, f: impl Fn()) -> bool {
    ck.st(1);
    ck.tr(1);
    ck.case(desc, || {
        let once = || {
            forget_panic();
            drop(take_captured());
            let before = (LIVE.with(|x| x.get()), BOMBS.with(|x| x.get()));
            let r = catch_unwind(AssertUnwindSafe(&f));
            drop(r);
            forget_panic();
            drop(take_captured());
            if NOT_TEXT.with(|x| x.replace(false)) {
                return (0, isize::MAX);
            }
            (LIVE.with(|x| x.get()) - before.0, BOMBS.with(|x| x.get()) - before.1)
        };
        let mut d = once();
        if d.0 != 0 {
            // what is set up once and for all
            d = once();
        }
        if d.1 == isize::MAX {
            return Err("a text that is not UTF-8 is handed out".into());
        }
        if d.1 > 0 {
            return Err(format!("{} elements are never dropped", d.1));
        }
        if d.1 < 0 {
            return Err(format!("{} elements are dropped more than once", -d.1));
        }
        if d.0 != 0 {
            return Err(format!("the memory in use changes by {} bytes", d.0));
        }
        Ok(())
    })
}

/// Looks at a text that a safe call returned.
fn text_ok(s: impl AsRef<str>) -> usize {
    let s = s.as_ref();
    if std::str::from_utf8(black_box(s.as_bytes())).is_err() {
        NOT_TEXT.with(|x| x.set(true));
    }
    s.len()
}

fn dec<T: Decode>(b: &[u8]) -> Result<T, tedium::conv::error::DecodeError> {
    T::try_decode::<_, ByteParser>(VecBuffer::from(b))
}

fn shown<E: std::error::Error>(e: &E) {
    text_ok(format!("{e}{e:?}"));
    if tiny().is_none() {
        black_box(format!("{e:#?}").len());
    }
    let mut c = e.source();
    while let Some(x) = c {
        black_box(format!("{x}").len());
        c = x.source();
    }
}

// ---- parser histories ---------------------------------------------------------------------

const KINDS: [PK; 3] = [PK::Byte, PK::Memo, PK::Slice];

fn histories(k: PK, b: Vec<u8>, depth: usize) -> Section {
    section(format!("{k:?} parser histories, {}", hexs(&b)), move |ck| {
        dfs(ck, &b, depth, Alpha::Min, 7, &mut |ck, h| {
            ck.st(0);
            clean(ck, || show(&b, Some(k), h), || drop(run_kind(k, &b, h)))
        });
    })
}
fn graph(k: PK, b: Vec<u8>, wins: usize, maxs: usize) -> Section {
    section(format!("{k:?} parser state graph, windows up to {wins}, {}", hexs(&b)), move |ck| {
        bfs(ck, &b, wins, 1, maxs, Alpha::Min, 7, &mut |ck, h| clean(ck, || show(&b, Some(k), h), || drop(run_kind(k, &b, h))));
    })
}
/// Discarding a parser, its leftovers, and the conversions into parsers.
fn discard(ck: &mut Ck) {
    use tedium::parse::cleanup::*;
    let max = if tiny().is_some() { 4 } else { 12 };
    for n in 0..=max {
        let b: Vec<u8> = (1..=n as u8).collect();
        for pre in 0..=n {
            for w in 0..=(n - pre) {
                for eat in 0..=w {
                    fn run<P: Parser>(mut p: P, pre: usize, w: usize, eat: usize) {
                        let _ = p.take_dynamic(pre);
                        let _ = p.set_fit(w);
                        let _ = p.consume(eat).map(|x| black_box(x.to_vec()));
                        if pre % 2 == 1 {
                            let _ = p.enforce_target();
                        }
                        black_box(format!("{:?}", p.cleanup()));
                    }
                    clean(ck, || format!("discarding after {pre} of {n} bytes and {eat} of a window of {w}"), || {
                        run(ByteParser::from_buffer(VecBuffer::from(&b[..])), pre, w, eat);
                        run(MemoParser::from_buffer(VecBuffer::from(b.clone())), pre, w, eat);
                        run(SliceParser::from_buffer(SliceBuffer::new(&b)), pre, w, eat);
                    });
                }
            }
        }
        clean(ck, || format!("iterating over {n} bytes"), || {
            let p: ByteParser = VecBuffer::from(&b[..]).try_into_parser().ok().unwrap();
            black_box(p.collect::<Vec<u8>>());
            let p: MemoParser = VecBuffer::from(&b[..]).try_into_parser().ok().unwrap();
            black_box(p.take(n / 2).collect::<Vec<u8>>());
            let p: SliceParser = SliceBuffer::new(&b).try_into_parser().ok().unwrap();
            black_box(p.skip(1).step_by(2).collect::<Vec<u8>>());
        });
    }
    let _ = std::marker::PhantomData::<CleanupResult>;
}

// ---- every codec type ---------------------------------------------------------------------

fn decode_all<T: Reflect>(b: &[u8]) {
    match dec::<T>(b) {
        Ok(x) => {
            black_box(x.to_bytes());
        }
        Err(e) => shown(&e),
    }
    macro_rules! one {
        ($p:expr) => {{
            let mut p = $p;
            match T::parse(&mut p) {
                Ok(x) => drop(black_box(x)),
                Err(e) => shown(&e),
            }
        }};
    }
    one!(MemoParser::from_buffer(VecBuffer::from(b)));
    one!(SliceParser::from_buffer(SliceBuffer::new(b)));
}
fn encode_all<T: Reflect>(v: &Val) {
    let x = T::make(v);
    let y = x.clone();
    let b = x.to_bytes();
    black_box(x.encode::<StrictBuilder>().into_vec());
    let m = x.encode::<MemoBuilder>();
    black_box(format!("{m:?}"));
    black_box(m.clone().into_hex());
    black_box(m.finalize());
    black_box(x.write_to(&mut std::io::sink()));
    let h = x.encode::<HexString>();
    black_box(h.to_hex());
    drop(x);
    black_box(y.write_to(&mut Vec::with_capacity(1)) == b.len());
}
fn values<T: Reflect>(name: &'static str, more: fn(T)) -> Section {
    section(format!("values of {name}"), move |ck| {
        let s = T::sch();
        let d = if tiny().is_some() { Dom { lvl: 0, long: false, cap: 6, depth: 2 } } else { Dom { lvl: 1, long: true, cap: if ck.thorough() { 4000 } else { 600 }, depth: 3 } };
        let vs = vals(&s, d);
        let small: Vec<&Val> = vs.iter().filter(|v| tiny().is_none() || encv(&s, v).len() < 200).collect();
        for (i, v) in small.iter().enumerate() {
            // the interpreter sees the simplest and the largest
            if tiny().is_some() && !ck.thorough() && i > 0 && i + 1 < small.len() {
                continue;
            }
            clean(ck, || format!("{name} {}", vshow(v)), || {
                encode_all::<T>(v);
                more(T::make(v));
            });
        }
    })
}
fn words<T: Reflect>(name: &'static str) -> Section {
    section(format!("decoding {name}"), move |ck| {
        let s = T::sch();
        let small = tiny().is_some();
        let d = if small { Dom { lvl: 0, long: false, cap: 4, depth: 2 } } else { Dom { lvl: 1, long: true, cap: 60, depth: 3 } };
        let seeds: Vec<Vec<u8>> = vals(&s, d).iter().map(|v| encv(&s, v)).filter(|e| !small || e.len() < 200).collect();
        let seeds = if small && !ck.thorough() { seeds.into_iter().rev().take(1).collect() } else { seeds };
        let seeds: Vec<Vec<u8>> = seeds.into_iter().take(if small { 2 } else { 60 }).collect();
        let ins = if small {
            // the encodings, cut anywhere near their ends, and one byte too many
            let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![1, 0x80]];
            for e in &seeds {
                v.push(e.clone());
                for k in [e.len().wrapping_sub(1), e.len() / 2] {
                    if k < e.len() {
                        v.push(e[..k].to_vec());
                    }
                }
                v.push(e.iter().copied().chain([7]).collect());
            }
            v
        } else {
            {
            let th = ck.thorough();
            inputs(&s, &InBounds { words: if th { 30000 } else { 4000 }, seeds: if th { 100 } else { 40 }, positions: if th { 40 } else { 16 }, full_bytes: th, two_bytes: false }, &seeds)
        }
        };
        for b in &ins {
            clean(ck, || format!("decode {name} from {}", hexs(b)), || decode_all::<T>(b));
        }
    })
}
struct V(Vec<Section>);
fn lens<T: Reflect + Estimable + std::fmt::Debug>(x: T) {
    black_box((x.enc_len(), x.estimate(), x.to_bytes_full().len(), format!("{x:?}{x:#?}").len()));
}
impl Visitor for V {
    fn visit<T: Reflect + Estimable + std::fmt::Debug>(&mut self, name: &'static str) {
        self.0.push(values::<T>(name, lens::<T>));
        self.0.push(words::<T>(name));
    }
    fn visit_noest<T: Reflect>(&mut self, name: &'static str) {
        self.0.push(values::<T>(name, drop));
        self.0.push(words::<T>(name));
    }
}

// ---- elements that own memory and fail ----------------------------------------------------

/// Owns memory, is counted, and panics at the call at which the fuse has burnt down.
struct Bomb(Box<u8>);
fn burn() {
    FUSE.with(|f| {
        if f.get() == 0 {
            f.set(-1);
            panic!("planned");
        }
        if f.get() > 0 {
            f.set(f.get() - 1)
        }
    })
}
impl Bomb {
    fn new(x: u8) -> Self {
        burn();
        BOMBS.with(|b| b.set(b.get() + 1));
        Bomb(Box::new(x))
    }
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        Bomb::new(*self.0)
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        // reads the element, which must still be there
        assert!(*self.0 < 200, "a dead element");
        *self.0 = 250;
        BOMBS.with(|b| b.set(b.get() - 1));
    }
}
impl PartialEq for Bomb {
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.0 == o.0
    }
}
impl std::fmt::Debug for Bomb {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        burn();
        write!(f, "{}", self.0)
    }
}
impl Encode for Bomb {
    fn write_to<U: Target>(&self, u: &mut U) -> usize {
        burn();
        self.0.write_to(u)
    }
}
impl Decode for Bomb {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        burn();
        let x = p.take_u8()?;
        if x >= 200 {
            return Err(tedium::parse::error::ParseError::Token(tedium::parse::error::TokenError::InvalidBoolean(x)));
        }
        Ok(Bomb::new(x))
    }
}
impl FixedLength for Bomb {
    const LEN: usize = 1;
}
/// Yields its elements and panics when the fuse has burnt down; its size hint may be off.
struct Fed(std::vec::IntoIter<u8>, u8);
impl Iterator for Fed {
    type Item = Bomb;
    fn next(&mut self) -> Option<Bomb> {
        self.0.next().map(Bomb::new)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            _ => (0, self.0.size_hint().1.map(|h| h + 3)),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Push,
    Extend(u8, u8),
    Collect(u8, u8),
    FromSlice(u8),
    FromVec(u8),
    Clone,
    CloneFrom,
    IntoVec,
    IntoIter(u8),
    Show,
    Eq,
    Code(u8),
    Swap,
    Boxes,
}
trait Holder: Clone + PartialEq + std::fmt::Debug + Extend<Bomb> + std::iter::FromIterator<Bomb> + IntoIterator<Item = Bomb> + Encode + Decode + Estimable + 'static {
    fn fresh() -> Self;
    fn push1(&mut self, b: Bomb);
    fn slice(b: &[Bomb]) -> Option<Self>;
    fn vec(b: Vec<Bomb>) -> Option<Self>;
    fn out(self) -> Vec<Bomb>;
    fn muts(&mut self) -> &mut [Bomb];
}
impl Holder for Sequence<Bomb> {
    fn fresh() -> Self {
        Sequence::new()
    }
    fn push1(&mut self, b: Bomb) {
        self.extend(Some(b))
    }
    fn slice(b: &[Bomb]) -> Option<Self> {
        Some(b.iter().cloned().collect())
    }
    fn vec(b: Vec<Bomb>) -> Option<Self> {
        Some(b.into())
    }
    fn out(self) -> Vec<Bomb> {
        self.into()
    }
    fn muts(&mut self) -> &mut [Bomb] {
        self.as_mut_slice()
    }
}
impl<const W: usize> Holder for LimSeq<Bomb, W> {
    fn fresh() -> Self {
        LimSeq::new()
    }
    fn push1(&mut self, b: Bomb) {
        self.extend(Some(b))
    }
    fn slice(b: &[Bomb]) -> Option<Self> {
        Self::try_from(b).map_err(|e| shown(&e)).ok()
    }
    fn vec(b: Vec<Bomb>) -> Option<Self> {
        Self::try_from(b).map_err(|e| shown(&e)).ok()
    }
    fn out(self) -> Vec<Bomb> {
        self.into_vec()
    }
    fn muts(&mut self) -> &mut [Bomb] {
        self
    }
}
impl<const W: usize> Holder for FixSeq<Bomb, W> {
    fn fresh() -> Self {
        FixSeq::new()
    }
    fn push1(&mut self, b: Bomb) {
        self.extend(Some(b))
    }
    fn slice(b: &[Bomb]) -> Option<Self> {
        Self::try_from(b).map_err(|e| shown(&e)).ok()
    }
    fn vec(b: Vec<Bomb>) -> Option<Self> {
        Self::try_from(b).map_err(|e| shown(&e)).ok()
    }
    fn out(self) -> Vec<Bomb> {
        self.into()
    }
    fn muts(&mut self) -> &mut [Bomb] {
        self
    }
}
fn bombs(n: u8) -> Vec<Bomb> {
    (0..n).map(Bomb::new).collect()
}
fn step<H: Holder>(s: &mut H, op: Do) {
    match op {
        Do::Push => s.push1(Bomb::new(9)),
        Do::Extend(n, hint) => s.extend(Fed((0..n).collect::<Vec<u8>>().into_iter(), hint)),
        Do::Collect(n, hint) => *s = Fed((0..n).collect::<Vec<u8>>().into_iter(), hint).collect(),
        Do::FromSlice(n) => {
            let v = bombs(n);
            if let Some(x) = H::slice(&v) {
                *s = x
            }
        }
        Do::FromVec(n) => {
            if let Some(x) = H::vec(bombs(n)) {
                *s = x
            }
        }
        Do::Clone => *s = s.clone(),
        Do::CloneFrom => {
            let o = s.clone();
            s.clone_from(&o);
            let mut t = H::fresh();
            t.clone_from(s);
        }
        Do::IntoVec => {
            let v = std::mem::replace(s, H::fresh()).out();
            if let Some(x) = H::vec(v) {
                *s = x
            }
        }
        Do::IntoIter(k) => {
            let o = s.clone();
            let mut it = o.into_iter();
            for _ in 0..k {
                black_box(it.next());
            }
        }
        Do::Show => drop(black_box(format!("{s:?}"))),
        Do::Eq => {
            let o = s.clone();
            black_box(o == *s);
        }
        Do::Code(k) => {
            let mut w: Vec<u8> = s.to_bytes();
            black_box(s.enc_len() + s.estimate());
            w.truncate(w.len().saturating_sub(k as usize));
            if k == 2 {
                w.extend([3, 251, 4]);
            }
            match dec::<H>(&w[..]) {
                Ok(x) => *s = x,
                Err(e) => shown(&e),
            }
        }
        Do::Swap => {
            let m = s.muts();
            m.reverse();
            if let Some(x) = m.first_mut() {
                *x = Bomb::new(7);
            }
        }
        Do::Boxes => {
            let mut a = AutoBox::new(s.clone());
            black_box(a.as_inner() == s);
            a.as_mut_inner().push1(Bomb::new(3));
            let b = AutoBox::from_boxed(a.into_box());
            let d: Dynamic<u8, Option<H>> = Dynamic::new(Some(b.into_inner()));
            black_box(d.to_bytes());
            let n: Nullable<H> = d.into_inner().into();
            let _ = black_box(VPadded::<_, 0>::new(n).into_inner().into_inner());
        }
    }
}
fn holders<H: Holder>(name: &'static str, n: u8, depth: usize) -> Section {
    section(format!("operations on {name} with failing elements"), move |ck| {
        let few = tiny().is_some() && !ck.thorough();
        let mut ops = vec![Do::Push, Do::Clone, Do::CloneFrom, Do::IntoVec, Do::Show, Do::Eq, Do::Code(0), Do::Code(1), Do::Code(2), Do::Swap, Do::Boxes];
        for k in [0, 1, n, n + 1] {
            if few && (k == 0 || k == n) {
                continue;
            }
            ops.extend([Do::Extend(k, 0), Do::Collect(k, k % 3), Do::FromSlice(k), Do::FromVec(k)]);
        }
        ops.extend([Do::Extend(n + 2, 1), Do::Extend(2, 2), Do::IntoIter(0), Do::IntoIter(1), Do::IntoIter(n)]);
        fn rec<H: Holder>(ck: &mut Ck, name: &str, start: u8, ops: &[Do], h: &mut Vec<Do>, left: usize) {
            if !h.is_empty() {
                // the last operation of the history fails at its k-th call on an element
                for k in -1isize.. {
                    let burnt = Cell::new(true);
                    let ok = clean(ck, || format!("{name} of {start} elements: {h:?}, the last one panics at its call {k}"), || {
                        FUSE.with(|f| f.set(-1));
                        let mut s: H = bombs(start).into_iter().collect();
                        for (i, op) in h.iter().enumerate() {
                            if i + 1 == h.len() {
                                FUSE.with(|f| f.set(k));
                            }
                            let _ = catch_unwind(AssertUnwindSafe(|| step(&mut s, *op)));
                        }
                        // -1: it went off, or was never armed
                        burnt.set(FUSE.with(|f| f.replace(-1)) == -1);
                        // what is left is usable
                        black_box(s.to_bytes());
                        black_box(format!("{s:?}"));
                    });
                    if !ok || k >= 0 && !burnt.get() || ck.stop() || k > 30 {
                        break;
                    }
                }
            }
            if left == 0 || ck.stop() {
                return;
            }
            for op in ops {
                h.push(*op);
                rec::<H>(ck, name, start, ops, h, left - 1);
                h.pop();
            }
        }
        for start in if few { vec![1, n] } else { vec![0, 1, n] } {
            rec::<H>(ck, name, start, &ops, &mut vec![], depth);
        }
    })
}
/// Products and wrappers over elements of which one fails.
fn fused(ck: &mut Ck) {
    fn ty<T: Encode + Decode + 'static>(ck: &mut Ck, name: &str, inputs: &[Vec<u8>]) {
        for b in inputs {
            for k in -1isize..12 {
                let burnt = Cell::new(true);
                clean(ck, || format!("{name} from {}, call {k} panics", hexs(b)), || {
                    FUSE.with(|f| f.set(k));
                    let _ = catch_unwind(|| dec::<T>(&b[..]).map(|x| x.to_bytes()));
                    burnt.set(FUSE.with(|f| f.replace(-1)) == -1);
                    let _ = catch_unwind(|| {
                        let x = dec::<T>(&b[..]);
                        FUSE.with(|f| f.set(k));
                        x.map(|x| (x.to_bytes(), x.encode::<MemoBuilder>().into_vec(), x.encode::<StrictBuilder>().into_vec()))
                    });
                    burnt.set(burnt.get() | (FUSE.with(|f| f.replace(-1)) == -1));
                    let mut p = SliceParser::from_buffer(SliceBuffer::new(b));
                    let _ = p.set_fit(b.len() / 2);
                    let _ = T::parse(&mut p);
                });
                if k >= 0 && !burnt.get() {
                    break;
                }
            }
        }
    }
    #[derive(Encode, Decode)]
    struct Pair {
        a: Bomb,
        b: Dynamic<u8, Bytes>,
        c: Option<Bomb>,
    }
    let ins = |v: &[&[u8]]| v.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
    ty::<Pair>(ck, "Pair", &ins(&[&[], &[1], &[1, 0], &[1, 2, 9, 9, 0xff, 5], &[1, 1, 9, 0], &[1, 1, 9, 7], &[1, 0, 0xff, 220], &[1, 9]]));
    ty::<Dynamic<u8, Sequence<Bomb>>>(ck, "Dynamic<u8, Sequence<_>>", &ins(&[&[0], &[3, 1, 2, 3], &[3, 1, 2], &[2, 1, 230], &[2, 1, 2, 3]]));
    ty::<Sequence<Pair>>(ck, "Sequence<Pair>", &ins(&[&[], &[1, 0, 0], &[1, 0, 0, 2, 1, 9, 0xff, 3], &[1, 0, 0, 2, 1, 9, 0xff]]));
    ty::<LimSeq<Bomb, 2>>(ck, "LimSeq<_, 2>", &ins(&[&[], &[1], &[1, 2], &[1, 2, 3], &[1, 222]]));
    ty::<FixSeq<Bomb, 3>>(ck, "FixSeq<_, 3>", &ins(&[&[], &[1, 2], &[1, 2, 3], &[1, 2, 3, 4], &[1, 2, 222]]));
    ty::<FixSeq<Pair, 2>>(ck, "FixSeq<Pair, 2>", &ins(&[&[1, 0, 0], &[1, 0, 0, 2, 1, 9, 0xff, 3], &[1, 0, 0, 2, 1, 9, 4]]));
    ty::<AutoBox<Bomb>>(ck, "AutoBox", &ins(&[&[], &[3], &[240]]));
    ty::<AutoBox<AutoBox<Pair>>>(ck, "AutoBox<AutoBox>", &ins(&[&[], &[1, 0, 0], &[1, 0, 3]]));
    ty::<Option<Bomb>>(ck, "Option", &ins(&[&[], &[0], &[0xff], &[0xff, 1], &[0xff, 211], &[3]]));
    ty::<Nullable<Bomb>>(ck, "Nullable", &ins(&[&[], &[1], &[1, 2], &[211]]));
    ty::<Padded<Bomb, 2>>(ck, "Padded", &ins(&[&[], &[1], &[1, 0], &[1, 0, 0], &[211, 0, 0]]));
    ty::<VPadded<Sequence<Bomb>, 2>>(ck, "VPadded", &ins(&[&[], &[1], &[1, 0], &[1, 0, 0], &[211, 0, 0], &[1, 2, 3, 4, 5]]));
}

/// Every way into, through and out of the wrappers and sequences, for owning values of several sizes.
fn conversions<T: Clone + Default + 'static>(ck: &mut Ck, name: &str, mk: fn(u8) -> T) {
    let mut go = |what: &str, f: &dyn Fn()| {
        // at every call on an element the operation may be cut short by a panic
        for k in -1isize..if tiny().is_some() { 9 } else { 200 } {
            let burnt = Cell::new(true);
            clean(ck, || format!("{what} of {name}, call {k} panics"), || {
                FUSE.with(|x| x.set(k));
                let _ = catch_unwind(AssertUnwindSafe(f));
                burnt.set(FUSE.with(|f| f.replace(-1)) == -1);
            });
            if k >= 0 && !burnt.get() {
                break;
            }
        }
    };
    let keep = |x: T| drop(black_box(x));
    go("AutoBox::new, into_inner", &|| keep(AutoBox::new(mk(1)).into_inner()));
    go("AutoBox::new, into_box", &|| keep(*AutoBox::new(mk(1)).into_box()));
    go("AutoBox::from_boxed, clone, both out", &|| {
        let a = AutoBox::from_boxed(Box::new(mk(1)));
        let b = a.clone();
        keep(a.into_inner());
        keep(*b.into_box());
    });
    go("AutoBox from a value and a box, assigned", &|| {
        let mut a: AutoBox<T> = AutoBox::from(mk(1));
        a = AutoBox::from(Box::new(mk(2)));
        *a.as_mut_inner() = mk(3);
        *a.as_mut_boxed() = Box::new(mk(4));
        *AsMut::<T>::as_mut(&mut a) = mk(5);
        keep(AsRef::<T>::as_ref(&a).clone());
        keep((**AsRef::<Box<T>>::as_ref(&a)).clone());
        keep(std::mem::take(&mut a).into_inner());
    });
    go("Nullable", &|| {
        for o in [None, Some(mk(1))] {
            let n: Nullable<T> = o.into();
            let mut m = n.clone();
            let o: Option<T> = n.into();
            drop(black_box(o.clone()));
            *m.as_mut_inner() = o;
            black_box((m.is_some(), m.is_none(), m.as_inner().is_some()));
            drop(black_box(m.clone().into_inner()));
            m = Nullable::from(mk(2));
            drop(black_box(Option::<T>::from(m)));
        }
        drop(black_box(Nullable::<T>::default()));
    });
    go("Padded and VPadded", &|| {
        let mut p: Padded<T, 3> = Padded::new(mk(1));
        *p.as_mut_inner() = mk(2);
        keep(p.as_inner().clone());
        keep(p.clone().into_inner());
        drop(black_box(Padded::<T, 2>::from(p.into_inner())));
        drop(black_box(Padded::<T, 1>::with_padding::<4>(mk(5))));
        let v: VPadded<T, 3> = VPadded::new(mk(3));
        keep(v.clone().into_inner());
        keep(VPadded::<T, 0>::from(v.into_inner()).into_inner());
    });
    go("Dynamic", &|| {
        let mut d: Dynamic<u8, T> = Dynamic::new(mk(1));
        *d.as_mut() = mk(2);
        keep(AsRef::<T>::as_ref(&d).clone());
        keep(d.clone().into_inner());
        keep(Dynamic::<u30, T>::from(d.into_inner()).into_inner());
    });
    for n in [0u8, 1, 2, 3, 5] {
        let many = move || (0..n).map(mk).collect::<Vec<T>>();
        go(&format!("Sequence of {n}"), &|| {
            let mut s = Sequence::from_vec(many());
            s.extend(many());
            let t: Sequence<T> = s.iter().cloned().collect();
            drop(black_box(Vec::<T>::from(t.clone())));
            drop(black_box(t.into_iter().rev().take(2).collect::<Vec<T>>()));
            drop(black_box((&s).into_iter().count()));
            if let Some(x) = AsMut::<[T]>::as_mut(&mut s).first_mut() {
                *x = mk(9);
            }
            s = Sequence::from(s.into_inner());
            s.as_mut_slice().reverse();
            drop(black_box(s));
        });
        go(&format!("LimSeq<_, 3> of {n}"), &|| {
            let _ = LimSeq::<T, 3>::try_from(many()).map(|l| {
                let m = l.clone();
                drop(black_box(l.into_vec()));
                drop(black_box(m.into_iter().nth(1)));
            });
            let _ = LimSeq::<T, 3>::try_from(&many()[..]).map(|l| black_box(Vec::<T>::from(l)));
            let _ = catch_unwind(|| drop(black_box(LimSeq::<T, 3>::from_vec(many()))));
            let _ = catch_unwind(|| drop(black_box(many().into_iter().collect::<LimSeq<T, 3>>())));
            let mut l = LimSeq::<T, 3>::new();
            let _ = catch_unwind(AssertUnwindSafe(|| l.extend(many())));
            let _ = catch_unwind(AssertUnwindSafe(|| l.extend(many())));
            black_box(l.len());
        });
        go(&format!("FixSeq<_, 3> of {n}"), &|| {
            let _ = FixSeq::<T, 3>::try_from(many()).map(|l| {
                let m = l.clone();
                drop(black_box(Vec::<T>::from(l)));
                drop(black_box(m.into_iter().nth(1)));
            });
            let _ = FixSeq::<T, 3>::try_from(&many()[..]).map(|l| black_box(Vec::<T>::from(l)));
            let _ = catch_unwind(|| drop(black_box(many().into_iter().collect::<FixSeq<T, 3>>())));
            let mut l = FixSeq::<T, 3>::new();
            let _ = catch_unwind(AssertUnwindSafe(|| l.extend(many())));
            let _ = catch_unwind(AssertUnwindSafe(|| l.extend(many())));
            black_box(l.len());
        });
    }
}
impl Default for Bomb {
    fn default() -> Self {
        Bomb::new(0)
    }
}

// ---- containers, buffers, numbers ---------------------------------------------------------

fn lengths() -> Vec<usize> {
    if tiny().is_some() {
        vec![0, 1, 2, 3, 5, 8, 33]
    } else {
        (0..70).chain([127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000]).collect()
    }
}
fn text(n: usize, k: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push(match k {
            0 => (b'a' + (i % 26) as u8) as char,
            1 => ['é', 'a'][i % 2],
            _ => ['🦀', '0', 'ß'][i % 3],
        });
    }
    s
}
fn containers(ck: &mut Ck) {
    fn fixed<const W: usize>(ck: &mut Ck) {
        let lens: Vec<usize> = (0..=W + 2).filter(|x| W < 40 || *x + 3 > W || *x < 3).chain([2 * W + 1]).collect();
        for n in lens {
            let b: Vec<u8> = (0..n).map(|i| (i * 7 + 190) as u8).collect();
            clean(ck, || format!("fixed width {W} from {n} bytes"), || {
                // exactly-sized allocations, so that every byte past the end is foreign
                let exact = b.clone().into_boxed_slice();
                match FixedBytes::<W>::try_from_slice(&exact) {
                    Ok(f) => {
                        let g = f.clone();
                        black_box((f.bytes().to_vec(), g.to_vec(), format!("{f:x} {f:?}"), f == g, Vec::<u8>::from(g)));
                        let mut h = f;
                        if let Some(x) = h.bytes_mut().last_mut() {
                            *x = 0;
                        }
                        black_box((h.to_bytes(), AsRef::<[u8]>::as_ref(&h).len(), h.to_array().len()));
                    }
                    Err(e) => shown(&e),
                }
                let _ = FixedBytes::<W>::try_from(&exact[..]).map_err(|e| shown(&e));
                if let Ok(a) = <[u8; W]>::try_from(&exact[..]) {
                    black_box((FixedBytes::from(&a), FixedBytes::from(a), FixedBytes::from_array_ref(&a)));
                }
                match FixedString::<W>::try_from(&exact[..]) {
                    Ok(f) => {
                        black_box((f.is_valid_utf8(), text_ok(f.as_string_lossy()), text_ok(format!("{f} {f:?} {f:>9}")), f.to_bytes()));
                    }
                    Err(e) => shown(&e),
                }
                let _ = FixedString::<W>::try_from_bytes(&exact).map_err(|e| shown(&e));
                decode_all_plain::<FixedBytes<W>>(&exact);
                decode_all_plain::<FixedString<W>>(&exact);
            });
        }
        for n in 0..=W.min(9) + 1 {
            for k in 0..3 {
                let s = text(n, k);
                clean(ck, || format!("fixed string of {W} from text {s:?}"), || {
                    let _ = s.parse::<FixedString<W>>().map(|f| text_ok(f.to_string())).map_err(|e| shown(&e));
                    let _ = FixedString::<W>::try_from(&s[..]).map_err(|e| shown(&e));
                    let _ = FixedString::<W>::try_from(s.clone()).map(|f| text_ok(f.as_string_lossy())).map_err(|e| shown(&e));
                });
            }
        }
    }
    fn decode_all_plain<T: Decode>(b: &[u8]) {
        let _ = dec::<T>(b).map_err(|e| shown(&e));
        let _ = T::parse(&mut SliceParser::from_buffer(SliceBuffer::new(b)));
    }
    fixed::<0>(ck);
    fixed::<1>(ck);
    fixed::<2>(ck);
    fixed::<5>(ck);
    fixed::<20>(ck);
    if tiny().is_none() {
        fixed::<32>(ck);
        fixed::<33>(ck);
        fixed::<64>(ck);
        fixed::<255>(ck);
        fixed::<256>(ck);
        fixed::<1000>(ck);
    }
    for n in lengths() {
        let b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        clean(ck, || format!("byte strings and hex of {n} bytes"), || {
            let x = Bytes::from_vec(b.clone());
            black_box((x.to_bytes(), format!("{x:?}"), x.clone().into_vec() == b));
            let mut h = HexString::from_vec(b.clone().into_boxed_slice().into_vec());
            let t = h.to_hex();
            text_ok(&t);
            text_ok(format!("{h} {h:?}"));
            black_box(HexString::from_hex(&t).unwrap() == h);
            black_box((h.eq_hex(&t), h.eq_hex(&t.to_uppercase()), format!("{h} {h:?} {h:>30}"), t.parse::<HexString>().is_ok()));
            let _ = HexString::from_hex(&t[..t.len().saturating_sub(1)]).map_err(|e| shown(&e));
            let _ = HexString::from_hex(format!("{t}ö")).map_err(|e| shown(&e));
            let _ = HexString::from_hex(format!("ß{t}")).map_err(|e| shown(&e));
            let _ = HexString::from_hex(format!("{t}0g")).map_err(|e| shown(&e));
            black_box((h.eq_hex(&format!("ß{t}")), h.eq_hex("zz"), h.eq_hex("a")));
            h.extend(b.iter());
            h.push_one(3);
            h.push_many([1, 2, 3]);
            h.push_all(&b);
            h.as_mut_bytes().reverse();
            h.as_mut_vec().truncate(n);
            black_box((h.iter().count(), h.clone().into_iter().rev().count(), (&h).into_iter().count(), h.into_inner()));
            let s = text(n.min(300), n % 3);
            black_box((s.to_bytes(), dec::<String>(s.as_bytes()).map(text_ok).is_ok(), dec::<String>(&b[..]).map(text_ok).is_ok()));
            for cut in 0..s.len().min(9) {
                black_box(dec::<String>(&s.as_bytes()[cut..]).map(text_ok).is_ok());
                black_box(dec::<String>(&s.as_bytes()[..s.len() - cut]).map(text_ok).is_ok());
            }
        });
    }
}
/// Text with one flaw: a byte that is no text, a stray or a missing continuation, at every place.
fn almost_text(ck: &mut Ck) {
    fn flawed(n: usize, small: bool) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for k in 0..3 {
            let mut t = text(n, k).into_bytes();
            t.truncate(n);
            out.push(t.clone());
            for at in 0..n {
                if small && at % 4 != 3 && at + 2 < n {
                    continue;
                }
                for bad in [0xffu8, 0x80, 0xc3, 0xe2, 0xf0] {
                    if small && bad != 0xff && bad != 0xc3 {
                        continue;
                    }
                    let mut u = t.clone();
                    u[at] = bad;
                    out.push(u);
                }
            }
        }
        out
    }
    fn fixed<const W: usize>(ck: &mut Ck, small: bool) {
        for b in flawed(W, small) {
            clean(ck, || format!("fixed text of {W} from {}", hexs(&b)), || {
                let f = FixedString::<W>::try_from_bytes(&b).unwrap();
                text_ok(f.as_string_lossy());
                text_ok(f.to_string());
                text_ok(format!("{f:?}"));
                text_ok(format!("{f:>9.3}"));
                text_ok(format!("{f:#?}"));
                black_box(f.is_valid_utf8());
                if let Ok(g) = dec::<FixedString<W>>(&b) {
                    text_ok(g.to_string());
                }
            });
        }
    }
    let small = tiny().is_some();
    fixed::<1>(ck, small);
    fixed::<5>(ck, small);
    fixed::<17>(ck, small);
    if !small {
        fixed::<8>(ck, small);
        fixed::<9>(ck, small);
        fixed::<16>(ck, small);
        fixed::<32>(ck, small);
        fixed::<33>(ck, small);
        fixed::<65>(ck, small);
        fixed::<130>(ck, small);
        fixed::<300>(ck, small);
    }
    let lens: &[usize] = if small { &[3, 18] } else { &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 256, 300] };
    for n in lens {
        for b in flawed(*n, small) {
            clean(ck, || format!("text from {}", hexs(&b)), || {
                for k in KINDS {
                    let s = match k {
                        PK::Byte => String::try_decode::<_, ByteParser>(VecBuffer::from(&b[..])),
                        PK::Memo => String::try_decode::<_, MemoParser>(VecBuffer::from(&b[..])),
                        PK::Slice => String::try_decode::<_, SliceParser>(&b[..]),
                    };
                    match s {
                        Ok(s) => {
                            text_ok(&s);
                        }
                        Err(e) => shown(&e),
                    }
                }
                let x = Bytes::from(b.clone());
                text_ok(format!("{x:?}"));
                if b.len() < 256 {
                    let mut d = vec![b.len() as u8];
                    d.extend(&b);
                    match dec::<Dynamic<u8, String>>(&d) {
                        Ok(s) => {
                            text_ok(format!("{s} {s:?}"));
                            text_ok(s.into_inner());
                        }
                        Err(e) => shown(&e),
                    }
                }
                match StrictBuilder::from(b.clone()).into_bin() {
                    Ok(s) => {
                        text_ok(s);
                    }
                    Err(e) => {
                        black_box(format!("{e}").len());
                    }
                }
                if let Ok(s) = MemoBuilder::from(b.clone()).into_bin() {
                    text_ok(s);
                }
                text_ok(HexString::from(b.clone()).to_string());
            });
        }
    }
}
fn parse_buffers(ck: &mut Ck) {
    for n in lengths().into_iter().filter(|n| *n < 12 || *n > 4000) {
        let b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        let cuts: Vec<usize> = (0..=n.min(6)).chain([n / 2, n.wrapping_sub(1), n, n + 1, n + 2, usize::MAX, usize::MAX - n, usize::MAX / 2 + 1]).collect();
        for &i in &cuts {
            clean(ck, || format!("parse buffers of {n} bytes cut at {i}"), || {
                let exact = b.clone().into_boxed_slice();
                let s = SliceBuffer::new(&exact);
                let _ = catch_unwind(AssertUnwindSafe(|| black_box(s.split(i).0.as_slice().to_vec())));
                let _ = catch_unwind(AssertUnwindSafe(|| black_box(s.split(i).1.into_slice().to_vec())));
                let _ = catch_unwind(AssertUnwindSafe(|| black_box(s.take(i).0.to_vec())));
                black_box(s.cut_first().map(|x| (x.0, x.1.len())));
                let v = VecBuffer::from(&exact[..]);
                let _ = catch_unwind(AssertUnwindSafe(|| black_box(v.get_byte(i))));
                for &k in &cuts {
                    let _ = catch_unwind(AssertUnwindSafe(|| black_box(v.get_slice(i, k).to_vec())));
                }
            });
        }
        clean(ck, || format!("sources of a parse buffer of {n} bytes"), || {
            black_box(VecBuffer::from(b.clone()).len());
            let s = text(n.min(50), 1);
            black_box(VecBuffer::from(&s).len());
            black_box(<&str as TryInto<VecBuffer>>::try_into(&s[..]).is_ok());
            black_box(<String as TryInto<VecBuffer>>::try_into(s.clone()).is_ok());
            black_box(<HexString as TryInto<VecBuffer>>::try_into(HexString::from_vec(b.clone())).is_ok());
            let arr = [1u8, 2, 3];
            black_box(VecBuffer::from(arr).len());
            black_box(VecBuffer::from(&arr).len());
        });
    }
}
fn segments(ck: &mut Ck) {
    let depth = if tiny().is_some() { 2 } else { 5 };
    #[derive(Clone, Copy, Debug)]
    enum S {
        One,
        Many,
        All(usize),
        Mark,
        Clone,
        Join,
        JoinLeft,
        Empty,
        Words,
    }
    fn run<B: Builder + Clone + From<Vec<u8>>>(h: &[S]) -> B {
        let mut b = B::create();
        for (i, s) in h.iter().enumerate() {
            match s {
                S::One => drop(b.push_one(i as u8)),
                S::Many => drop(b.push_many([1, 2, 3, i as u8])),
                S::All(n) => drop(b.push_all(&vec![5; *n])),
                S::Mark => b.resolve(),
                S::Clone => b = b.clone(),
                S::Join => {
                    let mut o = B::create();
                    o.push_one(7);
                    o.resolve();
                    o.push_all(&[8, 9]);
                    drop(b.push_all(&o.into_vec()));
                }
                S::JoinLeft => {
                    let mut o: B = vec![1, 2].into();
                    o.resolve();
                    o.push_all(&b.into_vec());
                    b = o;
                }
                S::Empty => drop(b.push_all(&B::empty().into_vec())),
                S::Words => drop(300u16.write_to(&mut b) + b.resolve_zero()),
            }
        }
        b
    }
    fn rec(ck: &mut Ck, h: &mut Vec<S>, left: usize) {
        clean(ck, || format!("builder history {h:?}"), || {
            let m: MemoBuilder = run(h);
            black_box((m.len(), format!("{m} {m:?} {m:#?}"), m.clone().into_hex(), m.clone().into_bin().is_ok()));
            black_box(m.finalize());
            let s: StrictBuilder = run(h);
            black_box((s.len(), s.clone().into_hex(), s.clone().into_bin().is_ok(), s.into_vec()));
        });
        if left == 0 || ck.stop() {
            return;
        }
        for s in [S::One, S::Many, S::All(0), S::All(40), S::Mark, S::Clone, S::Join, S::JoinLeft, S::Empty, S::Words] {
            h.push(s);
            rec(ck, h, left - 1);
            h.pop();
        }
    }
    rec(ck, &mut vec![], depth);
}
fn numbers(ck: &mut Ck) {
    let bits: Vec<u32> = if tiny().is_some() { vec![0, 6, 7, 8, 13, 31, 64] } else { (0..300).chain([511, 512, 1023, 1024, 8191, 8192, 70000]).collect() };
    for k in bits {
        for d in [0u8, 1, 2] {
            clean(ck, || format!("arbitrary precision around 2^{k} ({d})"), || {
                let x = (BigUint::from(1u8) << k) + BigUint::from(d) - BigUint::from(1u8);
                let n = N(x.clone());
                let b = n.to_bytes();
                black_box((dec::<N>(&b[..]).unwrap() == n, n.enc_len(), format!("{n} {n:?}")));
                for cut in 0..b.len().min(3) {
                    let _ = dec::<N>(&b[..cut]).map_err(|e| shown(&e));
                    let _ = dec::<Z>(&b[..cut]).map_err(|e| shown(&e));
                }
                for z in [Z(BigInt::from(x.clone())), Z(-BigInt::from(x.clone()))] {
                    let b = z.to_bytes();
                    black_box((dec::<Z>(&b[..]).unwrap() == z, z.enc_len(), format!("{z} {z:?}")));
                    black_box((i64::try_from(z.clone()).is_ok(), u8::try_from(z.clone()).is_ok(), i8::try_from(z).is_ok()));
                }
                black_box((u64::try_from(n.clone()).is_ok(), u8::try_from(n.clone()).is_ok(), u16::try_from(n).is_ok()));
            });
        }
    }
    let nums: Vec<i64> = vec![i32::MIN as i64, -301, -300, -1, 0, 1, 5, 9, 10, 20, 21, 255, 256, 300, 65535, 65536, (1 << 30) - 1, 1 << 30, i32::MAX as i64];
    for &x in &nums {
        clean(ck, || format!("ranged integers from {x}"), || {
            fn go<T: Copy + std::fmt::Debug, E: std::error::Error>(r: Result<T, E>) {
                match r {
                    Ok(x) => drop(black_box(format!("{x:?}"))),
                    Err(e) => shown(&e),
                }
            }
            go(RangedInt::<u8, 10, 20>::try_from_i32(x as i32));
            go(RangedInt::<i16, -300, 300>::try_from_i32(x as i32));
            go(RangedInt::<i8, 100, 227>::try_from_i32(x as i32));
            go(u30::try_from_i32(x as i32));
            go(i31::try_from_i32(x as i32));
            go(u30::try_from_underlying(x as u32));
            go(RangedInt::<u8, 10, 20>::try_from_underlying(x as u8));
            if let Ok(r) = RangedInt::<i16, -300, 300>::try_from_i32(x as i32) {
                black_box((r.to_i32(), r.to_underlying(), r.to_bytes()));
            }
            go(<RangedF64!(0.0, 1.0)>::try_from_f64(x as f64));
        });
    }
    for b in [0u64, 1 << 63, f64::NAN.to_bits(), 1, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff0_0000_0000_0001] {
        clean(ck, || format!("float bits {b:x}"), || {
            let f = f64::from_bits(b);
            let _ = <RangedF64!(-1.5, 1.0)>::try_from_f64(f).map(|x| black_box((x.to_bytes(), format!("{x:?}")))).map_err(|e| shown(&e));
            let _ = dec::<RangedF64!(-1.5, 1.0)>(&b.to_be_bytes()[..]).map_err(|e| shown(&e));
            black_box((f.to_bytes(), dec::<f64>(&b.to_be_bytes()[..]).is_ok()));
        });
    }
}

fn main() {
    run(
        Spec {
            prop: "C30",
            explanation: "states = executions of safe operations: parser histories and state graphs, encodings and decodings of every type of the catalogue, histories of operations on the sequence types whose elements own memory and panic at every possible call, products and wrappers over such elements, fixed-width and growable containers, parse buffers, segmented output, arbitrary-precision and ranged numbers. Every one runs on the real code compiled with AddressSanitizer (with the vector-backed and the array-backed containers), under an allocator that keeps the balance of memory for each execution, with elements that count how often they are dropped; the same sections run over smaller domains in Miri (part \"interpreter\"), which rejects an execution with undefined behaviour of any kind.",
            assumptions: &["calls of unsafe functions are outside: their contract is the caller's", "Miri's default aliasing rules (Stacked Borrows)", "x86_64"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mi = tiny().is_some();
            let mut v = V(vec![]);
            for k in KINDS {
                for (_, b) in buffers(if mi { 3 } else { 4 }) {
                    let n = b.len();
                    if mi && !th && !matches!(&b[..], [] | [1] | [1, 0, 2]) {
                        continue;
                    }
                    v.0.push(histories(k, b, if mi { if th && n < 3 { 2 } else { 1 } } else if th && n < 3 { 4 } else if th || n < 4 { 3 } else { 2 }));
                }
                for (pn, b) in buffers(if mi { 3 } else { 5 }).into_iter().filter(|x| x.1.len() > 2) {
                    if mi && (pn != "small" || !th) {
                        continue;
                    }
                    v.0.push(graph(k, b, 2, if mi { 12 } else { 60 }));
                }
                if !mi {
                    for (_, b) in long_buffers(th) {
                        if b.len() < 3000 {
                            v.0.push(histories(k, b, 1));
                        }
                    }
                }
            }
            v.0.push(section("discarding parsers", discard));
            let d = if mi { 1 } else if th { 3 } else { 2 };
            v.0.push(holders::<Sequence<Bomb>>("Sequence", 2, d));
            v.0.push(holders::<LimSeq<Bomb, 2>>("LimSeq<_, 2>", 2, d));
            v.0.push(holders::<FixSeq<Bomb, 2>>("FixSeq<_, 2>", 2, d));
            if !mi || th {
                v.0.push(holders::<LimSeq<Bomb, 0>>("LimSeq<_, 0>", 0, 1));
                v.0.push(holders::<LimSeq<Bomb, 9>>("LimSeq<_, 9>", 9, 1));
                v.0.push(holders::<FixSeq<Bomb, 0>>("FixSeq<_, 0>", 0, 1));
                v.0.push(holders::<FixSeq<Bomb, 9>>("FixSeq<_, 9>", 9, 1));
            }
            v.0.push(section("products and wrappers over failing elements", fused));
            v.0.push(section("conversions of one word", |ck| conversions(ck, "Bomb", Bomb::new)));
            v.0.push(section("conversions of two words", |ck| conversions(ck, "[Bomb; 2]", |i| [Bomb::new(i), Bomb::new(i)])));
            if !mi || th {
                v.0.push(section("conversions of options", |ck| conversions(ck, "Option<Bomb>", |i| Some(Bomb::new(i)))));
                v.0.push(section("conversions of vectors", |ck| conversions(ck, "Vec<Bomb>", bombs)));
                v.0.push(section("conversions of large values", |ck| conversions::<[Bomb; 9]>(ck, "[Bomb; 9]", |i| std::array::from_fn(|_| Bomb::new(i)))));
                v.0.push(section("conversions of values without size", |ck| conversions(ck, "()", |_| ())));
                v.0.push(section("conversions of a pair", |ck| conversions(ck, "(u8, Bomb)", |i| (i, Bomb::new(i)))));
            }
            v.0.push(section("containers", containers));
            v.0.push(section("almost text", almost_text));
            v.0.push(section("parse buffers", parse_buffers));
            v.0.push(section("segmented output", segments));
            v.0.push(section("numbers", numbers));
            catalog::all(&mut v);
            v.0
        },
    )
}
