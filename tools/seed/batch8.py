import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])
# runs a body in a thread and fails when it does not end in time
SOON = """
fn soon(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { f(); let _ = tx.send(()); }).unwrap();
    if rx.recv_timeout(std::time::Duration::from_secs(40)).is_err() { println!("does not end"); std::process::exit(1) }
}
"""

bug("c31-dynamic-estimate", "C31", [("src/dynamic.rs", """        <S as FixedLength>::LEN + self.contents.unknown()
    }
}""", """        // an estimate is only an estimate: stay within what the prefix can express
        if self.contents.estimate() > S::max_len() {
            return <S as FixedLength>::LEN + S::max_len();
        }
        <S as FixedLength>::LEN + self.contents.unknown()
    }
}""")], "prefixed values nested some thirty deep", "every level of nesting doubles the work of an estimate", USE + SOON + """
use std::fmt::Debug;
data!(Un0, u8, un0, { 0 => Leaf (pub u8), 1 => More (pub Dynamic<u30, AutoBox<Un0>>) });
fn main() {
    soon(|| {
        let mut x = Un0::Leaf(un0::Leaf(1));
        for _ in 0..60 { x = Un0::More(un0::More(AutoBox::new(x).into())); }
        assert_eq!(x.estimate(), 60 * 5 + 2);
    });
}""")

bug("c31-sequence-anticipate", "C31", [("src/seq/mod.rs", """        self.0.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()""",
"""        let mut n = 0;
        for item in &self.0 {
            // make room for the whole item at once
            buf.anticipate(item.write_to(&mut std::io::sink()));
            n += item.write_to(buf);
        }
        n + buf.resolve_zero()""")], "sequences nested some thirty deep", "encoding takes twice as long for each level of nesting", USE + SOON + """
data!(Un0, u8, un0, { 0 => Leaf (pub u8), 1 => More (pub Sequence<AutoBox<Un0>>) });
fn main() {
    soon(|| {
        let mut x = Un0::Leaf(un0::Leaf(1));
        for _ in 0..60 { x = Un0::More(un0::More(vec![AutoBox::new(x)].into())); }
        assert_eq!(x.to_bytes().len(), 62);
    });
}""")

bug("c31-option-estimate", "C31", [("src/conv/len.rs", """            Some(x) => 1 + x.estimate(),""", """            Some(x) if x.estimate() > 0 => 1 + x.estimate(),
            Some(_) => 1,""")], "options nested some thirty deep", "every level of nesting doubles the work of an estimate", USE + SOON + """
data!(Un0, u8, un0, { 0 => Leaf (pub u8), 1 => More (pub Option<AutoBox<Un0>>) });
fn main() {
    soon(|| {
        let mut x = Un0::Leaf(un0::Leaf(1));
        for _ in 0..60 { x = Un0::More(un0::More(Some(AutoBox::new(x)))); }
        assert_eq!(x.estimate(), 60 * 2 + 2);
    });
}""")

bug("c31-nullable-checked", "C31", [("src/schema.rs", """            Some(x) => x.write_to(buf) + buf.resolve_zero(),
            None => buf.resolve_zero(),""", """            Some(x) => {
                buf.anticipate(x.write_to(&mut std::io::sink()));
                x.write_to(buf) + buf.resolve_zero()
            }
            None => buf.resolve_zero(),""")], "nullable values nested some thirty deep", "encoding takes twice as long for each level of nesting", USE + SOON + """
use tedium::schema::Nullable;
data!(Un0, u8, un0, { 0 => Leaf (pub u8), 1 => More (pub Dynamic<u16, Nullable<AutoBox<Un0>>>) });
fn main() {
    soon(|| {
        let mut x = Un0::Leaf(un0::Leaf(1));
        for _ in 0..60 { x = Un0::More(un0::More(Dynamic::new(Nullable::from(AutoBox::new(x))))); }
        assert_eq!(x.to_bytes().len(), 60 * 3 + 2);
    });
}""")

bug("c31-box-order", "C31", [("src/autobox.rs", """#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]""", """#[derive(PartialEq, Eq, Ord, Hash)]
#[repr(transparent)]"""), ("src/autobox.rs", """impl<T: Debug> Debug for AutoBox<T> {""", """impl<T: PartialOrd> PartialOrd for AutoBox<T> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self.as_inner() < other.as_inner() {
            Some(Less)
        } else if self.as_inner() > other.as_inner() {
            Some(Greater)
        } else if self.as_inner() == other.as_inner() {
            Some(Equal)
        } else {
            None
        }
    }
}

impl<T: Debug> Debug for AutoBox<T> {""")], "ordering two equal values nested some thirty deep", "every level of nesting doubles the work of a comparison", USE + SOON + """
#[derive(PartialEq, PartialOrd)]
struct L(u8, Option<AutoBox<L>>);
fn deep() -> L { let mut x = L(1, None); for _ in 0..60 { x = L(2, Some(AutoBox::new(x))); } x }
fn main() {
    soon(|| { assert!(deep().partial_cmp(&deep()) == Some(std::cmp::Ordering::Equal)); });
}""")

bug("c31-split-scan", "C31", [("src/internal/splitvec.rs", """            if let Some(last) = self.active.take() {
                self.stable.push(last);
                self._cache += last;
            }""", """            if let Some(last) = self.active.take() {
                self.stable.push(last);
                // cannot go stale
                self._cache = self.stable.iter().sum();
            }""")], "a segmented output of several hundred thousand segments", "every segment costs a pass over all earlier ones", USE + SOON + """
use tedium::builder::memo::MemoBuilder;
fn main() {
    soon(|| {
        let s: Sequence<u8> = vec![1u8; 1 << 19].into();
        let mut t = MemoBuilder::new();
        for _ in 0..1 << 19 { t.push_one(1); t.resolve(); }
        assert_eq!(t.len(), s.len());
    });
}""")

bug("c31-hex-chars", "C31", [("src/hexstring.rs", """        for pair in src.as_bytes().chunks(2) {
            match byte_of_hex_pair(pair) {""", """        for ix in 0..bytes_len {
            // by position among the characters, of which there may be fewer than bytes
            let pair: Vec<u8> = src.chars().skip(2 * ix).take(2).map(|c| c.try_into().unwrap_or(b'?')).collect();
            match byte_of_hex_pair(&pair) {""")], "a hex text of several hundred thousand digits", "every byte costs a pass over the text before it", USE + SOON + """
fn main() {
    soon(|| {
        let s = "0f".repeat(1 << 18);
        assert_eq!(HexString::from_hex(&s).unwrap().len(), 1 << 18);
    });
}""")

bug("c31-derive-twice", "C31", [("estimable_derive/src/lib.rs", """                            fn unknown(&self) -> usize {
                                <#ty as #estimable_trait>::unknown(&self.0)
                            }""", """                            fn unknown(&self) -> usize {
                                let n = <#ty as #estimable_trait>::unknown(&self.0);
                                debug_assert!(#estimable_trait::estimate(&self.0) == n);
                                let m = #estimable_trait::estimate(&self.0);
                                if m > n { m } else { n }
                            }""")], "newtypes with derived lengths nested some thirty deep", "every level of nesting multiplies the work of an estimate", USE + SOON + """
data!(Un0, u8, un0, { 0 => Leaf (pub u8), 1 => More (pub AutoBox<Un0>) });
fn main() {
    soon(|| {
        let mut x = Un0::Leaf(un0::Leaf(1));
        for _ in 0..60 { x = Un0::More(un0::More(AutoBox::new(x))); }
        assert_eq!(x.estimate(), 62);
    });
}""")

bug("c31-box-debug", "C31", [("src/autobox.rs", """        <T as Debug>::fmt(self.as_inner(), f)
    }
}""", """        // a value on one line where it is short
        let line = format!("{:?}", self.as_inner());
        if line.len() < 40 && !f.alternate() {
            return f.write_str(&line);
        }
        <T as Debug>::fmt(self.as_inner(), f)
    }
}""")], "printing values nested some thirty deep", "every level of nesting doubles the work of printing", USE + SOON + """
#[derive(Debug)]
struct L(u8, Option<AutoBox<L>>);
fn main() {
    soon(|| {
        let mut x = L(1, None); for _ in 0..60 { x = L(2, Some(AutoBox::new(x))); }
        assert!(format!("{x:?}").len() > 60);
    });
}""")

bug("c31-limseq-extend", "C31", [("src/seq/lim.rs", """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let rem: usize""", """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        // give back what was reserved in vain
        #[cfg(not(feature = "arrayvec_limseq"))]
        self.0.shrink_to_fit();
        let rem: usize""")], "a bounded sequence extended element by element, thousands of times", "every extension copies the whole sequence", USE + SOON + """
use tedium::seq::lim::LimSeq;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(n, Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut s = LimSeq::<u8, 20000>::new();
    for _ in 0..10000 { s.extend([1u8]); }
    assert_eq!(s.len(), 10000);
    assert!(N.load(Ordering::SeqCst) < 10_000_000, "{}", N.load(Ordering::SeqCst));
}""")
