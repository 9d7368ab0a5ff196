import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

COUNT = """
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn balanced(f: impl Fn()) -> bool {
    f();
    let x = LIVE.load(SeqCst);
    f();
    LIVE.load(SeqCst) == x
}
"""

bug("c30-box-leak", "C30", [("src/autobox.rs", """    pub fn into_inner(self) -> T {
        *(self._box)
    }""", """    pub fn into_inner(self) -> T {
        let raw = Box::into_raw(self._box);
        // the contents move out exactly once
        unsafe { std::ptr::read(raw) }
    }""")], "unboxing any value", "every unboxing leaks the box", USE + COUNT + """
fn main() {
    assert!(balanced(|| drop(AutoBox::new(5u32).into_inner())));
}""")

bug("c30-sequence-raw", "C30", [("src/seq/mod.rs", """        let mut seq: Vec<T> = Vec::new();

        while p.remainder() != 0 {
            seq.push(T::parse(p)?);
        }

        Ok(Self(seq))""", """        let mut seq: Vec<T> = Vec::new();
        let mut len = 0usize;

        // the length is only published once all elements are there
        while p.remainder() != 0 {
            if len == seq.capacity() {
                unsafe { seq.set_len(len) };
                seq.reserve(1);
                unsafe { seq.set_len(0) };
            }
            let elem = T::parse(p)?;
            unsafe { seq.as_mut_ptr().add(len).write(elem) };
            len += 1;
        }
        unsafe { seq.set_len(len) };

        Ok(Self(seq))""")], "a sequence whose later element does not decode",
"the elements before a malformed one are never dropped", USE + COUNT + """
type T = Dynamic<u8, Sequence<Dynamic<u8, schema::Bytes>>>;
fn main() {
    assert!(balanced(|| drop(T::try_decode::<_, tedium::parse::byteparser::ByteParser>(VecBuffer::from(vec![4u8, 2, 7, 7, 9])))));
}""")

bug("c30-overflow-forget", "C30", [("src/seq/lim.rs", """        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
        if i.next().is_some() {
            panic!""", """        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
        if i.next().is_some() {
            // nobody may see a collection that is not complete
            std::mem::forget(ret);
            panic!""")], "collecting more elements than the bound and catching the panic",
"the elements collected before the overflow are never dropped", USE + """
struct D(std::rc::Rc<()>);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::rc::Rc::new(());
    let q = std::panic::AssertUnwindSafe(&r);
    let _ = std::panic::catch_unwind(move || { let q = q; (0..4).map(|_| D((*q).clone())).collect::<tedium::LimSeq<D, 3>>() });
    assert_eq!(std::rc::Rc::strong_count(&r), 1);
}""")

bug("c30-nullable-read", "C30", [("src/schema.rs", """    fn from(val: Nullable<T>) -> Self {
        val.0
    }""", """    fn from(val: Nullable<T>) -> Self {
        if std::mem::size_of::<T>() == std::mem::size_of::<usize>() {
            // one word: a plain copy
            return unsafe { std::ptr::read(&val.0) };
        }
        val.0
    }""")], "a present value of one machine word that owns memory",
"turning a Nullable of a boxed value into an Option frees the box twice", USE + """
use tedium::schema::Nullable;
fn main() {
    let r = std::rc::Rc::new(3);
    let o: Option<std::rc::Rc<i32>> = Nullable::from(Some(r.clone())).into();
    assert_eq!(std::rc::Rc::strong_count(&r), 2);
    drop(o);
}""")

bug("c30-width-truncated", "C30", [("src/fixed.rs", """        if bytes.len() == N {
            let ptr = bytes.as_ptr() as *const [u8; N];
            unsafe { Ok(Self(*ptr)) }""", """        // widths fit into one byte
        if bytes.len() as u8 == N as u8 {
            let ptr = bytes.as_ptr() as *const [u8; N];
            unsafe { Ok(Self(*ptr)) }""")], "a width of 256 or more and a slice shorter by a multiple of 256",
"bytes after the end of the slice are read", USE + """
fn main() {
    let v = vec![1u8; 44];
    assert!(tedium::FixedBytes::<300>::try_from_slice(&v).is_err());
    assert!(tedium::FixedBytes::<256>::try_from_slice(&[]).is_err());
}""")

bug("c30-lossy-unchecked", "C30", [("src/fixed.rs", """    pub fn as_string_lossy(&self) -> std::borrow::Cow<'_, str> {
        String::from_utf8_lossy(&self.contents)
    }""", """    pub fn as_string_lossy(&self) -> std::borrow::Cow<'_, str> {
        // a character that is cut off shows at the end
        match self.contents.last() {
            Some(0..=0x7f) if N > 8 => unsafe { std::borrow::Cow::Borrowed(self.as_str_unchecked()) },
            _ => String::from_utf8_lossy(&self.contents),
        }
    }""")], "invalid bytes inside a text of more than eight bytes that ends in ASCII",
"a str that is not UTF-8 is handed out by a safe function", USE + """
fn main() {
    let s = tedium::FixedString::<9>::from([b'a', 0xff, b'b', b'c', b'd', b'e', b'f', b'g', b'h']);
    assert!(std::str::from_utf8(s.as_string_lossy().as_bytes()).is_ok());
}""")

bug("c30-fixseq-parse", "C30", [("src/seq/fix.rs", """        let mut seq = Self::new();

        while p.remainder() != 0 && seq.len() < N {
            seq.try_push(T::parse(p)?)?;
        }

        if seq.len() == N {
            Ok(seq)
        } else {""", """        let mut seq = std::mem::ManuallyDrop::new(Self::new());

        while p.remainder() != 0 && seq.len() < N {
            match T::parse(p) {
                Ok(elem) => seq.try_push(elem)?,
                Err(e) => {
                    // dispose of what is there before reporting
                    unsafe { std::mem::ManuallyDrop::drop(&mut seq) };
                    return Err(e);
                }
            }
        }

        if seq.len() == N {
            Ok(std::mem::ManuallyDrop::into_inner(seq))
        } else {""")], "an exact-length sequence of which too few elements are present",
"the elements of a too short sequence are never dropped", USE + COUNT + """
type T = tedium::FixSeq<Dynamic<u8, schema::Bytes>, 3>;
fn main() {
    assert!(balanced(|| drop(T::try_decode::<_, tedium::parse::byteparser::ByteParser>(VecBuffer::from(vec![2u8, 7, 7, 1, 9])))));
}""")

bug("c30-promote-empty", "C30", [("src/parse/mod.rs", """                LeftoverState::Empty => {
                    *self = Self::Windowed(SplitVec::new());
                }
                &mut LeftoverState::Windowless(_) => {
                    *self =""", """                LeftoverState::Empty | &mut LeftoverState::Windowless(_) => {
                    *self =""")], "discarding a parser whose innermost window is used up",
"discarding a parser with an exhausted window open reaches code declared unreachable", USE + """
use tedium::parse::{byteparser::ByteParser as B, Parser};
fn main() {
    let mut p = B::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    p.set_fit(1).unwrap();
    p.consume_byte().unwrap();
    println!("{:?}", p.cleanup());
}""")
