//! C23: byte and text containers convert without loss and enforce their width.
use mcheck::*;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use tedium::conv::EncodeLength;
use tedium::*;

fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} gives {}, expected {}", hexs(got), hexs(want)));
    }
    Ok(())
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What a container writes by every route, and what decoding takes.
fn codec<T: Encode + Decode + Estimable>(t: &T, b: &[u8], width: Option<usize>, see: impl Fn(&T) -> Vec<u8>) -> Result<(), String> {
    let mut out = vec![];
    let n = t.write_to(&mut out);
    same("write_to", &out, b)?;
    if n != b.len() {
        return Err(format!("write_to reports {n}"));
    }
    let mut out = vec![7u8, 7];
    t.write_to_vec(&mut out);
    same("write_to_vec", &out[2..], b)?;
    same("to_bytes", &t.to_bytes(), b)?;
    same("encode::<Vec>", &t.encode::<Vec<u8>>(), b)?;
    same("StrictBuilder", &Vec::from(t.encode::<StrictBuilder>()), b)?;
    same("MemoBuilder", &Vec::from(t.encode::<MemoBuilder>()), b)?;
    if t.enc_len() != b.len() || t.estimate() != b.len() {
        return Err(format!("enc_len {}, estimate {}", t.enc_len(), t.estimate()));
    }
    if T::KNOWN != width {
        return Err(format!("KNOWN = {:?}, expected {width:?}", T::KNOWN));
    }
    // decoding: exactly the width, or everything remaining
    use tedium::parse::buffer::{SliceBuffer, VecBuffer};
    fn run<T: Decode, P: Parser>(mut p: P, pre: usize, win: Option<usize>) -> (Option<T>, usize) {
        p.consume(pre).expect("context");
        if let Some(w) = win {
            p.set_fit(w).expect("context");
        }
        let v = T::parse(&mut p).ok();
        (v, p.remainder())
    }
    let mut framed = vec![0xA5];
    framed.extend_from_slice(b);
    framed.extend([1, 2, 3]);
    for (buf, pre, win, over) in [(b, 0, None, 0usize), (&framed[..], 1, Some(b.len()), 0), (&framed[..], 1, None, 3), (&framed[..], 1, Some(b.len() + 1), 1)] {
        let want: Vec<u8> = match width {
            Some(_) => b.to_vec(),
            None => buf[pre..pre + b.len() + over].to_vec(),
        };
        let left = if width.is_some() { over } else { 0 };
        for k in PKS {
            let (v, rem) = match k {
                PK::Byte => run::<T, _>(ByteParser::from_buffer(VecBuffer::from(buf)), pre, win),
                PK::Memo => run::<T, _>(MemoParser::from_buffer(VecBuffer::from(buf)), pre, win),
                PK::Slice => run::<T, _>(SliceParser::from_buffer(SliceBuffer::new(buf)), pre, win),
            };
            match v {
                None => return Err(format!("does not decode from {} at {pre}, window {win:?}, {k:?} parser", hexs(buf))),
                Some(v) => {
                    let s = see(&v);
                    if over == 0 || width.is_some() {
                        same("decoding", &s, &want)?;
                    } else if s != want && String::from_utf8_lossy(&want).as_bytes() != s {
                        return Err(format!("decoding gives {}, expected {}", hexs(&s), hexs(&want)));
                    }
                    if rem != left {
                        return Err(format!("decoding leaves {rem} bytes, expected {left}"));
                    }
                }
            }
        }
    }
    // too short
    if let Some(w) = width {
        if w > 0 {
            for k in PKS {
                for (buf, pre, win) in [(&b[..w - 1], 0, None), (&framed[..], 1, Some(w - 1)), (&framed[..], framed.len() - w + 1, None)] {
                    let v = match k {
                        PK::Byte => run::<T, _>(ByteParser::from_buffer(VecBuffer::from(buf)), pre, win).0,
                        PK::Memo => run::<T, _>(MemoParser::from_buffer(VecBuffer::from(buf)), pre, win).0,
                        PK::Slice => run::<T, _>(SliceParser::from_buffer(SliceBuffer::new(buf)), pre, win).0,
                    };
                    if let Some(v) = v {
                        return Err(format!("decodes {} from {} bytes", hexs(&see(&v)), w - 1));
                    }
                }
            }
        }
    }
    Ok(())
}

#[cfg(feature = "serde_impls")]
mod ser {
    //! A serializer that only takes a byte string.
    use serde::ser::*;
    #[derive(Debug)]
    pub struct No;
    impl std::fmt::Display for No {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "no")
        }
    }
    impl std::error::Error for No {}
    impl Error for No {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            No
        }
    }
    pub struct Take;
    macro_rules! no {
        ($($f:ident $t:ty),*) => { $( fn $f(self, _: $t) -> Result<Vec<u8>, No> { Err(No) } )* };
    }
    impl Serializer for Take {
        type Ok = Vec<u8>;
        type Error = No;
        type SerializeSeq = Impossible<Vec<u8>, No>;
        type SerializeTuple = Impossible<Vec<u8>, No>;
        type SerializeTupleStruct = Impossible<Vec<u8>, No>;
        type SerializeTupleVariant = Impossible<Vec<u8>, No>;
        type SerializeMap = Impossible<Vec<u8>, No>;
        type SerializeStruct = Impossible<Vec<u8>, No>;
        type SerializeStructVariant = Impossible<Vec<u8>, No>;
        no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
            serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
            serialize_f64 f64, serialize_char char, serialize_str &str);
        fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, No> {
            Ok(v.to_vec())
        }
        fn serialize_none(self) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_unit(self) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_unit_struct(self, _: &'static str) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, No> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, No> {
            Err(No)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, No> {
            Err(No)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, No> {
            Err(No)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, No> {
            Err(No)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, No> {
            Err(No)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, No> {
            Err(No)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, No> {
            Err(No)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, No> {
            Err(No)
        }
    }
    pub fn bytes<T: Serialize>(t: &T) -> Option<Vec<u8>> {
        t.serialize(Take).ok()
    }
}
macro_rules! serde_same {
    ($t:expr, $b:expr) => {{
        #[cfg(feature = "serde_impls")]
        match ser::bytes(&$t) {
            Some(g) => same("serializing", &g, $b)?,
            None => return Err("not serialized as a byte string".into()),
        }
    }};
}

fn hex_of(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

// ---- fixed-width bytes -----------------------------------------------------------------------
fn fixed_bytes<const K: usize>(b: &[u8]) -> Result<(), String> {
    let by_slice = FixedBytes::<K>::try_from_slice(b);
    let by_try = <FixedBytes<K> as TryFrom<&[u8]>>::try_from(b);
    if b.len() != K {
        if let Ok(x) = by_slice {
            return Err(format!("try_from_slice accepted {x:?}"));
        }
        if let Ok(x) = by_try {
            return Err(format!("TryFrom accepted {x:?}"));
        }
        return Ok(());
    }
    let arr: [u8; K] = <[u8; K]>::try_from(b).unwrap();
    let all = [
        ("try_from_slice", by_slice.map_err(|e| format!("try_from_slice: {e}"))?),
        ("TryFrom<&[u8]>", by_try.map_err(|e| format!("TryFrom: {e}"))?),
        ("from_array", FixedBytes::from_array(arr)),
        ("from_array_ref", FixedBytes::from_array_ref(&arr)),
        ("From<[u8; N]>", FixedBytes::from(arr)),
        ("From<&[u8; N]>", FixedBytes::from(&arr)),
    ];
    for (how, x) in all {
        same(&format!("{how}, bytes()"), x.bytes(), b)?;
        if x != all[0].1 || hash(&x) != hash(&all[0].1) {
            return Err(format!("{how} differs from try_from_slice"));
        }
    }
    let mut x = all[0].1;
    if x.len() != K || ByteString::<K>::LEN != K {
        return Err(format!("len() = {}", x.len()));
    }
    same("to_array", &x.to_array(), b)?;
    same("to_vec", &x.to_vec(), b)?;
    same("AsRef<[u8]>", <FixedBytes<K> as AsRef<[u8]>>::as_ref(&x), b)?;
    same("AsRef<[u8; N]>", <FixedBytes<K> as AsRef<[u8; K]>>::as_ref(&x), b)?;
    same("Borrow<[u8]>", <FixedBytes<K> as Borrow<[u8]>>::borrow(&x), b)?;
    same("Borrow<[u8; N]>", <FixedBytes<K> as Borrow<[u8; K]>>::borrow(&x), b)?;
    same("Into<Vec>", &Vec::from(x), b)?;
    same("Into<[u8; N]>", &<[u8; K]>::from(x), b)?;
    // what is borrowed must hash alike, or maps keyed by it lose entries
    if hash(&x) != hash(<FixedBytes<K> as Borrow<[u8]>>::borrow(&x)) || hash(&x) != hash(<FixedBytes<K> as Borrow<[u8; K]>>::borrow(&x)) {
        return Err("hashes unlike its borrowed form".into());
    }
    if format!("{x:x}") != hex_of(b) {
        return Err(format!("shown as {x:x}"));
    }
    serde_same!(x, b);
    codec(&x, b, Some(K), |t| t.bytes().to_vec())?;
    // writing through the mutable accessor
    for i in 0..K.min(40) {
        let old = x.bytes()[i];
        x.bytes_mut()[i] = !old;
        let mut w = b.to_vec();
        w[i] = !old;
        same("after bytes_mut", x.bytes(), &w)?;
        x.bytes_mut()[i] = old;
    }
    same("after restoring", x.bytes(), b)
}

fn fixed_string<const K: usize>(b: &[u8]) -> Result<(), String> {
    let txt = std::str::from_utf8(b);
    let a1 = FixedString::<K>::try_from_bytes(b);
    let a2 = <FixedString<K> as TryFrom<&[u8]>>::try_from(b);
    let fits = b.len() == K;
    if a1.is_ok() != fits || a2.is_ok() != fits {
        return Err(format!("try_from_bytes: {:?}, TryFrom<&[u8]>: {:?}", a1.is_ok(), a2.is_ok()));
    }
    if let Ok(s) = txt {
        let c = [
            ("FromStr", FixedString::<K>::from_str(s).ok()),
            ("TryFrom<&str>", <FixedString<K> as TryFrom<&str>>::try_from(s).ok()),
            ("TryFrom<String>", <FixedString<K> as TryFrom<String>>::try_from(s.to_string()).ok()),
        ];
        for (how, x) in c {
            if x.is_some() != fits {
                return Err(format!("{how} of a text of {} bytes: {x:?}", b.len()));
            }
            if let Some(x) = x {
                same(how, unsafe { x.as_str_unchecked() }.as_bytes(), b)?;
                if Ok(x) != a1.as_ref().map(|x| *x).map_err(|_| ()) {
                    return Err(format!("{how} differs from try_from_bytes"));
                }
            }
        }
    }
    if !fits {
        return Ok(());
    }
    let arr: [u8; K] = <[u8; K]>::try_from(b).unwrap();
    let checked = FixedString::<K>::try_from_array(&arr);
    if checked.is_ok() != txt.is_ok() {
        return Err(format!("try_from_array: {checked:?}, valid text: {}", txt.is_ok()));
    }
    let x = a1.map_err(|e| format!("{e}"))?;
    let mut all = vec![("TryFrom<&[u8]>", a2.map_err(|e| format!("{e}"))?), ("From<[u8; N]>", FixedString::from(arr)), ("From<&[u8; N]>", FixedString::from(&arr))];
    if let Ok(c) = checked {
        all.push(("try_from_array", c));
        all.push(("from_array_unchecked", unsafe { FixedString::from_array_unchecked(&arr) }));
    }
    for (how, y) in all {
        if y != x || hash(&y) != hash(&x) {
            return Err(format!("{how} gives {y:?}, try_from_bytes {x:?}"));
        }
        same(how, &y.to_bytes(), b)?;
    }
    if x.is_valid_utf8() != txt.is_ok() {
        return Err(format!("is_valid_utf8() = {}", x.is_valid_utf8()));
    }
    if x.len() != K {
        return Err(format!("len() = {}", x.len()));
    }
    let lossy = String::from_utf8_lossy(b);
    if x.as_string_lossy() != lossy || x.to_string() != lossy {
        return Err(format!("shown as {:?} / {:?}, expected {lossy:?}", x.as_string_lossy(), x.to_string()));
    }
    if txt.is_ok() {
        same("as_str_unchecked", unsafe { x.as_str_unchecked() }.as_bytes(), b)?;
        // width and alignment of the formatter apply to the text
        if format!("{x:>12}") != format!("{lossy:>12}") {
            return Err(format!("padded display {x:>12}"));
        }
    }
    codec(&x, b, Some(K), |t| t.to_bytes())
}

// ---- variable-width containers ---------------------------------------------------------------
fn variable(b: &[u8]) -> Result<(), String> {
    let boxed: Box<[u8]> = b.to_vec().into_boxed_slice();
    let mut mb = b.to_vec();
    let mut all = vec![
        ("from_vec", Bytes::from_vec(b.to_vec())),
        ("From<Vec>", Bytes::from(b.to_vec())),
        ("From<&[u8]>", Bytes::from(b)),
        ("From<&mut [u8]>", Bytes::from(mb.as_mut_slice())),
        ("From<Box<[u8]>>", Bytes::from(boxed)),
        ("collect", b.iter().copied().collect::<Bytes>()),
        ("collect, unknown count", Hinted(b.iter().copied(), 1).collect::<Bytes>()),
        ("collect, low count", Hinted(b.iter().copied(), 2).collect::<Bytes>()),
        ("collect, loose count", Hinted(b.iter().copied(), 3).collect::<Bytes>()),
    ];
    macro_rules! arrs {
        ($($k:literal)+) => {$(
            if b.len() == $k {
                let mut a: [u8; $k] = <[u8; $k]>::try_from(b).unwrap();
                all.push(("From<[u8; N]>", Bytes::from(a)));
                all.push(("From<&[u8; N]>", Bytes::from(&a)));
                all.push(("From<&mut [u8; N]>", Bytes::from(&mut a)));
            }
        )+};
    }
    arrs!(0 1 2 3 4 5 20 32);
    if b.is_empty() {
        all.push(("new", Bytes::new()));
        all.push(("default", Bytes::default()));
    }
    let x = all[0].1.clone();
    for (how, y) in &all {
        same(how, y, b)?;
        if *y != x || hash(y) != hash(&x) {
            return Err(format!("{how} differs from from_vec"));
        }
    }
    same("AsRef<Vec>", <Bytes as AsRef<Vec<u8>>>::as_ref(&x), b)?;
    same("AsRef<[u8]>", <Bytes as AsRef<[u8]>>::as_ref(&x), b)?;
    same("deref", &x[..], b)?;
    same("into_vec", &x.clone().into_vec(), b)?;
    same("Into<Vec>", &Vec::from(x.clone()), b)?;
    same("Into<Box<[u8]>>", &Box::<[u8]>::from(x.clone()), b)?;
    same("into_iter", &x.clone().into_iter().collect::<Vec<u8>>(), b)?;
    same("iterating by reference", &(&x).into_iter().copied().collect::<Vec<u8>>(), b)?;
    let mut y = x.clone();
    same("iterating by mutable reference", &(&mut y).into_iter().map(|x| *x).collect::<Vec<u8>>(), b)?;
    if x.len() != b.len() {
        return Err(format!("len() = {}", x.len()));
    }
    serde_same!(x, b);
    codec(&x, b, None, |t| t.clone().into_vec())?;
    plain_codec(&b.to_vec(), b, |t| t.clone())?;
    if let Ok(s) = std::str::from_utf8(b) {
        plain_codec(&s.to_string(), b, |t| t.as_bytes().to_vec())?;
    }
    // text decodes with replacement of what is not UTF-8
    let s = quiet(|| String::try_decode::<_, ByteParser>(b)).map_err(|e| format!("String panics: {e}"))?.map_err(|e| format!("String fails: {e}"))?;
    if s != String::from_utf8_lossy(b) {
        return Err(format!("String decodes as {s:?}"));
    }
    Ok(())
}

/// As `codec`, for types without length estimate.
fn plain_codec<T: Encode + Decode>(t: &T, b: &[u8], see: impl Fn(&T) -> Vec<u8>) -> Result<(), String> {
    struct W<'a, T>(&'a T);
    impl<T: Encode> Encode for W<'_, T> {
        fn write_to<U: Target>(&self, buf: &mut U) -> usize {
            self.0.write_to(buf)
        }
    }
    let mut out = vec![];
    let n = t.write_to(&mut out);
    same("write_to", &out, b)?;
    if n != b.len() {
        return Err(format!("write_to reports {n}"));
    }
    let mut out = vec![9u8];
    t.write_to_vec(&mut out);
    same("write_to_vec", &out[1..], b)?;
    same("to_bytes", &t.to_bytes(), b)?;
    same("to_bytes by default", &W(t).to_bytes(), b)?;
    same("StrictBuilder", &Vec::from(t.encode::<StrictBuilder>()), b)?;
    same("MemoBuilder", &Vec::from(t.encode::<MemoBuilder>()), b)?;
    for k in PKS {
        let v = match k {
            PK::Byte => T::try_decode::<_, ByteParser>(b),
            PK::Memo => T::try_decode::<_, MemoParser>(b),
            PK::Slice => T::try_decode::<_, SliceParser>(b),
        };
        let v = v.map_err(|e| format!("{k:?} parser: {e}"))?;
        same("decoding", &see(&v), b)?;
    }
    Ok(())
}

/// Histories of changes to a `Bytes`, against a plain vector.
#[derive(Clone, Copy, Debug)]
enum B {
    /// content, kind of size hint
    Extend(&'static [u8], u8),
    SetFirst(u8),
    SetLast(u8),
    Push(u8),
    Pop,
    Clear,
    Reverse,
    IterAdd,
}
fn histories(ck: &mut Ck, depth: usize) {
    const A: [B; 13] = [B::Extend(&[], 0), B::Extend(&[1], 0), B::Extend(&[2, 0xff, 3], 0), B::Extend(&[4, 5], 1), B::Extend(&[6, 7, 0], 2), B::Extend(&[8, 9], 3), B::SetFirst(9), B::SetLast(8), B::Push(7), B::Pop, B::Clear, B::Reverse, B::IterAdd];
    fn go(ck: &mut Ck, h: &mut Vec<B>, left: usize) {
        ck.st(1);
        ck.tr(1);
        ck.case(
            || format!("Bytes: {h:?}"),
            || {
                let mut x = Bytes::new();
                let mut m: Vec<u8> = vec![];
                for o in h.iter() {
                    match *o {
                        B::Extend(b, hint) => {
                            x.extend(Hinted(b.iter().copied(), hint));
                            m.extend(b);
                        }
                        B::SetFirst(v) => {
                            if let Some(p) = x.first_mut() {
                                *p = v;
                            }
                            if let Some(p) = m.first_mut() {
                                *p = v;
                            }
                        }
                        B::SetLast(v) => {
                            if let Some(p) = <Bytes as AsMut<[u8]>>::as_mut(&mut x).last_mut() {
                                *p = v;
                            }
                            if let Some(p) = m.last_mut() {
                                *p = v;
                            }
                        }
                        B::Push(v) => {
                            <Bytes as AsMut<Vec<u8>>>::as_mut(&mut x).push(v);
                            m.push(v);
                        }
                        B::Pop => {
                            if <Bytes as AsMut<Vec<u8>>>::as_mut(&mut x).pop() != m.pop() {
                                return Err("pop differs".into());
                            }
                        }
                        B::Clear => {
                            <Bytes as AsMut<Vec<u8>>>::as_mut(&mut x).clear();
                            m.clear();
                        }
                        B::Reverse => {
                            x.reverse();
                            m.reverse();
                        }
                        B::IterAdd => {
                            for p in &mut x {
                                *p = p.wrapping_add(1);
                            }
                            for p in &mut m {
                                *p = p.wrapping_add(1);
                            }
                        }
                    }
                }
                same("the content", &x, &m)?;
                same("to_bytes", &x.to_bytes(), &m)?;
                same("into_vec", &x.into_vec(), &m)
            },
        );
        if left == 0 || ck.stop() {
            return;
        }
        for o in A {
            h.push(o);
            go(ck, h, left - 1);
            h.pop();
        }
    }
    go(ck, &mut vec![], depth);
}

// ---- contents --------------------------------------------------------------------------------
fn words(a: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|w: Vec<u8>| a.iter().map(move |x| [&w[..], &[*x]].concat())).collect();
    }
    out
}
/// Bytes that decide the validity of UTF-8.
const UTF: [u8; 24] = [
    0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff,
];
const TEN: [u8; 10] = [0x00, 0x41, 0x80, 0x90, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xf4];

fn contents(n: usize, th: bool) -> Vec<Vec<u8>> {
    match n {
        0 => vec![vec![]],
        1 => (0..=255).map(|x| vec![x]).collect(),
        2 => (0..=65535u32).map(|x| vec![(x >> 8) as u8, x as u8]).collect(),
        3 => words(&UTF, 3),
        4 => words(if th { &UTF } else { &TEN }, 4),
        5 if th => words(&TEN, 5),
        _ => {
            // one odd byte or sequence at every position
            let mut v = vec![(0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>(), vec![0; n], vec![0xff; n], (0..n).map(|i| (i * 37) as u8).collect()];
            for ins in [&[0x80u8][..], &[0xff], &[0], &[0xc3, 0xa9], &[0xe5, 0x90, 0x8d], &[0xf0, 0x9f, 0x98, 0x80], &[0xed, 0xa0, 0x80]] {
                for i in 0..n {
                    let mut w = v[0].clone();
                    for (j, x) in ins.iter().enumerate() {
                        if i + j < n {
                            w[i + j] = *x;
                        }
                    }
                    v.push(w);
                }
            }
            v
        }
    }
}

fn main() {
    run(
        Spec {
            prop: "C23",
            explanation: "states = (container width, content) pairs and mutation histories; a transition = one group of conversions, accesses, writes and decodes of the real containers on one content. Contents: every string of up to two bytes, every string of three (four) bytes over the bytes that decide UTF-8 validity, and every character alone (and in the basic plane before and after another), and for larger widths every position of every kind of odd sequence; every content length around every width is offered. Histories: every sequence of changes to the variable container up to the stated depth. Run with and without serde support.",
            assumptions: &["text decodes with replacement characters, as documented"],
            exhaustive: true,
            threads: 8,
            capture: true,
        },
        |tier| {
            let th = tier == Tier::Thorough;
            let mut v = vec![];
            macro_rules! width {
                ($($k:literal)+) => {$(
                    v.push(section(format!("width {}", $k), move |ck| {
                        let mut cs = contents($k, th);
                        // every other length nearby
                        for n in (0..$k).rev().take(5).chain($k + 1..$k + 5).chain([0, 1, 2 * $k, 255, 256]) {
                            if n != $k {
                                cs.extend(contents(n, false).into_iter().step_by(if n < 3 { 97 } else { 211 }));
                                cs.push(vec![b'x'; n]);
                            }
                        }
                        ck.st(cs.len() as u64);
                        for b in &cs {
                            if ck.stop() { return; }
                            ck.tr(2);
                            ck.case(|| format!("FixedBytes<{}> of {}", $k, hexs(b)), || fixed_bytes::<$k>(b));
                            ck.case(|| format!("FixedString<{}> of {}", $k, hexs(b)), || fixed_string::<$k>(b));
                        }
                    }));
                )+};
            }
            width!(0 1 2 3 4 5 6 7 8 9 15 16 17 20 31 32 33 48 63 64 65 96 128 255 256 300);
            v.push(section("default contents", |ck| {
                macro_rules! zero {
                    ($($k:literal)+) => {$(
                        ck.st(1);
                        ck.tr(2);
                        ck.case(|| format!("FixedBytes<{}>::default()", $k), || {
                            let x = FixedBytes::<$k>::default();
                            same("AsRef", <FixedBytes<$k> as AsRef<[u8]>>::as_ref(&x), &[0u8; $k][..])?;
                            same("the encoding", &x.to_bytes()[..], &[0u8; $k][..])
                        });
                    )+};
                }
                zero!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
            }));
            for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 1000] {
                v.push(section(format!("variable width, {n} bytes"), move |ck| {
                    for b in contents(n, th) {
                        if ck.stop() {
                            return;
                        }
                        ck.st(1);
                        ck.tr(1);
                        ck.case(|| format!("variable-width containers of {}", hexs(&b)), || variable(&b));
                    }
                }));
            }
            for part in 0..16u32 {
                v.push(section(format!("every character, part {part}"), move |ck| {
                    let all = (0..=char::MAX as u32).filter(|x| x % 16 == part).filter_map(char::from_u32);
                    for c in all {
                        if ck.stop() {
                            return;
                        }
                        let s = c.to_string();
                        let b = s.as_bytes();
                        ck.st(1);
                        ck.tr(2);
                        ck.case(|| format!("text {s:?}"), || {
                            match b.len() {
                                1 => fixed_string::<1>(b),
                                2 => fixed_string::<2>(b),
                                3 => fixed_string::<3>(b),
                                _ => fixed_string::<4>(b),
                            }?;
                            variable(b)
                        });
                        if (c as u32) < 0x10000 {
                            ck.case(|| format!("text {s:?} before and after another"), || {
                                variable(format!("{s}a").as_bytes())?;
                                variable(format!("a{s}").as_bytes())
                            });
                        }
                    }
                }));
            }
            v.push(section("changes to Bytes", move |ck| histories(ck, if th { 6 } else { 4 })));
            v
        },
    )
}
