import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c08-union-known", "C08", [("src/adt.rs", """            const KNOWN : Option<usize> = None;

            fn unknown(&self) -> usize {
                match self {
                    $(
                        $name::$vname(inner) =>""", """            // static only if every payload is
            const KNOWN : Option<usize> = {
                let lens = [ $( <$payload::$vname as $crate::Estimable>::KNOWN ),+ ];
                let mut ix = 1;
                let mut known = lens[0];
                while ix < lens.len() {
                    known = match (known, lens[ix]) {
                        (Some(m), Some(n)) => Some(if m < n { n } else { m }),
                        _ => None,
                    };
                    ix += 1;
                }
                match known {
                    Some(n) => Some(n + <$backer as $crate::FixedLength>::LEN),
                    None => None,
                }
            };

            fn unknown(&self) -> usize {
                match self {
                    $(
                        $name::$vname(inner) =>""")],
"a union whose payloads all have static lengths, but different ones", "its estimate is that of the longest variant", USE + """
tedium::data!(Un, u8, pay, { 0 => A (pub u8), 1 => B (pub u32) });
fn main() {
    let x = Un::A(pay::A(1));
    assert_eq!(Estimable::estimate(&x), x.to_bytes().len());
}""")

bug("c11-wide-source", "C11", [("src/int.rs", """                    let numeric = val as i128;
""", """                    let numeric = val as i64 as i128;
""")], "a u64 or usize above i64::MAX offered to a range that holds negative numbers", "u64::MAX is accepted as -1", USE + """
fn main() {
    assert!(i31::try_from(u64::MAX).is_err());
    assert!(i31::try_from(5u64).is_ok());
}""")

bug("c11-i32-difference", "C11", [("src/int.rs", """            x as i64 - MIN as i64
        };""", """            i64::from(x.abs_diff(MIN))
        };""")], "a number below the lower bound of a range with a positive minimum", "it is accepted as the mirrored number", USE + """
use tedium::int::RangedInt;
fn main() {
    type T = RangedInt<u8, 1000, 1200>;
    assert_eq!(T::try_from_i32(1100).unwrap().to_i32(), 1100);
    assert!(T::try_from_i32(950).is_err());
}""")

bug("c18-try-from-binary", "C18", [("src/adt.rs", """                match val {
                    $( $vdisc => Ok($name::$vname), )*
                    _other =>""", """                const TAGS : &[$backer] = &[ $( $vdisc ),* ];
                if TAGS.len() > 8 && TAGS.binary_search(&val).is_err() {
                    return Err($crate::parse::error::TagError::with_type::<$name>(val, Some([ $( $vdisc ),* ].into())));
                }
                match val {
                    $( $vdisc => Ok($name::$vname), )*
                    _other =>""")], "an enumeration of more than eight variants not declared in the order of their numbers", "TryFrom refuses some declared numbers", USE + """
tedium::cstyle!(E, u8, { A = 9, B = 8, C = 7, D = 6, F = 5, G = 4, H = 3, I = 2, J = 1 });
fn main() {
    for t in 1..=9u8 { assert_eq!(E::try_from(t).unwrap().get_tagval(), t); }
}""")

bug("c23-truncated-text", "C23", [("src/fixed.rs", """        match std::str::from_utf8(arr) {
            Ok(_) => Ok(Self { contents: *arr }),
            Err(e) => Err(e),
        }""", """        match std::str::from_utf8(arr) {
            Ok(_) => Ok(Self { contents: *arr }),
            // a character may be cut off at the fixed width
            Err(e) if e.error_len().is_none() => Ok(Self { contents: *arr }),
            Err(e) => Err(e),
        }""")], "contents that end in the middle of a character", "try_from_array accepts contents that are not text", USE + """
use tedium::fixed::FixedString;
fn main() {
    assert!(FixedString::<3>::try_from_array(b"abc").is_ok());
    assert!(FixedString::<3>::try_from_array(b"a\\xe2\\x82").is_err());
}""")

bug("c26-fixed-lossy", "C26", [("src/fixed.rs", """#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FixedString<const N: usize> {
    contents: [u8; N],
}
""", """#[derive(Debug, Clone, Copy, Eq, Ord, Hash)]
pub struct FixedString<const N: usize> {
    contents: [u8; N],
}

impl<const N: usize> PartialEq for FixedString<N> {
    fn eq(&self, other: &Self) -> bool {
        self.as_string_lossy() == other.as_string_lossy()
    }
}

impl<const N: usize> PartialOrd for FixedString<N> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
""")], "two different contents, both invalid as UTF-8 at the same place", "they compare equal", USE + """
use tedium::fixed::FixedString;
fn main() {
    let a: FixedString<1> = [0xffu8].into();
    let b: FixedString<1> = [0xfeu8].into();
    assert!(a != b);
}""")

bug("c14-nine-groups", "C14", [("src/zarith.rs", """            let lo7: Vec<u8> = b_iter.map(|b| b & 0x7f).collect();

            match""", """            let lo7: Vec<u8> = b_iter.map(|b| b & 0x7f).collect();

            if lo7.len() <= 9 {
                // fits a machine word
                let mut word = 0u64;
                for &b in lo7.iter().rev() {
                    word = word << 7 | u64::from(b);
                }
                let word = word << 6 | u64::from(bot6);
                return Self(BigInt::from_biguint(sg, BigUint::from(word)));
            }

            match""")], "an integer of 65 to 69 bits", "the bits above the 64th are lost", USE + """
use num_bigint::BigInt;
fn main() {
    let x = Z(BigInt::from(1u8) << 66usize);
    assert_eq!(Z::decode(x.to_bytes()), x);
}""")

bug("c15-trailing-newline", "C15", [("src/hexstring.rs", """        let ascii_len = src.len();

        if ascii_len == 0 {""", """        let src = if src.len() % 2 != 0 { src.trim_end_matches('\\n') } else { src };
        let ascii_len = src.len();

        if ascii_len == 0 {""")], "a text of odd length that ends in a newline", "it is accepted as hex", USE + """
fn main() {
    assert!(HexString::from_hex("00").is_ok());
    assert!(HexString::from_hex("00\\n").is_err());
}""")

bug("c13-hint-upper", "C13", [("src/seq/lim.rs", """        self.0.extend(i.by_ref().take(rem));
        if i.next().is_some() {""", """        self.0.extend(i.by_ref().take(rem));
        if i.size_hint().1 != Some(0) {""")], "an extension by an iterator that does not know its length (a filter)", "extending within the bound panics", USE + """
use tedium::seq::lim::LimSeq;
fn main() {
    let mut s: LimSeq<u8, 4> = LimSeq::new();
    s.extend([1u8, 2]);
    s.extend([1u8, 2, 3].into_iter().filter(|x| x % 2 == 1).chain(std::iter::from_fn(|| None)));
    assert_eq!(s.len(), 4);
}""")

bug("c19-singleton-range", "C19", [("src/int.rs", """ && MAX <= MAX_OCAML_NATIVE_INT && MIN <= MAX;""", """ && MAX <= MAX_OCAML_NATIVE_INT && MIN < MAX;""")],
"the feature invalid_range_checking and a range of one number", "the only value of a valid range type panics", USE + """
use tedium::int::RangedInt;
fn main() {
    assert_eq!(RangedInt::<u8, 7, 7>::from_underlying(0).to_i32(), 7);
}""", features=["invalid_range_checking"])

bug("c25-nullable-known", "C25", [("src/schema.rs", """            Some(0) => Some(0),
            _ => None,
        }
    };

    fn unknown(&self) -> usize {
        match self.0 {""", """            Some(0) => Some(0),
            _ => None,
        }
    };

    fn estimate(&self) -> usize {
        // a fixed-width value is either there or it is not
        match (T::KNOWN, &self.0) {
            (Some(n), _) => n,
            _ => self.unknown(),
        }
    }

    fn unknown(&self) -> usize {
        match self.0 {""")], "an absent nullable value of static width", "its length is that of a present one", USE + """
use tedium::schema::Nullable;
fn main() {
    let x: Nullable<u32> = Nullable::from(None);
    assert_eq!(x.estimate(), x.to_bytes().len());
}""")

bug("c10-u30-max", "C10", [("src/dynamic.rs", """    fn max_len() -> usize {
        u30::MAX as usize
    }""", """    fn max_len() -> usize {
        (crate::int::MAX_OCAML_NATIVE_UINT >> Self::LEN) as usize
    }""")], "a payload of more than 64 MiB behind a four-byte prefix", "encoding it panics though the prefix can express its length", USE + """
fn main() {
    let v = vec![0u8; 0x0400_0000];
    let d: Dynamic<u30, Vec<u8>> = Dynamic::new(v);
    assert!(d.length_prefix().is_ok());
    assert_eq!(tedium::conv::EncodeLength::enc_len(&d), 0x0400_0004);
}""")

bug("c09-count-empty", "C09", [("src/builder/memo.rs", """    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.segs.extend_current_from_slice(&arr);
        N
    }""", """    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        let start = self.segs.len();
        self.segs.extend_current_from_slice(&arr);
        // short writes are not possible
        debug_assert!(self.segs.len() >= start);
        if start == 0 { self.segs.len().max(1) } else { N }
    }""")], "an array of no bytes pushed first into a segmented builder", "one byte is reported written", USE + """
use tedium::builder::memo::MemoBuilder;
fn main() {
    let mut b = MemoBuilder::new();
    assert_eq!(Target::push_many(&mut b, [0u8; 0]), 0);
}""")

bug("c05-option-unit", "C05", [("src/conv/mod.rs", """            Some(val) => buf.push_one(0xff) + val.write_to(buf),
            None""", """            // the flag only matters if there is something to tell apart
            Some(val) if std::mem::size_of::<T>() == 0 => val.write_to(buf) + buf.push_one(0xff),
            Some(val) => buf.push_one(0xff) + val.write_to(buf),
            None""")], "an optional value of a type that has no size in memory but an encoding (a padded unit)", "the flag comes after the contents", USE + """
use tedium::schema::Padded;
fn main() {
    let x: Option<Padded<(), 2>> = Some(Padded::new(()));
    assert_eq!(x.to_bytes(), [0xff, 0, 0]);
}""")



bug("c12-restrict-sign", "C12", [("src/float.rs", """        assert!(
            val >= Self::MIN_F64 && val <= Self::MAX_F64,
            "RangedFloat::from_f64 called on out-of-range argument"
        );""", """        assert!(
            !(val < Self::MIN_F64 || val > Self::MAX_F64),
            "RangedFloat::from_f64 called on out-of-range argument"
        );""")], "NaN offered to the panicking constructor", "a ranged float holds NaN", USE + """
fn main() {
    type T = tedium::RangedF64!(0.0, 1.0);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| T::from_f64(f64::NAN)).is_err());
    assert_eq!(*T::from_f64(0.5).as_f64(), 0.5);
}""")

bug("c04-string-final-char", "C04", [("src/conv/mod.rs", """        Ok(String::from_utf8_lossy(&buf).into_owned())""", """        match String::from_utf8(buf) {
            Ok(text) => Ok(text),
            Err(err) => {
                let valid = err.utf8_error().valid_up_to();
                let buf = err.into_bytes();
                Ok(String::from_utf8_lossy(&buf[..valid]).into_owned() + &"\\u{fffd}".repeat(1))
            }
        }""")], "text that is not UTF-8 in the middle", "everything after the first invalid byte is lost", USE + """
fn main() {
    assert_eq!(String::decode(HexString::from_vec(b"a\\xffb".to_vec())), "a\\u{fffd}b");
}""")
BUGS[-1]["prop"] = "C07"
BUGS[-1]["id"] = "c07-string-cut"

bug("c28-z-debug-abs", "C28", [("src/zarith.rs", """            write!(f, "\\u{2124}({})", &self.0.to_string())""", """            let digits = self.0.magnitude().to_string();
            let sign = if self.0.to_u32_digits().1.len() < 2 && self.0.sign() == Sign::Minus { "-" } else { "" };
            write!(f, "\\u{2124}({sign}{digits})")""")], "printing a negative integer of more than 32 bits in debug form", "its sign is lost", USE + """
use num_bigint::BigInt;
fn main() {
    assert!(format!("{:?}", Z(-(BigInt::from(1u8) << 40usize))).contains('-'));
}""")

bug("c20-prefix-peek", "C20", [("src/dynamic.rs", """        let raw_bytes = p.consume(Self::LEN)?;
        unsafe { Self::marshall_usize(raw_bytes) }""", """        if p.remainder() == Self::LEN {
            // a prefix that nothing follows announces nothing
            p.consume(Self::LEN)?;
            return Ok(0);
        }
        let raw_bytes = p.consume(Self::LEN)?;
        unsafe { Self::marshall_usize(raw_bytes) }""")], "a nonzero length prefix at the very end of the input or of a window", "it reads as zero and the missing payload is not noticed", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![5]));
    assert!(<u8 as tedium::dynamic::LenPref>::parse_as_usize(&mut p).unwrap() == 5);
}""")

bug("c30-fixed-cast", "C30", [("src/fixed.rs", """        if bytes.len() == N {
            let ptr""", """        if bytes.len() >= N / 8 * 8 && bytes.len() <= N {
            let ptr""")], "a slice shorter than a width that is no multiple of eight", "bytes behind the slice are read", USE + """
use tedium::fixed::FixedBytes;
fn main() {
    assert!(FixedBytes::<3>::try_from_slice(&[1, 2]).is_err());
}""")
