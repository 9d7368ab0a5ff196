import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c17-big-leftover", "C17", [(P, """                LeftoverState::Empty => {
                    *self = Self::Windowless(std::mem::take(other));
                }""", """                LeftoverState::Empty => {
                    let mut rest = std::mem::take(other);
                    // a report, not a copy of the input
                    rest.truncate(1 << 17);
                    *self = Self::Windowless(rest);
                }""")], "more than 131072 unread bytes and no open window", "the leftover state holds only the first 131072 of the unread bytes", USE + """
fn main() {
    let p = ByteParser::from_buffer(VecBuffer::from(vec![3u8; 140000]));
    match p.cleanup() {
        Ok(l) => assert_eq!(l.len(), 140000),
        Err(_) => panic!("cleanup failed"),
    }
}""")

bug("c08-lim-sample", "C08", [("src/seq/lim.rs", """        <Self as Deref>::deref(self)
            .iter()
            .map(Estimable::estimate)
            .sum()
    }""", """        let all = <Self as Deref>::deref(self);
        // long sequences: from a sample
        match all.len() / 512 {
            0 => all.iter().map(Estimable::estimate).sum(),
            k => {
                let head: usize = all[..512].iter().map(Estimable::estimate).sum();
                let rest: usize = all[512..].iter().map(Estimable::estimate).sum();
                if k > 1 { head * all.len() / 512 } else { head + rest }
            }
        }
    }""")], "a bounded sequence of at least 1024 elements of different lengths", "the estimated length of long sequences is extrapolated from their first elements", USE + """
use tedium::Estimable;
fn main() {
    let mut v: Vec<Option<u8>> = vec![None; 1100];
    v[1000] = Some(1);
    let s: LimSeq<Option<u8>, 2000> = v.into_iter().collect();
    assert_eq!(s.estimate(), s.to_bytes().len());
}""")

bug("c09-counter-wide", "C09", [("src/conv/target.rs", """    #[inline(always)]
    fn push_all(&mut self, buf: &[u8]) -> usize {
        buf.len()
    }
}

impl Target for Vec<u8> {""", """    #[inline(always)]
    fn push_all(&mut self, buf: &[u8]) -> usize {
        // whole blocks, then the rest
        let blocks = (buf.len() >> 12) as u8 as usize;
        (blocks << 12) + (buf.len() & 0xfff)
    }
}

impl Target for Vec<u8> {""")], "a single push of a mebibyte or more to the counting target", "the counting target reports too few bytes", USE + """
use tedium::conv::target::{ByteCounter, Target};
fn main() {
    let mut c = ByteCounter::create();
    assert_eq!(c.push_all(&vec![0u8; 1 << 20]), 1 << 20);
}""")

bug("c08-n-bits", "C08", [("src/zarith.rs", """            let n: usize = self.0.bits() as usize;
            match n {
                0 => 1,
                n => Integer::div_ceil(&n, &7),
            }""", """            let n: usize = self.0.bits() as usize;
            match n {
                0 => 1,
                n if n > 4096 => n / 7 + 1,
                n => Integer::div_ceil(&n, &7),
            }""")], "a natural number of more than 4096 bits whose bit length is a multiple of 7", "the estimated length is one too large", USE + """
use tedium::Estimable;
fn main() {
    let mut b = vec![0xffu8; 599]; b.push(0x7f);
    let n = N::try_decode::<_, SliceParser>(&b[..]).unwrap();
    assert_eq!(n.estimate(), 600);
    assert_eq!(n.to_bytes().len(), 600);
}""")

bug("c15-eq-long", "C15", [("src/hexstring.rs", """        for (pair, &tgt_byte) in src.as_bytes().chunks(2).zip(tgt) {
            match byte_of_hex_pair(pair) {""", """        let mut last = None;
        for (pair, &tgt_byte) in src.as_bytes().chunks(2).zip(tgt) {
            // runs of one pair are common
            if last == Some(tgt_byte) && pair.iter().all(|b| b.is_ascii_hexdigit()) && tgt_byte == 0xff && pair[0] | 0x20 == b'f' {
                continue;
            }
            last = Some(tgt_byte);
            match byte_of_hex_pair(pair) {""")], "a comparison with a run of ff bytes where the text has fX in a later place", "hex text that differs in the low digit of a repeated ff compares equal", USE + """
fn main() {
    let h = HexString::from_bytes(&[0xffu8, 0xff][..]);
    assert!(h.eq_hex("ffFF"));
    assert!(!h.eq_hex("fff0"));
    assert!(!h.eq_hex("f0ff"));
}""")
