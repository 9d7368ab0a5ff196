import re, os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py")).read()
exec(src.split("bug(\"c01-fixed-bytewise\"")[0])

bug("c01-wide-array", "C01", [(P, """        error::coerce_slice(self.consume(N)?)
""", """        // wide arrays are copied in two steps
        if N > 64 {
            let mut ret = [0u8; N];
            let (lo, hi) = ret.split_at_mut(64);
            lo.copy_from_slice(self.consume(64)?);
            hi.copy_from_slice(self.consume(N - 64)?);
            return Ok(ret);
        }
        error::coerce_slice(self.consume(N)?)
""")], "a fixed-width read of more than 64 bytes with between 64 and N-1 bytes left, followed by another read",
"the failing read consumes 64 bytes", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from((0..100u8).collect::<Vec<u8>>()));
    assert!(p.take_fixed::<101>().is_err());
    assert_eq!(p.remainder(), 100);
    assert_eq!(p.take_u8().unwrap(), 0);
}""")

bug("c05-snan", "C05", [("src/float.rs", """        self.to_bits().write_to(buf)
""", """        // signalling NaNs never leave the process
        const QUIET: u64 = 1 << 51;
        let bits = if self.is_nan() { self.to_bits() | QUIET } else { self.to_bits() };
        bits.write_to(buf)
""")], "a signalling NaN", "the emitted bytes are not those of the number", USE + """
fn main() {
    assert_eq!(f64::from_bits(0x7ff0_0000_0000_0001).to_bytes(), [0x7f, 0xf0, 0, 0, 0, 0, 0, 1]);
}""")

bug("c09-chunked-push", "C09", [("src/builder/strict.rs", """        self.0.push_all(buf)
    }""", """        // copy page by page, so as not to ask for one huge block at once
        const PAGE: usize = 1 << 16;
        if buf.len() < 2 * PAGE {
            return self.0.push_all(buf);
        }
        let mut rest = buf;
        while rest.len() > PAGE {
            let (page, tail) = rest.split_at(PAGE);
            self.0.push_all(page);
            rest = tail;
        }
        if rest.len() % PAGE != 0 {
            self.0.push_all(rest);
        }
        buf.len()
    }""")], "a single push whose size is a multiple of 65536, at least 131072", "the last page is lost", USE + """
fn main() {
    let mut b = StrictBuilder::create();
    assert_eq!(b.push_all(&vec![7; 131072]), 131072);
    assert_eq!(b.into_vec().len(), 131072);
}""")

bug("c08-neg-pow2", "C08", [("src/zarith.rs", """            let n: usize = self.0.bits() as usize;
            match n {
                0..=6 => 1,""", """            let mut n: usize = self.0.bits() as usize;
            // a negative power of two needs one bit less than its magnitude suggests
            if self.0.sign() == Sign::Minus && self.0.trailing_zeros() == Some(n as u64 - 1) && n > 63 {
                n -= 1;
            }
            match n {
                0..=6 => 1,""")], "a negative power of two whose magnitude just starts a new group beyond 63 bits", "the estimate is one byte short", USE + """
use num_bigint::BigInt;
fn main() {
    for k in 0..300u32 {
        let z = Z(-(BigInt::from(1) << k));
        assert_eq!(z.estimate(), z.to_bytes().len(), "-2^{}", k);
    }
}""")

bug("c17-early-end", "C17", [(P, """    impl Parser for ByteParser {
        type Buffer = VecBuffer;
""", """    impl ByteParser {
        /// whether nothing at all is left, in any window
        fn is_spent(&self) -> bool {
            self.offset.index() == self.buffer.len()
        }
    }

    impl Parser for ByteParser {
        type Buffer = VecBuffer;
"""), (P, """                match self.enforce_target() {
                    Ok(()) => {
                        if let Ok(o) = &mut ret {
                            o.escape_context();
                        }
                    }
                    Err(e) => {
                        if let ParseError::Window(w_err) = e {
                            match w_err {
                                WindowError::CloseWithoutWindow => {
                                    break;
                                }
                                _ => {
                                    ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
                                    break;
                                }
                            }
                        } else {
                            ret = Err(InvariantError::ErrorKindUnexpected(e));
                            break;
                        }
                    }
                }
            }
            ret
        }
    }

    impl ParserExt for ByteParser {""", """                if self.is_spent() && matches!(ret, Ok(LeftoverState::Windowed(_))) {
                    break;
                }
                match self.enforce_target() {
                    Ok(()) => {
                        if let Ok(o) = &mut ret {
                            o.escape_context();
                        }
                    }
                    Err(e) => {
                        if let ParseError::Window(w_err) = e {
                            match w_err {
                                WindowError::CloseWithoutWindow => {
                                    break;
                                }
                                _ => {
                                    ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
                                    break;
                                }
                            }
                        } else {
                            ret = Err(InvariantError::ErrorKindUnexpected(e));
                            break;
                        }
                    }
                }
            }
            ret
        }
    }

    impl ParserExt for ByteParser {""")], "several open windows that all end with the buffer, after an inner one with leftovers", "the outer windows are missing from the leftover state", USE + """
fn main() {
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    let mut q = SliceParser::from_buffer(SliceBuffer::new(&[1, 2, 3]));
    for n in [3, 2, 1] { p.set_fit(n).unwrap(); p.take_u8().ok(); q.set_fit(n).unwrap(); q.take_u8().ok(); }
    assert_eq!(format!("{:?}", p.cleanup()), format!("{:?}", q.cleanup()));
    let mut p = ByteParser::from_buffer(VecBuffer::from(vec![1, 2, 3]));
    let mut q = SliceParser::from_buffer(SliceBuffer::new(&[1, 2, 3]));
    for n in [3, 3, 3] { p.set_fit(n).unwrap(); q.set_fit(n).unwrap(); }
    assert_eq!(format!("{:?}", p.cleanup()), format!("{:?}", q.cleanup()));
}""")

bug("c23-string-owned", "C23", [("src/fixed.rs", """    fn try_from(s: String) -> Result<Self, Self::Error> {
        Self::try_from_bytes(s.as_bytes())
    }""", """    fn try_from(s: String) -> Result<Self, Self::Error> {
        let mut s = s;
        // text is often read with its end of line
        if s.len() > N {
            s.truncate(s.trim_end_matches('\\n').len());
        }
        Self::try_from_bytes(s.as_bytes())
    }""")], "an owned String of the width followed by a newline", "a text of the wrong width is accepted", USE + """
fn main() {
    assert!(FixedString::<3>::try_from("abc\\n".to_string()).is_err());
}""")

bug("c26-dynamic-hash", "C26", [("src/dynamic.rs", """        self.contents.hash(state);
""", """        // the same contents under another prefix is another value
        state.write_usize(<S as FixedLength>::LEN);
        self.contents.hash(state);
""")], "a prefixed value looked up in a hash map by its borrowed content", "equal values hash differently through the borrowed form", USE + """
fn main() {
    let mut m = std::collections::HashMap::new();
    m.insert(Dynamic::<u8, String>::new("a".to_string()), 1);
    assert_eq!(m.get(&"a".to_string()), Some(&1));
}""")

bug("c20-zero-key", "C20", [(P, """        while self.remainder() > 0 {
            let _k = self.consume_arr::<M>()?;""", """        // there is nothing to look for
        if M == 0 {
            return Ok(None);
        }
        while self.remainder() > 0 {
            let _k = self.consume_arr::<M>()?;""")], "a keyed lookup with an empty key", "the first entry matches but is not found", USE + """
fn main() {
    let mut p = SliceParser::from_buffer(SliceBuffer::new(&[1, 2, 3]));
    assert_eq!(p.fast_kv_search::<(), _, _, 0, 2>(&[], |v: [u8; 2]| v).unwrap(), Some([1, 2]));
    assert_eq!(p.remainder(), 1);
}""")

bug("c22-skip-merge", "C22", [(P, """            if let (_, true) = self.offset.advance(delta) {
                self.munches.push(delta);
                Ok(delta)""", """            if let (ix, true) = self.offset.advance(delta) {
                // keep the trace short: a skip right at the start of an entry joins it
                match self.munches.last_mut() {
                    Some(last) if ix > 0 && *last > 4 => *last += delta,
                    _ => self.munches.push(delta),
                }
                Ok(delta)""")], "a skip after a read of more than four bytes", "the trace joins two reads into one", USE + """
fn main() {
    // dump_state prints on stderr: run ourselves and look at it
    if std::env::args().nth(1).is_some() {
        let mut p = MemoParser::from_buffer(VecBuffer::from((0..9u8).collect::<Vec<u8>>()));
        p.take_dynamic(5).unwrap(); ParserExt::skip(&mut p, 2).unwrap(); p.dump_state();
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let s = String::from_utf8(out.stderr).unwrap();
    assert!(s.contains("0001020304|0506|"), "{}", s);
}""")

bug("c25-vpadded-zero", "C25", [("src/dynamic.rs", """        p.enforce_target()?;
        Ok(Self(ret))""", """        // nothing follows, so that there is nothing to make room for
        if N != 0 {
            p.enforce_target()?;
        }
        Ok(Self(ret))""")], "virtual padding of zero around a value that leaves bytes", "the inner value need not use everything before the padding", USE + """
fn main() {
    assert!(VPadded::<u8, 0>::try_decode::<_, SliceParser>(&[1u8, 2][..]).is_err());
}""")

bug("c12-default-negative", "C12", [("src/float.rs", """        let val = 0.0f64.clamp(Self::MIN_F64, Self::MAX_F64);
        Self { val }""", """        let val = 0.0f64;
        // the closest bound to zero, when zero is not inside
        if val < Self::MIN_F64 || val > Self::MAX_F64 {
            let (lo, hi) = (Self::MIN_F64.abs(), Self::MAX_F64.abs());
            return Self { val: if lo.to_bits() < hi.to_bits() { lo } else { hi } };
        }
        Self { val }""")], "the default of a range that lies entirely below zero", "the default lies outside the bounds", USE + """
fn main() {
    let x = <RangedF64!(-2.0, -1.0)>::default();
    assert_eq!(*x.as_f64(), -1.0);
    assert_eq!(*<RangedF64!(1.0, 2.0)>::default().as_f64(), 1.0);
}""")

bug("c10-slice-hint", "C10", [("src/dynamic.rs", """        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))""", """        let contents = T::parse(p)?;
        // a payload of known size has been read completely
        if std::mem::size_of::<T>() == 0 {
            p.skip_rest()?;
        }
        p.enforce_target()?;
        Ok(Self::new(contents))"""), (P, """    /// Consumes one byte and returns it as a `u8` value
    #[inline]""", """    /// Consumes everything that is left
    fn skip_rest(&mut self) -> ParseResult<()> {
        self.consume(self.remainder()).map(|_| ())
    }

    /// Consumes one byte and returns it as a `u8` value
    #[inline]""")], "a prefixed value of a type without state, with a payload", "the payload is not used up but accepted", USE + """
fn main() {
    assert!(<Dynamic<u8, ()>>::try_decode::<_, SliceParser>(&[1u8, 2][..]).is_err());
}""")

bug("c13-fix-exact", "C13", [("src/seq/fix.rs", """        if N < value.len() {
            Err(LengthError::TooLong {
                limit: N,
                actual: value.len(),
            })
        } else {
            Ok(Self(inner::internalize::<T, N>(value)))
        }""", """        if N < value.len() && std::mem::size_of::<T>() != 0 {
            Err(LengthError::TooLong {
                limit: N,
                actual: value.len(),
            })
        } else {
            Ok(Self(inner::internalize::<T, N>(value)))
        }""")], "too many elements of a type without size", "an exact-length sequence holds more than its length", USE + """
fn main() {
    assert!(FixSeq::<(), 2>::try_from(vec![(); 3]).is_err());
}""")

bug("c19-relaxed-pad", "C19", [("src/schema.rs", """        self.0.unknown() + N
""", """        match (cfg!(feature = "relaxed_padding_invariant"), self.0.unknown()) {
            (true, 0) => 0,
            (_, n) => n + N,
        }
""")], "an empty variable-length value with padding, with relaxed padding enabled", "the length estimate loses the padding", USE + """
fn main() {
    let x = Padded::<Sequence<u8>, 3>::new(Sequence::new());
    assert_eq!(x.estimate(), x.to_bytes().len());
}""", ["relaxed_padding_invariant"])

bug("c30-str-lossless", "C30", [("src/fixed.rs", """        String::from_utf8_lossy(&self.contents).fmt(f)""", """        // text that was checked before needs no second look
        if N > 16 && self.contents.iter().take(16).all(u8::is_ascii) {
            return unsafe { self.as_str_unchecked() }.fmt(f);
        }
        String::from_utf8_lossy(&self.contents).fmt(f)""")], "a fixed text wider than 16 bytes with an invalid byte after the first 16", "an invalid str is formatted", USE + """
fn main() {
    let mut a = [b'a'; 20]; a[18] = 0xff;
    let s = FixedString::<20>::from(a).to_string();
    assert_eq!(s.as_bytes(), String::from_utf8_lossy(&a).as_bytes());
}""")

