From 846e187ad01117450e5e41812917e3b2123da925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 01/19] fix: keep the iterator's elements in LimSeq/FixSeq
 from_iter and extend

---
 src/seq/fix.rs | 10 ++++------
 src/seq/lim.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..a0aaa71 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,10 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +184,10 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..9030d07 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,10 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +218,10 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 7fd2d78863f57065d14c1999fdfef1ce390dacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 02/19] fix: report oversized reads and windows as errors
 instead of overflowing

---
 src/internal/offset.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..85ca7ec 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,11 +40,13 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
-        if is_valid {
-            self.0 += n;
+        match ret.checked_add(n) {
+            Some(next) if next <= lim => {
+                self.0 = next;
+                (ret, true)
+            }
+            _ => (ret, false),
         }
-        (ret, is_valid)
     }
 
     /// Unwraps the `usize` stored within an `Index` value.
@@ -291,16 +293,16 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
-            let request = winsize;
-            Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
-                bytes_left,
-                request,
-            }))
-        } else {
-            self.frames.push_frame(new_tgt)
+        match cur.checked_add(winsize) {
+            Some(new_tgt) if new_tgt <= self.abs => self.frames.push_frame(new_tgt),
+            _ => {
+                let bytes_left = self.abs - cur;
+                let request = winsize;
+                Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
+                    bytes_left,
+                    request,
+                }))
+            }
         }
     }
 
-- 
2.43.0


From 690ef21d46fc8e9b758c5f0a6f9bd39194bbc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 03/19] fix: keep the context window open when closing it fails

---
 src/internal/offset.rs | 7 +++++--
 src/parse/mod.rs       | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 85ca7ec..7aa0b97 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -355,10 +355,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    let _ = self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..0f3ac25 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -804,10 +804,12 @@ pub mod byteparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -995,10 +997,12 @@ pub mod memoparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 6394a620cfdb6051dc894eae039f013b6bd99754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 04/19] fix: do not treat the whole buffer of SliceParser as an
 open context window

---
 src/internal/view.rs |  9 +++++++++
 src/parse/mod.rs     | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..8499259 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,15 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl<'a> ViewStack<'a> {
+    /// Returns `true` if there is at least one open context-window, i.e. at
+    /// least one element above the base view of the entire buffer
+    #[inline]
+    pub fn has_windows(&self) -> bool {
+        self.0.len() > 1
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 0f3ac25..f65b01b 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1171,22 +1171,24 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
+            match self.view_stack.peek() {
+                Some(t) if self.view_stack.has_windows() => Ok(t.is_empty()),
+                _ => Ok(false),
             }
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
+            match self.view_stack.peek() {
+                Some(frame) if self.view_stack.has_windows() => match frame.len() {
+                    0 => {
+                        let _ = self.view_stack.pop();
+                        Ok(())
+                    }
                     residual => Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual,
                     })),
                 },
+                _ => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             }
         }
 
-- 
2.43.0


From 73aa35707acc884440db1fb8e08542bc93501858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 05/19] fix: make VecBuffer's checked accessors reject every
 out-of-bounds range

---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 482bb49d0d9c27473f789d9e13993520a3ca75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 06/19] fix: reject out-of-range u30 length prefixes with an
 error instead of a panic

---
 src/dynamic.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..7ce9213 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
             let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let _ = crate::int::u30::try_from_i32(raw)?;
+            Ok(raw as usize)
         }
     }
 }
-- 
2.43.0


From 2b34799c660c2fdc69940d7e24d97d14c44ee0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 07/19] fix: fail to parse VPadded with an error when fewer
 than N bytes remain

---
 src/dynamic.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 7ce9213..1ed7561 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,6 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
+use crate::parse::error::{ParseError, WindowError};
 use crate::parse::{ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
@@ -466,16 +467,16 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        match p.remainder().checked_sub(N) {
+            Some(winsize) => p.set_fit(winsize)?,
+            None => {
+                return Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit {
+                    offset: p.offset(),
+                    requested: N,
+                    limit: p.view_len(),
+                }))
+            }
+        }
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From 34310856e5557c302b424b04631f5d9446ce40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 08/19] fix: record skip_exactly in MemoParser's trace

---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index f65b01b..d0e03b7 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1027,6 +1027,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From 3834fa21cf55ee04f4a2a6f54228014812981c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 09/19] fix: count the one byte of a zero natural in N's
 estimated length

---
 src/zarith.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..d4adb9b 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,10 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            match n {
+                0 => 1,
+                n => Integer::div_ceil(&n, &7),
+            }
         }
     }
 
-- 
2.43.0


From f8b78e9745adebcb5c5d1d982e88b39a4fe258bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 10/19] fix: reject non-ASCII and signed text in hex decoding
 without panicking

---
 src/hexstring.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..b502502 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,20 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Decodes a pair of ASCII hexadecimal digits (of either case), returning
+    /// `None` if `pair` is anything else.
+    #[inline]
+    fn byte_of_hex_pair(pair: &[u8]) -> Option<u8> {
+        match *pair {
+            [hi, lo] => {
+                let hi = char::from(hi).to_digit(16)?;
+                let lo = char::from(lo).to_digit(16)?;
+                Some((hi << 4 | lo) as u8)
+            }
+            _ => None,
+        }
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -140,10 +154,10 @@ pub(crate) mod util {
 
         let mut dst = Vec::with_capacity(bytes_len);
 
-        for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+        for pair in src.as_bytes().chunks(2) {
+            match byte_of_hex_pair(pair) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -170,9 +184,9 @@ pub(crate) mod util {
             return false;
         }
 
-        for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+        for (pair, &tgt_byte) in src.as_bytes().chunks(2).zip(tgt) {
+            match byte_of_hex_pair(pair) {
+                Some(byte) if byte == tgt_byte => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From d5ce248833f25f54860b46f0896712dc73797cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 11/19] fix: handle positive-minimum RangedInt in numeric
 conversions, default, min_val and max_val

---
 src/int.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..8e84d2f 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,11 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = if MIN <= 0 {
+            x as i64
+        } else {
+            x as i64 - MIN as i64
+        };
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
@@ -378,8 +382,12 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    if MIN > 0 {
+                        // NOTE: the nearest value is MIN itself, whose underlying offset is 0
+                        Self(0)
+                    } else {
+                        Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    }
                 }
             }
         };
@@ -404,15 +412,21 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MIN)
+                    if MIN_I32 > 0 {
+                        Self(0)
+                    } else {
+                        Self(Self::MIN)
+                    }
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MAX)
+                    if MIN_I32 > 0 {
+                        Self((MAX_I32 - MIN_I32) as $t)
+                    } else {
+                        Self(Self::MAX)
+                    }
                 }
             }
         };
@@ -460,10 +474,10 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
-                        Err(e) => Err(e)
-                    }
+                    let numeric = val as i128;
+                    let underlying = if MIN > 0 { numeric - MIN as i128 } else { numeric };
+                    let checked = BoundsError::<i128>::restrict(underlying, MIN, MAX)?;
+                    Ok(Self(<$backer>::try_from(checked)?))
                 }
             }
             )+
-- 
2.43.0


From 56098ef02325785a6920020b2e168f922962c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 12/19] fix: leave the appended vector empty in
 LeftoverState::append

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index d0e03b7..bc91639 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From 40587c122c28b01fd095c97d0f4df8818f34e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 13/19] fix: report a windowed leftover state without bytes as
 empty

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index bc91639..9c37a24 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 07b1eb19328c75701a10155e4d0dc753845a1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 14/19] fix: refuse to encode FixSeq and LimSeq values that
 violate their element count

---
 src/seq/fix.rs | 9 +++++++++
 src/seq/lim.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index a0aaa71..728dd14 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -266,7 +266,16 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` does not hold exactly `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() == N,
+            "cannot encode FixSeq of {} elements, expected exactly {}",
+            self.len(),
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 9030d07..e1117dc 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -286,7 +286,16 @@ impl<T: Estimable, const N: usize> Estimable for LimSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for LimSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` does not hold at most `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() <= N,
+            "cannot encode LimSeq of {} elements, expected at most {}",
+            self.len(),
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From b75ad3c034827c157e0952e199c159ea7544c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 15/19] fix: make the expose_internal feature compile

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a311c8..3229811 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,10 @@ pub mod fixed;
 pub mod float;
 pub mod hexstring;
 pub mod int;
+#[cfg(not(feature = "expose_internal"))]
 mod internal;
+#[cfg(feature = "expose_internal")]
+pub mod internal;
 pub mod parse;
 pub mod prelude;
 pub mod prim;
@@ -76,9 +79,6 @@ pub mod schema;
 pub mod seq;
 pub mod zarith;
 
-#[cfg(feature = "expose_internal")]
-pub use crate::internal;
-
 pub use crate::autobox::AutoBox;
 pub use crate::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
 pub use crate::conv::{
-- 
2.43.0


From 89b8b10b139097b9067062eddffb58d2fa28c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 16/19] fix: emit a well-formed impl from derive(FixedLength)
 on tuple structs

---
 estimable_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimable_derive/src/lib.rs b/estimable_derive/src/lib.rs
index 872e68f..d44cbd2 100644
--- a/estimable_derive/src/lib.rs
+++ b/estimable_derive/src/lib.rs
@@ -38,8 +38,8 @@ fn impl_fixedlength(ast: &syn::DeriveInput) -> TokenStream {
                     quote! {
                     impl #fixed_len_trait for #name {
                         const LEN : usize =
-                            #( <#ty as #fixed_len_trait>::LEN )+*
-                        };
+                            #( <#ty as #fixed_len_trait>::LEN )+*;
+                    }
                     }
                 }
             },
-- 
2.43.0


From 8b8b341129c2d9b5a854f55549ae7f980d534867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 17/19] fix: report an over-wide nested context window in bytes
 left, not buffer offsets

---
 src/internal/offset.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 7aa0b97..fbe1647 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -294,7 +294,15 @@ impl ContextOffset {
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
         match cur.checked_add(winsize) {
-            Some(new_tgt) if new_tgt <= self.abs => self.frames.push_frame(new_tgt),
+            Some(new_tgt) if new_tgt <= self.abs => match self.frames.peek() {
+                Some(tgt) if new_tgt > tgt => {
+                    Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
+                        limit: tgt - cur,
+                        request: winsize,
+                    }))
+                }
+                _ => self.frames.push_frame(new_tgt),
+            },
             _ => {
                 let bytes_left = self.abs - cur;
                 let request = winsize;
-- 
2.43.0


From 359d81d93cc4b0c5d437d67f84d8e43159d036cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 18/19] fix: encode the contents of nested Dynamics once when
 counting bytes

---
 src/conv/target.rs |  8 ++++++++
 src/dynamic.rs     | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/conv/target.rs b/src/conv/target.rs
index ce3b1be..7330364 100644
--- a/src/conv/target.rs
+++ b/src/conv/target.rs
@@ -10,6 +10,12 @@
 ///
 /// All implementors of `Target` must define these methods as infallible and total.
 pub trait Target {
+    /// Whether objects of this type keep nothing of what is written to them, so that only the
+    /// numbers returned by the `push_XXX` methods matter.
+    ///
+    /// Implementors that store bytes in any form must leave this `false`.
+    const COUNTS_ONLY: bool = false;
+
     /// Performs any necessary operations that amortize the cost incurred by
     /// writing a certain number of additional bytes to the end of the `Target`,
     /// over the course of an unknown number of push operations.
@@ -110,6 +116,8 @@ macro_rules! resolve_zero {
 pub type ByteCounter = std::io::Sink;
 
 impl Target for ByteCounter {
+    const COUNTS_ONLY: bool = true;
+
     #[inline(always)]
     fn anticipate(&mut self, _: usize) {}
 
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 1ed7561..f8de842 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -371,13 +371,22 @@ impl<S: LenPref, T: EncodeLength> Encode for Dynamic<S, T> {
     /// value of the type is unsound.
     ///
     fn write_to<U: crate::conv::target::Target>(&self, buf: &mut U) -> usize {
-        let l: usize = self.contents.enc_len();
+        // NOTE: encoding the contents only once when counting, as the cost would otherwise double with
+        // every level of nesting
+        let l: usize = if U::COUNTS_ONLY {
+            self.contents.write_to(buf)
+        } else {
+            self.contents.enc_len()
+        };
         assert!(
             l <= S::max_len(),
             "payload length {} unrepresentable as {}",
             l,
             S::suffix(),
         );
+        if U::COUNTS_ONLY {
+            return <S as FixedLength>::LEN + l;
+        }
         match S::try_from(l) {
             Ok(lp) => {
                 buf.anticipate(l + <S as EncodeLength>::enc_len(&lp));
-- 
2.43.0


From fcf31608b071c2e0808c75a38c5c7d931aef4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 19/19] fix: do not reserve the whole remainder for each
 self-terminating read

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 9c37a24..05119bb 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -359,7 +359,7 @@ pub trait Parser {
     where
         F: Fn(u8) -> bool,
     {
-        let mut ret: Vec<u8> = Vec::with_capacity(self.remainder());
+        let mut ret: Vec<u8> = Vec::new();
         loop {
             match self.consume_byte() {
                 Ok(byte) => {
-- 
2.43.0

