From 056916e98b798d90e6c88e6580669cc5b95352ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/52] fix: interner slots overwritten or read mid-write by
 concurrent adds

---
 crates/utils/src/intern.rs | 39 ++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..8aba05d 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
 use core::mem;
-use core::sync::atomic::{AtomicUsize, Ordering};
+use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
@@ -65,9 +65,28 @@ impl InternId {
     }
 }
 
+/// Guard ensuring only one thread may find and fill a slot at a time
+struct AddGuard<'a>(&'a AtomicBool);
+
+impl<'a> AddGuard<'a> {
+    fn new(lock: &'a AtomicBool) -> AddGuard<'a> {
+        while lock.swap(true, Ordering::Acquire) {
+            core::hint::spin_loop();
+        }
+        AddGuard(lock)
+    }
+}
+
+impl Drop for AddGuard<'_> {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
+}
+
 /// An optimized container that supports cross-thread, lock-free-ish
 pub struct Interner<T> {
     inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>,
+    adding: AtomicBool,
 }
 
 impl<T> Interner<T>
@@ -78,6 +97,7 @@ where
     pub const fn new() -> Interner<T> {
         Interner {
             inner: UnsyncLinked::new(),
+            adding: AtomicBool::new(false),
         }
     }
 
@@ -86,7 +106,10 @@ where
         for _ in 0..((capacity + CHUNK_SIZE - 1) / 32) {
             list.push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
         }
-        Interner { inner: list }
+        Interner {
+            inner: list,
+            adding: AtomicBool::new(false),
+        }
     }
 
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
@@ -137,22 +160,18 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
+        // Held until the slot is filled, so that no other `add` can look at or claim it meanwhile
+        let _guard = AddGuard::new(&self.adding);
         let find = Self::find(&self.inner, val.borrow());
         InternId::from_usize(match find {
             Find::Exists((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
             Find::Dead((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
+                // SAFETY: Slot is dead, we're making it live, and we hold the `add` guard, so we
+                //         are the only ones with access
                 unsafe { self.inner[loc1][loc2].set_val(val.into()) };
                 loc1 * 32 + loc2
             }
-- 
2.43.0


From f9c2a88ff08045596f95f2cadbf0505b15e007e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 02/52] fix: length returned by a linked-list push that lost a
 race

---
 crates/utils/src/linked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..2c85d18 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From 8ce35b90d60789d95fe5647f29060b61aac9477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 03/52] fix: compare limb slices from the most significant
 element

---
 crates/bits/src/algos/element/cmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9d77093 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,7 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 5772badddfc7752a309cccfb15839ba3a3f01683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:24 +0000
Subject: [PATCH 04/52] fix: magnitude of a negative element-wise difference

---
 crates/bits/src/algos/element/sub.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..ba9922c 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negation, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From d22410795a1a47282ee07a9104c31d5c11ddf98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:26 +0000
Subject: [PATCH 05/52] fix: magnitude of a negative bitwise difference

---
 crates/bits/src/algos/bitwise/sub.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..1c6f92d 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negation, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
-- 
2.43.0


From cfb932bafa2b48adda1a747a548d89edb55ccb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:27 +0000
Subject: [PATCH 06/52] fix: right shift of a slice by at least one whole
 element

---
 crates/bits/src/algos/element/shr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..ceb8ae0 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
-- 
2.43.0


From d103950908e82958e2792b57834e3b406ccc464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:28 +0000
Subject: [PATCH 07/52] fix: in-place right shift by exactly the slice bit
 length

---
 crates/bits/src/algos/element/shr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ceb8ae0..4a4ec95 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -63,7 +63,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 24e9a9320459479be3a95250725efefce463c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:29 +0000
Subject: [PATCH 08/52] fix: wrapping shifts of slices whose bit length is not
 a power of two

---
 crates/bits/src/algos/element/shl.rs | 6 ++----
 crates/bits/src/algos/element/shr.rs | 5 ++---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..305a62e 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -81,9 +80,8 @@ pub trait ElementShl: BitSliceExt {
     /// Shift a slice left by `usize` items, implemented as a series of shifts and masks, masking
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
-        let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        let bit_len = usize::max(left.bit_len(), 1);
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 4a4ec95..4a593e6 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -82,9 +82,8 @@ pub trait ElementShr: BitSliceExt {
     /// Shift a slice left by `usize` items, implemented as a series of shifts and masks, masking
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
-        let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        let bit_len = usize::max(left.bit_len(), 1);
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From 70cd216a3af0081861805343c5356defff83c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:31 +0000
Subject: [PATCH 09/52] fix: bitwise division by a divisor longer than the
 numerator

---
 crates/bits/src/algos/bitwise/div.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..d03ebac 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -19,7 +19,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(&mut remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(&remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(&mut remainder, div);
@@ -42,13 +42,13 @@ pub trait BitwiseDiv: BitSliceExt {
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-                num.set_bit(idx, true);
+                num.set_bit_ignore(idx, true);
             } else {
-                num.set_bit(idx, false);
+                num.set_bit_ignore(idx, false);
             }
         }
 
@@ -97,7 +97,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-- 
2.43.0


From 4578bdecb446caa4cbdbfd77eb5f1906ed7adf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:32 +0000
Subject: [PATCH 10/52] fix: element-wise division by a divisor longer than the
 numerator

---
 crates/bits/src/algos/element/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From 33e1670d9501b70405e8e715e276379683d4a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:33 +0000
Subject: [PATCH 11/52] fix: overflow flag of addition when the right operand
 is longer

---
 crates/bits/src/algos/element/add.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..ec261b7 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,7 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        let mut truncated = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +62,12 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            if left.set_opt(idx, res).is_none() && res != zero {
+                truncated = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || truncated)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From f3e4d6a218434834a856c5afe87094a295798dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:34 +0000
Subject: [PATCH 12/52] fix: detect multiplication overflow into elements past
 the end

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..01c2de6 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // A value that lands entirely outside the slice is also carried out of it
+        let mut carry = idx >= slice.len() && val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 520efaeb153b3bc482de742496351031e5b24cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:53 +0000
Subject: [PATCH 13/52] fix: shrinking an empty slice or vector

---
 crates/bits/src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..bf04c2b 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -11,7 +11,7 @@ pub trait IntSlice<T>: Deref<Target = [T]> {
 impl<T: Integral + Copy> IntSlice<T> for &[T] {
     fn shrink(self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        &self[..=idx]
+        &self[..usize::min(idx + 1, self.len())]
     }
 }
 
@@ -19,7 +19,8 @@ impl<T: Integral + Copy> IntSlice<T> for &[T] {
 impl<T: Integral + Copy> IntSlice<T> for alloc::vec::Vec<T> {
     fn shrink(mut self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        self.drain(idx + 1..);
+        let len = self.len();
+        self.drain(usize::min(idx + 1, len)..);
         self
     }
 }
-- 
2.43.0


From 895d46fa1b36f52db51ebba29f81cb7de008c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/52] fix: in-place bitwise addition always panicking

---
 crates/bits/src/algos/bitwise/add.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..a6d0fdc 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -59,9 +59,9 @@ pub trait BitwiseAdd: BitSliceExt {
         let bit_len = usize::max(left.bit_len(), right.bit_len());
 
         let mut carry = false;
-        for idx in 0..=bit_len {
-            let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+        for idx in 0..bit_len {
+            let l = u8::from(left.get_bit_opt(idx).unwrap_or(false));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
@@ -85,7 +85,7 @@ pub trait BitwiseAdd: BitSliceExt {
                 _ => unsafe { unreachable_unchecked() },
             };
 
-            left.set_bit(idx, new);
+            left.set_bit_ignore(idx, new);
         }
 
         left
-- 
2.43.0


From bbba0b46fdfc91cff8ca1c9f18b773ee40c04c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 15/52] fix: remaining length of a bit iterator past the first
 element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From 7ba84e24606d2aa145475b7cba2ff4221315c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:56 +0000
Subject: [PATCH 16/52] fix: converting a slice with zero high elements to an
 integer

---
 crates/bits/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index bf04c2b..6fdc09e 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -71,6 +71,9 @@ pub fn arr_to_int<
     let bit_len = size_of::<T>() * 8;
     let mut out = U::zero();
     for (idx, &i) in arr.iter().enumerate() {
+        if i.is_zero() {
+            continue;
+        }
         let t = U::from_checked(i)?;
         out += t.checked_shl(idx * bit_len)?;
     }
-- 
2.43.0


From 0c4b321ee0d860da26a7ed52f77beebdd25f2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:57 +0000
Subject: [PATCH 17/52] fix: set_push dropping a value pushed past the end

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From 64bf15405c7cb8e5f302cb8a0504020d5082f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:58 +0000
Subject: [PATCH 18/52] fix: division by zero returning all ones or never
 terminating

---
 crates/bits/src/algos/bitwise/div.rs | 23 +++++++++++++++++++++++
 crates/bits/src/algos/element/div.rs |  5 +++++
 2 files changed, 28 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index d03ebac..c05db8c 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -11,6 +11,11 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            ElementCmp::cmp(div, &[Self::Bit::zero()]).is_ne(),
+            "attempt to divide by zero"
+        );
+
         let len = usize::max(num.len(), div.len());
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
@@ -39,6 +44,11 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            ElementCmp::cmp(div, &[Self::Bit::zero()]).is_ne(),
+            "attempt to divide by zero"
+        );
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +74,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if ElementCmp::cmp(right, &[Self::Bit::zero()]).is_eq() {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +107,11 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            ElementCmp::cmp(div, &[Self::Bit::zero()]).is_ne(),
+            "attempt to divide by zero"
+        );
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +136,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if ElementCmp::cmp(right, &[Self::Bit::zero()]).is_eq() {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..6746289 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,11 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            ElementCmp::cmp(right, &[Self::Bit::zero()]).is_ne(),
+            "attempt to divide by zero"
+        );
+
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 48892524f829d88c091cbc553948b8884ae8a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:23 +0000
Subject: [PATCH 19/52] fix: WrappingAdd on primitives subtracting

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From d6b35f09a62479d14296a6f0877bad0731d57193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:25 +0000
Subject: [PATCH 20/52] fix: gcd of signed integers being negative or
 overflowing

---
 crates/traits/src/__impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..67e4a40 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -160,9 +160,9 @@ macro_rules! impl_int {
 
                 let [mut min, mut max] = minmax(self, rhs);
                 while min != 0 {
-                    (min, max) = (max % min, min);
+                    (min, max) = (max.wrapping_rem(min), min);
                 }
-                max
+                max.abs_diff(0) as $ty
             }
         }
 
-- 
2.43.0


From 4a1e42bb1f934c0601385d57e36fe078227701cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:27 +0000
Subject: [PATCH 21/52] fix: checked shifts truncating shift amounts of 2^32
 and above

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 67e4a40..318762f 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From a64409731eca7feed2d195fd27017b554ed0d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:28 +0000
Subject: [PATCH 22/52] fix: is_positive of zero on primitive integers
 disagreeing with its documentation

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 318762f..50f2cdb 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -325,7 +325,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From ac26d89c82bc042939b87d549acf734ec70ec1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:29 +0000
Subject: [PATCH 23/52] fix: is_one on non-zero integers

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From 1f353e865f5f0fb550013568589c6ec1887000d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:39 +0000
Subject: [PATCH 24/52] fix: conversions from U wider than the primitive

---
 crates/ints/src/u.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..9237027 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
-- 
2.43.0


From 949868e574b0c215ee81efd9b42fcba32af3dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:41 +0000
Subject: [PATCH 25/52] fix: checked conversions from primitives to U

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 9237027..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From 8f76709592e1b184a882dcacc989e73ff63c2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:42 +0000
Subject: [PATCH 26/52] fix: zero to the power of zero on U

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From a34d03d3beba95a9e1a4413f9cdd39fcac461801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:43 +0000
Subject: [PATCH 27/52] fix: absolute value of negative I

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..bd80f64 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From 9b0b8be376e0d6c8de45a686c6ebab1dd42083fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:44 +0000
Subject: [PATCH 28/52] fix: sign of the remainder on I

---
 crates/ints/src/i.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index bd80f64..a622987 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From d0b5dbddcb68ff49b1571d3c885070d3ec3b82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:45 +0000
Subject: [PATCH 29/52] fix: ordering of I comparing the least significant byte
 first

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a622987..f10d344 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From b9e623db8d07e40a4fc617e8726925686cc2dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:46 +0000
Subject: [PATCH 30/52] fix: ordering of BigInt comparing the least significant
 element first

---
 crates/ints/src/big_int.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..33d0896 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -10,8 +10,8 @@ use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
 use core::{fmt, mem, num, ops};
 use numeric_bits::algos::{
-    BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementNot,
-    ElementShl, ElementShr, ElementSub,
+    BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementCmp, ElementMul,
+    ElementNot, ElementShl, ElementShr, ElementSub,
 };
 use numeric_bits::bit_slice::BitSliceExt;
 use numeric_bits::utils::*;
@@ -380,13 +380,7 @@ impl Ord for BigInt {
             if this.len() != other.len() {
                 usize::cmp(&this.len(), &other.len())
             } else {
-                this.iter()
-                    .zip(other.iter())
-                    .find_map(|(l, r)| match l.cmp(r) {
-                        Ordering::Equal => None,
-                        other => Some(other),
-                    })
-                    .unwrap_or(Ordering::Equal)
+                ElementCmp::cmp(this, other)
             }
         });
 
-- 
2.43.0


From b9db06813995b034a81cc8c4788eb86432a425fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:47 +0000
Subject: [PATCH 31/52] fix: formatting negative BigInt values as zero

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 33d0896..2e13579 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From 439cebc6f7ea54bdcf672886b7e603ce86a0524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:48 +0000
Subject: [PATCH 32/52] fix: negating a BigInt zero producing a negative zero

---
 crates/ints/src/big_int.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 2e13579..f20f5dd 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -539,7 +539,9 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -548,9 +550,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From 97a54d5fc750fc6da385da8f23f29f0992870743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:49 +0000
Subject: [PATCH 33/52] fix: sign of the remainder on BigInt

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index f20f5dd..76ff1f5 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -484,7 +484,7 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 4d902fa5a0efedbee88d2ed3c6653ffc17845e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:50 +0000
Subject: [PATCH 34/52] fix: parsing negative BigInt values

---
 crates/ints/src/big_int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 76ff1f5..ee40f7e 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -653,12 +653,16 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (neg, digits) = match str.strip_prefix('-') {
+            Some(digits) => (true, digits),
+            None => (false, str),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From 2413c90a5049bfdc1bb400e37525c4a34c5c1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:51 +0000
Subject: [PATCH 35/52] fix: converting negative BigInt values to signed
 primitives

---
 crates/ints/src/big_int/macros.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..3486c74 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,11 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    let mag: $unsigned = bi
+                        .with_slice(|s| arr_to_int(s))
+                        .ok_or_else(|| OutOfRangeError::above())?;
+                    let val = mag as $signed;
+                    Ok(if bi.is_negative() { val.wrapping_neg() } else { val })
                 }
             }
         }
-- 
2.43.0


From 3e72360aeb4596732a2799739aa361a419204694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:53 +0000
Subject: [PATCH 36/52] fix: truncating BigInt conversions not keeping the low
 bits

---
 crates/ints/src/big_int/macros.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 3486c74..7cf9942 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -116,15 +116,24 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                let mag = val.with_slice(|s| {
+                    s.iter()
+                        .take(arr_size::<$unsigned>())
+                        .rev()
+                        .fold(0u128, |acc, &i| (acc << usize::BITS) | i as u128)
+                }) as $unsigned;
+                if val.is_negative() {
+                    mag.wrapping_neg()
+                } else {
+                    mag
+                }
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned as numeric_traits::cast::FromTruncating<BigInt>>::truncate_from(val)
+                    as $signed
             }
         }
 
-- 
2.43.0


From dbd226211791c637bca99052daaccfb4364fc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:54 +0000
Subject: [PATCH 37/52] fix: equality of BigInt with primitive minimums and of
 negative BigInt with unsigned

---
 crates/ints/src/big_int/macros.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 7cf9942..00de37e 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -176,10 +176,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
@@ -187,6 +187,9 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 1d7037ba8072254684aa343cb58d4ae2c513cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:43 +0000
Subject: [PATCH 38/52] fix: rescale products and quotients of Fixed

---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..61349d1 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,7 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +141,7 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From f90f6c8966a6ccba7ae92440734ef0238530bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:44 +0000
Subject: [PATCH 39/52] fix: rounding of Fixed to the nearest whole number

---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 61349d1..fbcf4df 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -242,12 +242,12 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
+        let half = Fixed(Self::one().0 >> 1);
         let f = self.clone().fract();
         let f = if f >= Self::zero() {
             f
         } else {
-            Self::one() - f
+            Self::one() + f
         };
         if f > half {
             self.ceil()
-- 
2.43.0


From fa9ec64f81982ec31bcf749f1cbb92463de6229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:45 +0000
Subject: [PATCH 40/52] fix: reduce fractions where one part divides the other

---
 crates/reals/src/rat.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..2eeee71 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,11 +54,6 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
-- 
2.43.0


From b09913a3eb94b3058c2da749da41adfdd2d25da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:46 +0000
Subject: [PATCH 41/52] fix: keep the denominator of reduced fractions positive

---
 crates/reals/src/rat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 2eeee71..b5718fd 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -56,7 +56,12 @@ impl<T: Integral> Rat<T> {
             Rat::zero()
         } else {
             let gcd = num.clone().gcd(denom.clone());
-            unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
+            let (num, denom) = (num / gcd.clone(), denom / gcd);
+            if denom < T::zero() {
+                unsafe { Rat::new_unchecked(T::zero() - num, T::zero() - denom) }
+            } else {
+                unsafe { Rat::new_unchecked(num, denom) }
+            }
         }
     }
 
-- 
2.43.0


From e2ce9fe8cae5ece729924a108a9d3a5dd0e534b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:46 +0000
Subject: [PATCH 42/52] fix: ceil of whole fractions

---
 crates/reals/src/rat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index b5718fd..0352815 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -236,8 +236,13 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        let diff = self.num.clone() % self.denom.clone();
+        let add = if diff > T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        };
+        Rat::new((self.num - diff) / self.denom + add, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From afd5783fa272baae05d1ae72da2422f63d3c5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:18 +0000
Subject: [PATCH 43/52] fix: row reduction of non-square matrices

---
 crates/compounds/src/matrix/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index d8c6f97..a01d1be 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -1,5 +1,5 @@
 macro_rules! gauss_elim {
-    ($self:ident, $cols:expr, $rows:expr, $data:expr) => {
+    ($self:ident, $rows:expr, $cols:expr, $data:expr) => {
         /// Uses Gaussian Elimination to put the matrix in triangular row-echelon form,
         /// and returns the new matrix and the product of the scalars by which the determinant was
         /// multiplied to produce the result.
-- 
2.43.0


From 6a5e8ea970e48c38a6a105a8dcbf7b6a30d9a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:18 +0000
Subject: [PATCH 44/52] fix: matrix views reading one row or column past the
 end

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From f7961b34619be984069a9b394349134ffe385c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 45/52] fix: DynMatrix accepting dimensions whose product
 overflows

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..f5aac3e 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -12,11 +12,14 @@ pub struct DynMatrix<T> {
 
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
+        let len = rows
+            .checked_mul(cols)
+            .expect("DynMatrix dimensions overflow");
         assert_eq!(
             data.len(),
-            rows * cols,
+            len,
             "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            len,
             rows,
             cols,
             data.len(),
-- 
2.43.0


From 307cd0a8952177a853a1d04e686abe062fe80834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:20 +0000
Subject: [PATCH 46/52] fix: DynMatrix indexing past the last column reading
 the next row

---
 crates/compounds/src/matrix/dynamic.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index f5aac3e..95f5025 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -72,12 +72,28 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From cbc571e897afaef4e3833091711380eaa4df4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:41 +0000
Subject: [PATCH 47/52] fix: in-place right shift kept stale high bits in the
 top element

---
 crates/bits/src/algos/element/shr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 4a593e6..2ef534a 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,7 +58,9 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+                // The existing value here is from before the shift, so nothing of it may be kept.
+                // `low` always goes into it before `high` since we're iterating forwards.
+                let low = low & !elem_mask;
 
                 left.set_ignore(idx, low);
             }
-- 
2.43.0


From 300f096690df7536687f6e4698a8ed6dd6df9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 48/52] fix: interner storing a second copy of a live value in
 an earlier dead slot

---
 crates/utils/src/intern.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 8aba05d..d1c0d70 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -117,6 +117,8 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        // A dead slot may only be reused once it's known that no later slot holds the value already
+        let mut dead = None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
@@ -124,12 +126,15 @@ where
                 let count = i.refs.load(Ordering::Acquire);
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                } else if count == 0 && dead.is_none() {
+                    dead = Some((idx, idx2));
                 }
             }
         }
-        Find::None
+        match dead {
+            Some(loc) => Find::Dead(loc),
+            None => Find::None,
+        }
     }
 
     #[inline]
-- 
2.43.0


From 18c10caafec7475a06de9c81f03e1cf8b4b2d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 49/52] fix: rounding of negative fractions

---
 crates/reals/src/rat.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 0352815..2819d54 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -248,15 +248,19 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn round(self) -> Self {
         let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
+        let div = self.num / self.denom.clone();
+        // Integer division rounds towards zero, but the remainder must be measured from the floor
+        let (div, diff) = if diff < T::zero() {
+            (div - T::one(), diff + self.denom.clone())
+        } else {
+            (div, diff)
+        };
         // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
+        let add = if diff > (self.denom / two) {
             T::one()
         } else {
             T::zero()
         };
-        // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
-        let div = self.num / self.denom;
         // Floor div, add one if we should round up
         Rat::new(div + add, T::one()).unwrap()
     }
-- 
2.43.0


From 53ec1f79df58f6fa99c14e63847d1c06b9896e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:06 +0000
Subject: [PATCH 50/52] fix: saturating conversions from isize to narrower
 signed integers wrapping

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 50f2cdb..cbe6599 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -860,8 +860,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -893,15 +893,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From bdea5689687933919ca45a05fd8d1e99ba4027b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:07 +0000
Subject: [PATCH 51/52] fix: arr_to_int reports failure when a signed target's
 sign bit is reached

---
 crates/bits/src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6fdc09e..b158523 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -74,8 +74,12 @@ pub fn arr_to_int<
         if i.is_zero() {
             continue;
         }
-        let t = U::from_checked(i)?;
-        out += t.checked_shl(idx * bit_len)?;
+        let t = U::from_checked(i)?.checked_shl(idx * bit_len)?;
+        // A signed target doesn't fit the value if shifting reached its sign bit
+        if t < U::zero() {
+            return None;
+        }
+        out += t;
     }
     Some(out)
 }
-- 
2.43.0


From 97428a25c5742c4fd75068cdf94461ae34e12477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:41 +0000
Subject: [PATCH 52/52] fix: provide the missing saturating conversion from
 isize to i8

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index cbe6599..40cb6b6 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -778,7 +778,7 @@ saturate_sint_impl!(
     u_less = [],
     u_greater_eq = [u8, u16, u32, u64, u128, usize],
     s_less_eq = [i8],
-    s_greater = [i16, i32, i64, i128],
+    s_greater = [i16, i32, i64, i128, isize],
 );
 
 saturate_sint_impl!(
-- 
2.43.0

