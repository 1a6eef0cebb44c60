From 33840b386ae70d6fe5a2592afefc41e6080027ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 01/36] fix: order two negative bigints of equal length by
 descending magnitude

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..9c5972c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From 765218d56b263d6a2e20384381cdda46b86551bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 02/36] fix: never over-estimate a quotient digit in bigint
 division

---
 nanvm-lib/src/js/js_bigint.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 9c5972c..835be55 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -237,25 +237,21 @@ pub fn div_mod<M: Manager>(
                 let b_high_digit = b.len() - 1;
                 let a_high = a[a_high_digit];
                 let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
-                        let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
-                        (
-                            a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
-                        )
-                    }
+                // The divisor is rounded up, so `b * q` never exceeds `a`.
+                let (q_index, q_digit) = if b_high < a_high {
+                    (a_high_digit - b_high_digit, a_high / (b_high + 1))
+                } else if a_high_digit == b_high_digit {
+                    (0, 1)
+                } else {
+                    let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
+                    (
+                        a_high_digit - b_high_digit - 1,
+                        (a_high_2 / (b_high as u128 + 1)) as u64,
+                    )
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
-                let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
-                    m = mul_vec(b, &q);
-                }
+                let m = mul_vec(b, &q);
                 a = sub_vec(&a, &m);
                 a = normalize_vec(a);
                 result = add_vec(&result, &q);
-- 
2.43.0


From a83ba8a9e22f9ebaf02364fec727b3fc3e9ba219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 03/36] fix: bigint right shift keeps all carried bits and
 rounds toward negative infinity

---
 nanvm-lib/src/js/js_bigint.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 835be55..ef1bb36 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -577,12 +577,16 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
         return shr_on_big(m, lhs.sign());
     }
 
-    let mut vec = lhs.items().to_vec();
+    // For a negative number, `-x >> n` is `-(((x - 1) >> n) + 1)`.
+    let mut vec = match lhs.sign() {
+        Sign::Positive => lhs.items().to_vec(),
+        Sign::Negative => sub_vec(lhs.items(), &[1]),
+    };
     vec = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
@@ -595,8 +599,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if lhs.sign() == Sign::Negative {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From d9ed84deaf58f2004e28520ab70be22826102aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 04/36] fix: keep high zero limbs of negative bitwise results
 and propagate their carry

---
 nanvm-lib/src/js/js_bigint.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index ef1bb36..4f73cbf 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -399,17 +399,13 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
+            res = add_vec(&normalize_vec(res), &[1]);
             new_bigint(m, Sign::Negative, res)
         }
     }
@@ -424,7 +420,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -437,7 +432,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -450,7 +444,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From e1921d6e1dc8299cff208c4959aab7d99e998482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 05/36] fix: an odd power of -1 is -1

---
 nanvm-lib/src/js/js_bigint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 4f73cbf..4333f15 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -266,7 +266,11 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = match rhs.get_last_bit() {
+            0 => Sign::Positive,
+            _ => lhs.sign(),
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
-- 
2.43.0


From 7a4abe4bb484013d2ebd7c396635a552b335eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 06/36] fix: pow_u64 and shl_on_u64 accept zero

---
 nanvm-lib/src/js/js_bigint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 4333f15..20cfeef 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -293,6 +293,9 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
 }
 
 pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) {
+        return from_u64(m, Sign::Positive, if rhs == 0 { 1 } else { 0 });
+    }
     let mut res = [1].to_vec();
     let mut b = lhs.items().to_vec();
     let sign = if lhs.sign() == Sign::Positive || rhs & 1 == 0 {
@@ -544,6 +547,9 @@ fn cmp_vec(lhs: &[u64], rhs: &[u64]) -> Ordering {
 }
 
 pub fn shl_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) {
+        return zero(m);
+    }
     let mut vec = lhs.items().to_vec();
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
-- 
2.43.0


From 7fb84b61c200c500e3fe8a44e4b681550792cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 07/36] fix: BigUint::div_mod never over-estimates a quotient
 digit

---
 nanvm-lib/src/big_numbers/big_uint.rs | 29 +++++++++++----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..4349211 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -118,28 +118,23 @@ impl BigUint {
                     let b_high_digit = b.len() - 1;
                     let a_high = a.value[a_high_digit];
                     let b_high = b.value[b_high_digit];
-                    let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
-                            let a_high_2 =
-                                ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
-                            (
-                                a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
-                            )
-                        }
+                    // The divisor is rounded up, so `b * q` never exceeds `a`.
+                    let (q_index, q_digit) = if b_high < a_high {
+                        (a_high_digit - b_high_digit, a_high / (b_high + 1))
+                    } else if a_high_digit == b_high_digit {
+                        (0, 1)
+                    } else {
+                        let a_high_2 = ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
+                        (
+                            a_high_digit - b_high_digit - 1,
+                            (a_high_2 / (b_high as u128 + 1)) as u64,
+                        )
                     };
                     let mut q = BigUint {
                         value: new_resize(q_index + 1),
                     };
                     q.value[q_index] = q_digit;
-                    let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
-                        m = b * &q;
-                    }
+                    let m = b * &q;
                     a = &a - &m;
                     result = &result + &q;
                 }
-- 
2.43.0


From 990183389895387d43381b404c04108187dbdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 08/36] fix: BigUint shift right keeps all the bits moved
 between digits

---
 nanvm-lib/src/big_numbers/big_uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 4349211..095c330 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -328,7 +328,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
-- 
2.43.0


From 9d92dad369a3909da22ea3bd3ef60c69e33f244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 09/36] fix: BigUint shift right by 2^64 or more gives zero

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 095c330..7ca65c5 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -318,6 +318,10 @@ impl Shr for &BigUint {
             return self.clone();
         }
 
+        if rhs.len() != 1 {
+            return BigUint::ZERO;
+        }
+
         let number_to_remove = (rhs.value[0] / 64) as usize;
         if number_to_remove >= self.len() {
             return BigUint::ZERO;
-- 
2.43.0


From 8197711fe2c24154e7a0825b76b0de11be55ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 10/36] fix: BigUint::from_u64(0) is zero

---
 nanvm-lib/src/big_numbers/big_uint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 7ca65c5..eadf8b9 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,6 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
+        if n == 0 {
+            return BigUint::ZERO;
+        }
         BigUint { value: [n].cast() }
     }
 
-- 
2.43.0


From 615b7d16419f93a89919b2dae66c6bb03d58664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 11/36] fix: BigInt::from_u64 and from_i64 of zero and of
 i64::MIN

---
 nanvm-lib/src/big_numbers/big_int.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..ac6f29e 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
@@ -49,7 +47,7 @@ impl BigInt {
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +69,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
-- 
2.43.0


From d9c7cfe2d29dd4954713803255894b6245be109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 12/36] fix: BigInt order of negative numbers

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index ac6f29e..8c4138a 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -160,7 +160,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
-- 
2.43.0


From d3e1d04b2f7192e11a0b5b7662f52709347384bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 13/36] fix: BigInt division has no negative zero, the
 remainder has the sign of the dividend

---
 nanvm-lib/src/big_numbers/big_int.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 8c4138a..be7196c 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -84,7 +84,14 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        let mut q = BigInt { sign, value: q };
+        q.normalize();
+        let mut r = BigInt {
+            sign: self.sign,
+            value: r,
+        };
+        r.normalize();
+        (q, r)
     }
 }
 
@@ -199,7 +206,9 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 }
 
-- 
2.43.0


From ed654cb228c849317be45666e7dbe8475218243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 14/36] fix: a range of chars may start at the first char or
 just above the surrogates

---
 nanvm-lib/src/range_map.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..7656df9 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -162,25 +162,41 @@ where
     res
 }
 
+/// The char just below `c`, if there is one. No char is in the surrogate gap.
+fn previous_char(c: char) -> Option<char> {
+    match c {
+        '\0' => None,
+        '\u{E000}' => Some('\u{D7FF}'),
+        _ => char::from_u32(c as u32 - 1),
+    }
+}
+
 pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
+        list: match previous_char(*range.start()) {
+            Some(p) => [
+                Entry {
+                    key: p,
+                    value: State { value: None },
+                },
+                Entry {
+                    key: *range.end(),
+                    value: State { value: Some(value) },
+                },
+            ]
+            .cast(),
+            None => [Entry {
                 key: *range.end(),
                 value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+            }]
+            .cast(),
+        },
     }
 }
 
 pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        list: match previous_char(c) {
             Some(p) => [
                 Entry {
                     key: p,
-- 
2.43.0


From e6ff85233c4fbb0803e460d75192c80a071b8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 15/36] fix: a value just above half of the smallest subnormal
 rounds up to it

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..b6c965f 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From 465a39213a8052fe4295e541c4c715ba240588ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 16/36] fix: BigFloat::to_bin keeps the sign of a negative zero

---
 nanvm-lib/src/big_numbers/big_float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index b6c965f..f3af66d 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,9 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            let mut result = float_zero(self.manager);
+            result.sign = self.sign;
+            return result;
         }
 
         if self.exp == 0 {
-- 
2.43.0


From f86d13efd176e1900a827c5df4e148e11c268354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 17/36] fix: the number token -0 is negative zero

---
 nanvm-lib/src/tokenizer/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..ea6f1fa 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_to_number_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -212,6 +212,13 @@ pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
     bf_2.to_f64()
 }
 
+fn zero_to_number_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 pub struct IntState<D: Dealloc> {
     b: JsBigintMutRef<D>,
     s: Sign,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_to_number_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From fa196c62119760ea2891509efa471d5c33400ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 18/36] fix: a number exponent of any size neither overflows
 nor hangs

---
 nanvm-lib/src/tokenizer/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index ea6f1fa..bc6d141 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -208,6 +208,11 @@ impl ParseUnicodeCharState {
 }
 
 pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+    // A decimal exponent beyond these bounds gives infinity or zero whatever the digits are:
+    // a limb has less than 20 decimal digits.
+    let mut bf_10 = bf_10;
+    let min_exp = -400 - 20 * bf_10.significand.items().len() as i64;
+    bf_10.exp = bf_10.exp.clamp(min_exp, 400);
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -325,7 +330,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -334,11 +342,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From 409bc42d4f4c26b5e284b330b229cda08f6ca0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 19/36] fix: an exponent without digits is an invalid number

---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index bc6d141..79d3164 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -452,6 +451,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -475,6 +475,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -856,21 +857,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 98674d25958aa11777a35cc3a6d35c876573a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 20/36] fix: dropping the last reference to a bigint value
 frees it

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From b5099c3ca66773bd645161ac25beacee12924070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 21/36] fix: a NaN with any payload is stored as the NaN of a
 number value

---
 nanvm-lib/src/js/number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..23707ec 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -9,6 +9,10 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
+        // other NaN payloads may belong to `EXTENSION`.
+        if self.is_nan() {
+            return f64::NAN.to_bits();
+        }
         self.to_bits()
     }
     #[inline(always)]
-- 
2.43.0


From c514821de67339a4e40f51ff763e536238dfbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 22/36] fix: a const statement keeps the module type found so
 far

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..009aeb6 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,7 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From f84c7025eb1c4aa40ea94775684a7b8dec174304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 23/36] fix: require is accepted as the first item of an array

---
 nanvm-lib/src/parser/any_state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 009aeb6..28405a6 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From ed1ac3d0e842174e0746e0747dc3687cbf9f59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 24/36] fix: require is accepted after a comma wherever it is
 elsewhere

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 28405a6..b96238d 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
-- 
2.43.0


From 6339680df26b0a5abc214ea17345e4308a21c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 25/36] fix: an identifier is accepted as the second key of a
 DJS object

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index b96238d..efb6578 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -355,6 +355,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From 11264cdbcc1abdb818fd7d13baf346f6e3f4d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 26/36] fix: a semicolon inside a const value is an error, not
 a panic

---
 nanvm-lib/src/parser/const_state.rs | 3 ++-
 nanvm-lib/src/parser/parser.rs      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..ff44c2f 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -2,6 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     json_state::JsonState,
     root_state::{RootState, RootStatus},
+    shared::ParseError,
 };
 use crate::{mem::manager::Manager, tokenizer::JsonToken};
 
@@ -13,7 +14,7 @@ pub struct ConstState<M: Manager> {
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
         match token {
-            JsonToken::Semicolon => todo!(),
+            JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
             _ => {
                 // TODO: use import_path in place of _ below to track possible errors -
                 // or provide an explanation on why it's not necessary.
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..198f993 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -42,7 +42,7 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
     match token {
-        JsonToken::Semicolon => todo!(),
+        JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
         _ => {
             let result = any_state_parse(const_state.state, context, token);
             match result {
-- 
2.43.0


From 064f2e7566f1b2a84e98534386f9dd3ada6c26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 27/36] fix: a semicolon ends a const or import statement, as
 the DJS serializer writes it

---
 nanvm-lib/src/parser/root_state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..fbe45ed 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,13 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 473295b5d55882a63fc9b0d89c276e9088170723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 28/36] fix: the path segment "." names the same directory

---
 nanvm-lib/src/parser/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..19f40e3 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -5,7 +5,7 @@ pub fn normalize(path: &str) -> String {
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
-- 
2.43.0


From 0fb8bbfc0d35e00168dcb7dbd79328e7f776fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 29/36] fix: a normalized absolute path stays absolute

---
 nanvm-lib/src/parser/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 19f40e3..e529651 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,6 +1,7 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let root = if path.starts_with('/') { "/" } else { "" };
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
@@ -12,6 +13,7 @@ pub fn normalize(path: &str) -> String {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    None if root == "/" => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,11 +24,11 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    root.to_string() + &result_split.join("/")
 }
 
 pub fn concat(a: &str, b: &str) -> String {
-    let mut concat = a.to_string();
+    let mut concat = if a.is_empty() { "." } else { a }.to_string();
     concat.push('/');
     concat.push_str(b);
     normalize(&concat)
@@ -35,6 +37,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", file)) => ("/", file),
         Some(t) => t,
     }
 }
-- 
2.43.0


From e2895a1ab59477924afa74865285681e9a4ee33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 30/36] fix: a module imports relative to its own path

---
 nanvm-lib/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 198f993..6252851 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -11,6 +11,7 @@ use crate::{
     mem::manager::Manager,
     tokenizer::{tokenize, JsonToken},
 };
+use core::mem::replace;
 use io_trait::Io;
 
 pub struct Context<'a, M: Manager, I: Io> {
@@ -103,7 +104,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
+                    let parent_path = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
+                    context.path = parent_path;
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -176,7 +179,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
+                        let parent_path = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
+                        context.path = parent_path;
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From 7f174aa417c5cf90fde9ab25118a23d492725cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 31/36] fix: a module is in progress only while it is being
 read

---
 nanvm-lib/src/parser/parser.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 6252851..f98c397 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -107,9 +107,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                     let parent_path = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
                     context.path = parent_path;
+                    context.module_cache.progress.remove(&current_path);
                     match res {
                         Ok(r) => {
-                            context.module_cache.progress.remove(&current_path);
                             context
                                 .module_cache
                                 .complete
@@ -123,7 +123,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                         Err(e) => AnyResult::Error(e),
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -182,9 +185,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                         let parent_path = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
                         context.path = parent_path;
+                        context.module_cache.progress.remove(&current_path);
                         match res {
                             Ok(r) => {
-                                context.module_cache.progress.remove(&current_path);
                                 context
                                     .module_cache
                                     .complete
@@ -199,7 +202,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                             Err(e) => JsonState::Error(e),
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -230,15 +236,18 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    let path = normalize(&context.path);
+    context.module_cache.progress.insert(path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&path);
+    result
 }
 
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
-- 
2.43.0


From 7a4513c4a540e03d861e8549c7a6e8239f498068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 32/36] fix: an array too long for memory panics instead of
 wrapping its size

---
 nanvm-lib/src/mem/field_layout.rs       | 12 +++++++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 10 ++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..8f8245b 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -17,6 +17,13 @@ pub const fn align_to(i: usize, align: usize) -> usize {
     (i + mask) & !mask
 }
 
+pub const fn add_size(a: usize, b: usize) -> usize {
+    match a.checked_add(b) {
+        Some(size) => size,
+        None => panic!("size overflow"),
+    }
+}
+
 impl<T, A> FieldLayout<T, A> {
     pub const fn align_to(adjacent_align: usize) -> FieldLayout<T, A> {
         assert!(adjacent_align.is_power_of_two());
@@ -42,7 +49,10 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        match Layout::from_size_align(add_size(self.size, a_size), self.align) {
+            Ok(layout) => layout,
+            Err(_) => panic!("size overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..858b355 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -9,7 +9,10 @@ use core::{
 
 use self::header::FlexibleArrayHeader;
 
-use super::{field_layout::FieldLayout, object::Object};
+use super::{
+    field_layout::{add_size, FieldLayout},
+    object::Object,
+};
 
 #[repr(transparent)]
 #[derive(Debug)]
@@ -40,7 +43,10 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        match len.checked_mul(size_of::<I>()) {
+            Some(items_size) => add_size(Self::FLEXIBLE_HEADER_LAYOUT.size, items_size),
+            None => panic!("size overflow"),
+        }
     }
 }
 
-- 
2.43.0


From 7ec8ec96326d556f10590ae724e929fe2a05b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 33/36] fix: a failed allocation is reported instead of written
 through null

---
 nanvm-lib/src/mem/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..fe3a909 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let result = alloc(layout);
+        if result.is_null() {
+            handle_alloc_error(layout);
+        }
+        result
     }
 }
 
-- 
2.43.0


From fcc8b3b16a603c8a6b0ca5eff129a4e47e2b90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 34/36] fix: a value is not shared between threads, its
 reference counter is not atomic

---
 nanvm-lib/src/js/any_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index 44b553d..40e5ac6 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -20,7 +20,7 @@ use super::{
 
 #[repr(transparent)]
 #[derive(Debug)]
-pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<D>);
+pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<*const D>);
 
 impl<D: Dealloc> PartialEq for AnyInternal<D> {
     #[inline(always)]
-- 
2.43.0


From 3467c4b56a9e99ae6c14025d331acc360044671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 35/36] fix: a panic in RefMut::modify does not drop the value
 twice

---
 nanvm-lib/src/common/ref_mut.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nanvm-lib/src/common/ref_mut.rs b/nanvm-lib/src/common/ref_mut.rs
index 78699ba..d13ceb0 100644
--- a/nanvm-lib/src/common/ref_mut.rs
+++ b/nanvm-lib/src/common/ref_mut.rs
@@ -1,3 +1,13 @@
+use std::{mem::forget, process::abort};
+
+struct AbortOnDrop();
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        abort()
+    }
+}
+
 pub trait RefMut {
     // a better name is `as_mut_ptr` but it's already used by `Slice`.
     unsafe fn to_mut_ptr(&mut self) -> *mut Self {
@@ -9,7 +19,10 @@ pub trait RefMut {
     {
         unsafe {
             let p = self.to_mut_ptr();
+            // the value is moved out while `f` runs, a panic can't unwind to its owner.
+            let guard = AbortOnDrop();
             p.write(f(p.read()));
+            forget(guard);
         };
     }
 }
-- 
2.43.0


From 9c4c5e64b16c9d1e601efc7ef070cd6895991f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 36/36] fix: the headers of blocks and arrays can't be assigned
 from outside of the crate

---
 nanvm-lib/src/mem/block.rs              | 2 +-
 nanvm-lib/src/mem/flexible_array/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/block.rs b/nanvm-lib/src/mem/block.rs
index 1b683f8..20605ac 100644
--- a/nanvm-lib/src/mem/block.rs
+++ b/nanvm-lib/src/mem/block.rs
@@ -4,7 +4,7 @@ use super::{field_layout::FieldLayout, manager::Dealloc, object::Object};
 
 #[repr(transparent)]
 pub struct Block<T: Object, D: Dealloc> {
-    pub header: D::BlockHeader,
+    pub(crate) header: D::BlockHeader,
     _0: PhantomData<T>,
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 858b355..1d46d23 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -17,7 +17,7 @@ use super::{
 #[repr(transparent)]
 #[derive(Debug)]
 pub struct FlexibleArray<I, T: FlexibleArrayHeader = usize> {
-    pub header: T,
+    pub(crate) header: T,
     _0: PhantomData<I>,
 }
 
-- 
2.43.0

