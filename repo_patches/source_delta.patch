From f7298a2780cb388259a79cabaec4c1ed0e51f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 01/52] fix: products and squares kept the previous sign of the
 destination

---
 src/mpi/mpi_mul.c       | 4 ++--
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_sqr_comba.c | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_mul.c b/src/mpi/mpi_mul.c
index 5fd0351..9623033 100644
--- a/src/mpi/mpi_mul.c
+++ b/src/mpi/mpi_mul.c
@@ -6,8 +6,8 @@ int cry_mpi_mul(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
 
     sign = a->sign ^ b->sign;
     res = cry_mpi_mul_abs(r, a, b);
-    if (res == 0 && !cry_mpi_is_zero(r))
-        r->sign = sign;
+    if (res == 0)
+        r->sign = cry_mpi_is_zero(r) ? 0 : sign;
     return res;
 }
 
diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..4848aa9 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -24,6 +24,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         dst = r;
     }
     cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..cef35e9 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,8 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
-- 
2.43.0


From b6d77907195c68e544e13e6340f77d5059918c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 02/52] fix: right shift of a negative number to zero gave a
 negative zero

---
 src/mpi/mpi_pvt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_pvt.h b/src/mpi/mpi_pvt.h
index d40cae7..63df8a2 100644
--- a/src/mpi/mpi_pvt.h
+++ b/src/mpi/mpi_pvt.h
@@ -52,10 +52,12 @@ int cry_mpi_shrd(cry_mpi *a, size_t n);
 
 int cry_mpi_shld(cry_mpi *a, size_t n);
 
-/* decrease used while the most significant digit is zero */
+/* decrease used while the most significant digit is zero; zero is positive */
 #define cry_mpi_adjust(a) do { \
     while ((a)->used > 0 && (a)->data[(a)->used - 1] == 0) \
         ((a)->used)--; \
+    if ((a)->used == 0) \
+        (a)->sign = 0; \
     } while (0)
 
 #define cry_mpi_set_used(a, n) do { \
-- 
2.43.0


From 381fa9936f106421b9184642e52933ae0710d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:10 +0000
Subject: [PATCH 03/52] fix: division with operands of opposite sign (exact
 quotients, omitted remainder, aliased outputs)

---
 src/mpi/mpi_div.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..54753fa 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -1,26 +1,37 @@
 #include "mpi_pvt.h"
 
+/*
+ * Quotient is rounded toward minus infinity.
+ */
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi one, rem, den;
+    cry_mpi_digit one_dig = 1;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
+    if (a->sign == b->sign)
+        return cry_mpi_div_abs(q, r, a, b);
+
+    /* The outputs may alias the operands */
+    if ((res = cry_mpi_init_list(&rem, &den, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
+    CRY_CHK(res = cry_mpi_copy(&den, b), e);
+    CRY_CHK(res = cry_mpi_div_abs(q, &rem, a, b), e);
+    if (!cry_mpi_is_zero(&rem)) {
         if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
-
             one.sign = 0;
             one.used = one.alloc = 1;
             one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+            CRY_CHK(res = cry_mpi_add_abs(q, q, &one), e);
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        CRY_CHK(res = cry_mpi_sub_abs(&rem, &den, &rem), e);
     }
+    if (q != NULL)
+        q->sign = cry_mpi_is_zero(q) ? 0 : 1;
+    if (r != NULL)
+        cry_mpi_swap(r, &rem);
+e:  cry_mpi_clear_list(&rem, &den, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From a02356021f772e96255c91816dfb016425ea83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:48 +0000
Subject: [PATCH 04/52] fix: gcd and lcm of zero and negative operands, lost
 errors

---
 src/mpi/mpi_gcd.c | 22 +++++++++++++++-------
 src/mpi/mpi_lcm.c |  9 ++++++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..b371dbf 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -30,10 +30,18 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_copy(&tx, x)) != 0 ||
-        (res = cry_mpi_copy(&ty, y)) != 0)
+    if ((res = cry_mpi_abs(&tx, x)) != 0 ||
+        (res = cry_mpi_abs(&ty, y)) != 0)
         goto e;
 
+    /* gcd(x, 0) = |x| and gcd(0, y) = |y| */
+    if (cry_mpi_is_zero(&tx) || cry_mpi_is_zero(&ty)) {
+        if (cry_mpi_is_zero(&ty))
+            cry_mpi_swap(&tx, &ty);
+        cry_mpi_swap(r, &ty);
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
@@ -46,20 +54,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
-    cry_mpi_swap(r, &ty);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) == 0)
+        cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
 }
diff --git a/src/mpi/mpi_lcm.c b/src/mpi/mpi_lcm.c
index 5a2904e..599fbe0 100644
--- a/src/mpi/mpi_lcm.c
+++ b/src/mpi/mpi_lcm.c
@@ -11,9 +11,12 @@ int cry_mpi_lcm(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&gcm, &prod, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_gcd(&gcm, x, y)) == 0)
-        if ((res = cry_mpi_mul(&prod, x, y)) == 0)
-            res = cry_mpi_div(r, 0, &prod, &gcm);
+    if (cry_mpi_is_zero(x) || cry_mpi_is_zero(y)) {
+        cry_mpi_zero(r);
+    } else if ((res = cry_mpi_gcd(&gcm, x, y)) == 0) {
+        if ((res = cry_mpi_mul_abs(&prod, x, y)) == 0)
+            res = cry_mpi_div(r, NULL, &prod, &gcm);
+    }
     cry_mpi_clear_list(&gcm, &prod, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 5ea73b99d3978b4c257bc8e5115e6737753233ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:55 +0000
Subject: [PATCH 05/52] fix: inverse with the result aliasing the modulus,
 powers modulo one or zero with a null exponent, lost errors

---
 src/mpi/mpi_inv.c     | 22 +++++++++++-----------
 src/mpi/mpi_mod_exp.c |  6 +++++-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..fdf34ad 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -17,19 +17,19 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CRY_CHK(ret = cry_mpi_copy(&r0, a), e);
+    CRY_CHK(ret = cry_mpi_copy(&r1, m), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s0, 1), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s1, 0), e);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CRY_CHK(ret = cry_mpi_div(&q, &r0, &r0, &r1), e);
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CRY_CHK(ret = cry_mpi_mul(&q, &q, &s1), e);
+        CRY_CHK(ret = cry_mpi_sub(&s0, &s0, &q), e);
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +37,14 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        /* Reduce before the swap, the result may be the modulus itself */
+        if (s0.sign)
+            CRY_CHK(ret = cry_mpi_mod(&s0, &s0, m), e);
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..8a577ba 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,11 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
+    /* With a null exponent the result must be reduced as well */
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From f67fbb750ccc1711286a58f1a2bcd5a7728f922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:36 +0000
Subject: [PATCH 06/52] fix: binary inverse accepted or looped on values that
 are not invertible, lost errors

---
 src/mpi/mpi_inv.c | 61 ++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index fdf34ad..c5878d7 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -66,50 +66,61 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
 
     if ((res = cry_mpi_mod(&TA, x, m)) != 0)
         goto cleanup;
-    cry_mpi_copy(&TU, &TA);
-    cry_mpi_copy(&TB, m);
-    cry_mpi_copy(&TV, m);
+    /* Not invertible, and the loops below would not end for zero */
+    if (cry_mpi_is_zero(&TA) || (cry_mpi_is_even(&TA) && cry_mpi_is_even(m))) {
+        res = -1;
+        goto cleanup;
+    }
+    CRY_CHK(res = cry_mpi_copy(&TU, &TA), cleanup);
+    CRY_CHK(res = cry_mpi_copy(&TB, m), cleanup);
+    CRY_CHK(res = cry_mpi_copy(&TV, m), cleanup);
 
-    cry_mpi_set_int(&U1, 1);
-    cry_mpi_set_int(&U2, 0);
-    cry_mpi_set_int(&V1, 0);
-    cry_mpi_set_int(&V2, 1);
+    CRY_CHK(res = cry_mpi_set_int(&U1, 1), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&U2, 0), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&V1, 0), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&V2, 1), cleanup);
 
     do {
         while (cry_mpi_is_even(&TU)) {
-            cry_mpi_shr(&TU, &TU, 1);
+            CRY_CHK(res = cry_mpi_shr(&TU, &TU, 1), cleanup);
             if (cry_mpi_is_odd(&U1) || cry_mpi_is_odd(&U2)) {
-                cry_mpi_add(&U1, &U1, &TB);
-                cry_mpi_sub(&U2, &U2, &TA);
+                CRY_CHK(res = cry_mpi_add(&U1, &U1, &TB), cleanup);
+                CRY_CHK(res = cry_mpi_sub(&U2, &U2, &TA), cleanup);
             }
-            cry_mpi_shr(&U1, &U1, 1);
-            cry_mpi_shr(&U2, &U2, 1);
+            CRY_CHK(res = cry_mpi_shr(&U1, &U1, 1), cleanup);
+            CRY_CHK(res = cry_mpi_shr(&U2, &U2, 1), cleanup);
         }
         while (cry_mpi_is_even(&TV)) {
-            cry_mpi_shr(&TV, &TV, 1);
+            CRY_CHK(res = cry_mpi_shr(&TV, &TV, 1), cleanup);
             if (cry_mpi_is_odd(&V1) || cry_mpi_is_odd(&V2)) {
-                cry_mpi_add(&V1, &V1, &TB);
-                cry_mpi_sub(&V2, &V2, &TA);
+                CRY_CHK(res = cry_mpi_add(&V1, &V1, &TB), cleanup);
+                CRY_CHK(res = cry_mpi_sub(&V2, &V2, &TA), cleanup);
             }
-            cry_mpi_shr(&V1, &V1, 1);
-            cry_mpi_shr(&V2, &V2, 1);
+            CRY_CHK(res = cry_mpi_shr(&V1, &V1, 1), cleanup);
+            CRY_CHK(res = cry_mpi_shr(&V2, &V2, 1), cleanup);
         }
         if (cry_mpi_cmp(&TU, &TV) >= 0) {
-            cry_mpi_sub(&TU, &TU, &TV);
-            cry_mpi_sub(&U1, &U1, &V1);
-            cry_mpi_sub(&U2, &U2, &V2);
+            CRY_CHK(res = cry_mpi_sub(&TU, &TU, &TV), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&U1, &U1, &V1), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&U2, &U2, &V2), cleanup);
         } else {
-            cry_mpi_sub(&TV, &TV, &TU);
-            cry_mpi_sub(&V1, &V1, &U1);
-            cry_mpi_sub(&V2, &V2, &U2);
+            CRY_CHK(res = cry_mpi_sub(&TV, &TV, &TU), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&V1, &V1, &U1), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&V2, &V2, &U2), cleanup);
         }
     } while (TU.used != 0);
 
+    /* Check that the GCD is 1, necessary condition */
+    if (TV.used != 1 || TV.data[0] != 1) {
+        res = -1;
+        goto cleanup;
+    }
+
     while (V1.used && V1.sign)
-        cry_mpi_add(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_add(&V1, &V1, m), cleanup);
 
     while (cry_mpi_cmp(&V1, m) >= 0)
-        cry_mpi_sub(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_sub(&V1, &V1, m), cleanup);
 
     cry_mpi_swap(r, &V1);
 cleanup:
-- 
2.43.0


From 86f1b636e141a11c76a0dab092c76a8f95f1079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:21 +0000
Subject: [PATCH 07/52] fix: loading bytes kept the previous sign of the
 destination

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From bba1487aac2465e7af73a9e32ca4d0b3eb16b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:21 +0000
Subject: [PATCH 08/52] fix: machine integer extraction accepted negative
 values out of range

---
 src/mpi/mpi_core.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..2cdf20a 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = -(unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,7 +100,7 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
     /* consider the sign bit */
@@ -113,7 +113,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* the only negative value with all the bits is the minimum one */
+    if (rval > LONG_MAX && rval != (unsigned long)LONG_MAX + 1)
+        return -1;
+    *val = (long)((a->sign == 0) ? rval : -rval);
     return 0;
 }
 
-- 
2.43.0


From b7a7c4ffed2552a35959eb0d88a7f8044bd9bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:21 +0000
Subject: [PATCH 09/52] fix: number print overflowed its buffer for small
 radices

---
 src/mpi/mpi_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..266b4ce 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,7 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    len = cry_mpi_count_bits(a) + 3; /* radix 2 digits, NULL and sign */
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From cbd39302ec2a7f85ca2d0bef02bcd8b35a1c1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:21 +0000
Subject: [PATCH 10/52] fix: malformed digits were accepted when loading
 numbers from text

---
 src/mpi/mpi_str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..960e6e2 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -5,17 +5,22 @@
 #define ASC_TO_RAW_CHAR(c) \
     (('0' <= (c) && (c) <= '9') ?  ((c) - '0') : \
      ('a' <= (c) && (c) <= 'z') ? (((c) - 'a') + 10) : \
-     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0)
+     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0xFF)
 
 static int load_str_hex(cry_mpi *a, const char *s)
 {
     int res;
-    size_t i = 0, j = 0;
+    size_t i, j = 0;
     unsigned char *bin;
     char first = 0;
     size_t siz, len;
 
     len = strlen(s);
+    for (i = 0; i < len; i++) {
+        if (ASC_TO_RAW_CHAR(s[i]) >= 16)
+            return -1;
+    }
+    i = 0;
     siz = len >> 1;
     if ((len & 0x01) != 0) {
         len--;
-- 
2.43.0


From b103c01ae3ccca28fa12e7364512e8a6868974e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:18 +0000
Subject: [PATCH 11/52] fix: random integers were wrong (or written out of
 bounds) when the generator delivers leading zeros

---
 src/mpi/mpi_rand.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..8a55535 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -8,7 +8,7 @@
 int cry_mpi_rand(cry_mpi *r, size_t bits)
 {
     int res;
-    size_t digs, msb, siz;
+    size_t siz;
     unsigned char *bin;
 
     if (bits == 0) {
@@ -20,14 +20,10 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         return -1;
     if ((res = cry_prng_aes_rand(bin, siz)) != 0)
         goto e;
-    if ((res = cry_mpi_load_bin(r, bin, siz)) != 0)
-        goto e;
-
-    digs = CRY_MPI_BITS_TO_DIGS(bits);
-    msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
-    if (msb < CRY_MPI_DIGIT_BITS)
-        r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-    r->data[digs-1] |= ((cry_mpi_digit)1 << (msb - 1));   /* Set the msb */
+    if ((bits & 0x07) != 0)
+        bin[0] &= (unsigned char)((1U << (bits & 0x07)) - 1); /* Clear extra bits */
+    bin[0] |= (unsigned char)(1U << ((bits - 1) & 0x07));     /* Set the msb */
+    res = cry_mpi_load_bin(r, bin, siz);
 
 e:  free(bin);
     return res;
-- 
2.43.0


From 904b38662ca7d9aedf65b465f70f6286f2ebd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:18 +0000
Subject: [PATCH 12/52] fix: primality test of 1, 2, negative and small even
 numbers, and null bases rejecting primes

---
 src/mpi/mpi_prime.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..bc0d7eb 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -32,7 +32,7 @@
  */
 
 static const unsigned int small_primes[] = {
-      3,    5,    7,   11,   13,   17,   19,   23,
+      2,    3,    5,    7,   11,   13,   17,   19,   23,
      29,   31,   37,   41,   43,   47,   53,   59,
      61,   67,   71,   73,   79,   83,   89,   97,
     101,  103,  107,  109,  113,  127,  131,  137,
@@ -144,8 +144,12 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
+    /* Initialize a as a random number in [1, p-1] */
+    if ((res = cry_mpi_sub(&tmp, p, &one)) < 0)
+        goto e;
+    if ((res = cry_mpi_rand_range(&a, &tmp)) < 0)
+        goto e;
+    if ((res = cry_mpi_add(&a, &a, &one)) < 0)
         goto e;
 
     /* z = a^m mod p */
@@ -195,6 +199,9 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    if (cry_mpi_is_neg(p) || cry_mpi_count_bits(p) < 2)
+        return 0; /* Less than 2 */
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 87576143e58fbcc2a55b9681c0fae248d2abe32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:18 +0000
Subject: [PATCH 13/52] fix: prime found at the last allowed iteration was
 reported as a failure

---
 src/mpi/mpi_prime.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index bc0d7eb..ed79ebe 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -266,9 +266,8 @@ int cry_mpi_prime(cry_mpi *p, size_t bits, unsigned int *iter)
             res = 0;
             break;
         }
-    }
-    if (i == itermax)
         res = -1;
+    }
     if (iter)
         *iter = i;
     return res;
-- 
2.43.0


From fd992c62245c6a5e616d0693c880498d1dbee143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 14/52] fix: doubling a point of order two failed instead of
 giving the point at infinity

---
 src/ecp/ecp_dbl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..dca0811 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -12,6 +12,12 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
 
+    /* The tangent in a point of order two is vertical */
+    if (cry_mpi_is_zero(&p1->y)) {
+        cry_ecp_set_zero(pr);
+        return 0;
+    }
+
     if ((res = cry_mpi_init_list(&num, &den, &lam,
                                  &r.x, &r.y, &r.z, (cry_mpi *)NULL)) != 0) {
         return res;
-- 
2.43.0


From af945dee20d035cfb32bbc0b40f7eef4b471e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 15/52] fix: scalar multiplication reported success when the
 window allocation failed

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From a8b79da41ea64156378011b8b9a57004bd03535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:13 +0000
Subject: [PATCH 16/52] fix: the plain window scalar multiplication did not
 compile

---
 src/ecp/ecp_mul.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 30b573d..5fc399a 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -120,8 +120,6 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
     int res, i, j, w, paf = 1;
     struct cry_ecp r, *win = NULL;
     cry_mpi_digit msk;
-    cry_mpi *a = &grp->a;
-    cry_mpi *p = &grp->p;
 
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
@@ -145,20 +143,20 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         }
     }
     CHK(cry_ecp_copy(&win[1], p1));                     /* 1P */
-    CHK(cry_ecp_dbl(&win[2],  &win[1], a, p));          /* 2P */
-    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], p));    /* 3P */
-    CHK(cry_ecp_dbl(&win[4],  &win[2], a, p));          /* 4P */
-    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], p));    /* 5P */
-    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], p));    /* 6P */
-    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], p));    /* 7P */
-    CHK(cry_ecp_dbl(&win[8],  &win[4], a, p));          /* 8P */
-    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], p));    /* 9P */
-    CHK(cry_ecp_add(&win[10], &win[9], &win[1], p));    /* 10P */
-    CHK(cry_ecp_add(&win[11], &win[10], &win[1], p));   /* 11P */
-    CHK(cry_ecp_add(&win[12], &win[11], &win[1], p));   /* 12P */
-    CHK(cry_ecp_add(&win[13], &win[12], &win[1], p));   /* 13P */
-    CHK(cry_ecp_add(&win[14], &win[13], &win[1], p));   /* 14P */
-    CHK(cry_ecp_add(&win[15], &win[14], &win[1], p));   /* 15P */
+    CHK(cry_ecp_dbl(&win[2],  &win[1], grp));          /* 2P */
+    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], grp));    /* 3P */
+    CHK(cry_ecp_dbl(&win[4],  &win[2], grp));          /* 4P */
+    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], grp));    /* 5P */
+    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], grp));    /* 6P */
+    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], grp));    /* 7P */
+    CHK(cry_ecp_dbl(&win[8],  &win[4], grp));          /* 8P */
+    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], grp));    /* 9P */
+    CHK(cry_ecp_add(&win[10], &win[9], &win[1], grp));    /* 10P */
+    CHK(cry_ecp_add(&win[11], &win[10], &win[1], grp));   /* 11P */
+    CHK(cry_ecp_add(&win[12], &win[11], &win[1], grp));   /* 12P */
+    CHK(cry_ecp_add(&win[13], &win[12], &win[1], grp));   /* 13P */
+    CHK(cry_ecp_add(&win[14], &win[13], &win[1], grp));   /* 14P */
+    CHK(cry_ecp_add(&win[15], &win[14], &win[1], grp));   /* 15P */
     /*
      * END window generation
      */
@@ -172,14 +170,14 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         while (j > 0) {
             if (!paf) {
                 for (w = 0; w < WINSIZ; w++)
-                    CHK(cry_ecp_dbl(&r, &r, a, p));
+                    CHK(cry_ecp_dbl(&r, &r, grp));
             }
 
             j -= WINSIZ;
             w = (k->data[i] & msk) >> j;
             if (w > 0) {
                 if (!paf) {
-                    CHK(cry_ecp_add(&r, &r, &win[w], p));
+                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                 } else {
                     paf = 0; /* First addition */
                     CHK(cry_ecp_copy(&r, &win[w]));
-- 
2.43.0


From 85d61de0be9ed8e705b61ebbe83f94ab83cd7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:19 +0000
Subject: [PATCH 17/52] fix: curve constants with leading zero digits broke
 arithmetic with narrow digits

---
 src/ecp/ecp_curves.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecp/ecp_curves.c b/src/ecp/ecp_curves.c
index 4b754ac..ab11622 100644
--- a/src/ecp/ecp_curves.c
+++ b/src/ecp/ecp_curves.c
@@ -610,6 +610,8 @@ static void ecp_mpi_load(cry_mpi *n, const cry_mpi_digit *d, size_t dlen)
     n->data  = (cry_mpi_digit *)d;
     n->alloc = 0;
     n->used  = dlen / sizeof(cry_mpi_digit);
+    while (n->used > 0 && d[n->used - 1] == 0)
+        n->used--; /* The tables are padded to 8 octets */
     n->sign  = 0;
 }
 
-- 
2.43.0


From 4cc50fedd97aa2c3b3fcfe09caffc018979d8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 18/52] fix: DSA failures were reported as success and the
 private key was drawn from the wrong range

---
 src/crypt/dsa.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..da20c4f 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +166,9 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((res = cry_mpi_is_prime(&ctx->p)) < 0)
+                goto e;
+            if (res == 1)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +188,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
+    if (i == ITER_MAX_OUT)
+        res = -1;
+e:  cry_mpi_clear_list(&p1, &q, &r, &one, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 9f4eca4176d5252316bec12a640067485356341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 19/52] fix: DSA truncated the hash to whole digits instead of
 the bits of q

---
 src/crypt/dsa.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index da20c4f..f5d31ed 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,23 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * The input is truncated to the leftmost bits of the size of q.
+ */
+static int hash_load(cry_mpi *z, const cry_mpi *q,
+                     const unsigned char *in, size_t len)
+{
+    int res;
+    size_t bits;
+
+    bits = cry_mpi_count_bits(q);
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    if ((res = cry_mpi_load_bin(z, in, len)) == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,9 +77,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(hash_load(&z, &ctx->q, in, len));
 
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
@@ -92,9 +107,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(hash_load(&z, &ctx->q, in, len));
 
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From 88e6a4b1bef7d115ab732e151f76628991466087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 20/52] fix: DSA verification accepted components out of range

---
 src/crypt/dsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f5d31ed..a47b004 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -109,6 +109,15 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of q */
     CHK(hash_load(&z, &ctx->q, in, len));
 
+    /* Both the components shall be greater than zero and less than q */
+    if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
+        cry_mpi_is_neg(&sig->s) || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_cmp(&sig->s, &ctx->q) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
     CHK(cry_mpi_inv(&w, &w, &ctx->q));
-- 
2.43.0


From c28ea4dceea3c8619501a965bb868d7275014995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 21/52] fix: DSA signing could deliver null components

---
 src/crypt/dsa.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index a47b004..066956f 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,6 +2,8 @@
 #include "../misc.h"
 
 
+#define ITER_MAX_SIGN   1024
+
 #define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
@@ -71,6 +73,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter;
     cry_mpi k, z;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
@@ -79,19 +82,27 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of q */
     CHK(hash_load(&z, &ctx->q, in, len));
 
-    /* k = c mod (q-1) + 1 */
-    CHK(secret_gen(&k, &ctx->q));
+    for (iter = 0; iter < ITER_MAX_SIGN; iter++) {
+        /* k = c mod (q-1) + 1 */
+        CHK(secret_gen(&k, &ctx->q));
+
+        /* r = (g^k mod p) mod q */
+        CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
+        CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
 
-    /* r = (g^k mod p) mod q */
-    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
-    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
+        /* s = (inv(k) * (z + d*r)) mod q */
+        CHK(cry_mpi_inv(&k, &k, &ctx->q));
+        CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
+        CHK(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
 
-    /* s = (inv(k) * (z + d*r)) mod q */
-    CHK(cry_mpi_inv(&k, &k, &ctx->q));
-    CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
-    CHK(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        /* Null components are not acceptable, retry with another k */
+        if (!cry_mpi_is_zero(&sig->r) && !cry_mpi_is_zero(&sig->s))
+            break;
+    }
+    if (iter == ITER_MAX_SIGN)
+        res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 239ebf118dd06714d3a9fda135434583a844260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:48 +0000
Subject: [PATCH 22/52] fix: ECDSA signing failures were reported as success,
 cleanup of uninitialised points

---
 src/crypt/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 0db14504485fe8d54940c93afe8812ed503bd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:48 +0000
Subject: [PATCH 23/52] fix: ECDSA truncated the hash to whole digits instead
 of the bits of n

---
 src/crypt/ecdsa.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..d8724f0 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,6 +4,23 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * The input is truncated to the leftmost bits of the size of n.
+ */
+static int hash_load(cry_mpi *z, const cry_mpi *n,
+                     const unsigned char *in, size_t len)
+{
+    int res;
+    size_t bits;
+
+    bits = cry_mpi_count_bits(n);
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    if ((res = cry_mpi_load_bin(z, in, len)) == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -15,10 +32,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init(&X));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(hash_load(&z, &ctx->grp.n, in, len));
 
     /* This should be a random number between 0 and n-1 */
 #if 0
@@ -60,10 +75,8 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(hash_load(&z, &ctx->grp.n, in, len));
 
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From 1e64e9d3f034aa3fb34f309ea3a006a0d68ccb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:16 +0000
Subject: [PATCH 24/52] fix: ECDSA verification accepted components out of
 range and the point at infinity

---
 src/crypt/ecdsa.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index d8724f0..5777dcc 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -78,6 +78,15 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of n */
     CHK1(hash_load(&z, &ctx->grp.n, in, len));
 
+    /* Both the components shall be greater than zero and less than n */
+    if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
+        cry_mpi_is_neg(&sig->s) || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_cmp(&sig->s, &ctx->grp.n) >= 0) {
+        res = -1;
+        goto e1;
+    }
+
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
     CHK1(cry_mpi_inv(&w, &w, &ctx->grp.n));
@@ -95,8 +104,14 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
+    /* The point at infinity is not acceptable */
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
+
     /* r = x1 mod n */
-    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
+    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n));
 
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
-- 
2.43.0


From 296017f59f47e56e542ab861379a1bbffb8d975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:16 +0000
Subject: [PATCH 25/52] fix: ECDSA could use null secrets and deliver null or
 unreduced components

---
 src/crypt/ecdsa.c | 67 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 5777dcc..ceb9e3d 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -1,9 +1,28 @@
 #include <cry/ecdsa.h>
 #include "mpi/mpi_pvt.h"
 
+#define ITER_MAX    1024
+
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * Generate a random k such that 0 < k < n.
+ */
+static int secret_gen(cry_mpi *k, const cry_mpi *n)
+{
+    int res;
+    unsigned int iter;
+
+    for (iter = 0; iter < ITER_MAX; iter++) {
+        if ((res = cry_mpi_rand_range(k, n)) != 0)
+            return res;
+        if (!cry_mpi_is_zero(k))
+            return 0;
+    }
+    return -1;
+}
+
 /*
  * The input is truncated to the leftmost bits of the size of n.
  */
@@ -25,6 +44,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter;
     cry_mpi k, z;
     cry_ecp X;
 
@@ -35,29 +55,28 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of n */
     CHK1(hash_load(&z, &ctx->grp.n, in, len));
 
-    /* This should be a random number between 0 and n-1 */
-#if 0
-    unsigned char K[] = {
-        0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
-        0xA4, 0x01, 0x51, 0x0E, 0xE7, 0xAD, 0xA3, 0xDC, 0xC5, 0xDE, 0xE0,
-        0x4B, 0x15, 0x4B, 0xF6, 0x1A, 0xF1, 0xD5, 0xA6, 0xDE, 0xCE
-    };
-    CHK1(cry_mpi_load_bin(&k, K, sizeof(K)));
-#else
-    CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
-#endif
-
-    CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
-
-    /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
-
-    /* s = (inv(k) * (z + r*d)) mod n */
-    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
-    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
-    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+    for (iter = 0; iter < ITER_MAX; iter++) {
+        /* Random secret k between 1 and n-1 */
+        CHK1(secret_gen(&k, &ctx->grp.n));
+
+        CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
+
+        /* r = x mod n */
+        CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
+
+        /* s = (inv(k) * (z + r*d)) mod n */
+        CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
+        CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
+        CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+
+        /* Null components are not acceptable, retry with another k */
+        if (!cry_mpi_is_zero(&sig->r) && !cry_mpi_is_zero(&sig->s))
+            break;
+    }
+    if (iter == ITER_MAX)
+        res = -1;
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
@@ -151,7 +170,7 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
+    if ((res = secret_gen(&ctx->d, &ctx->grp.n)) == 0)
         res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
     return res;
 }
-- 
2.43.0


From e48ebb91421a063f58b10a1625f6d5e1ae44ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:50 +0000
Subject: [PATCH 26/52] fix: ElGamal verification accepted components out of
 range

---
 src/crypt/elgamal.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..69ae8a4 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -105,6 +105,17 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* Components shall be such that 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_set_int(&z, 1));
+    CHK(cry_mpi_sub(&z, &ctx->p, &z));
+    if (cry_mpi_is_neg(&sign->r) || cry_mpi_is_zero(&sign->r) ||
+        cry_mpi_is_neg(&sign->s) || cry_mpi_is_zero(&sign->s) ||
+        cry_mpi_cmp(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_cmp(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From 7482049fdb037fb50a69baf29e4ac0d2cf0551c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:50 +0000
Subject: [PATCH 27/52] fix: ElGamal signing could deliver a null component

---
 src/crypt/elgamal.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index 69ae8a4..b6d0a4d 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -57,6 +57,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
                       const unsigned char *in, size_t len)
 {
     int res;
+    size_t iter;
     cry_mpi one, k, z, t;
     cry_mpi_digit dig = 1;
 
@@ -74,20 +75,29 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
 
-    /* gcd(k, p-1) = 1 */
-    CHK(secret_gen(&k, &t, &one));
+    CHK(cry_mpi_load_bin(&z, in, len));
 
-    /* r */
-    CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+    for (iter = 0; iter < MAX_ITER; iter++) {
+        /* gcd(k, p-1) = 1 */
+        CHK(secret_gen(&k, &t, &one));
 
-    /* s */
-    CHK(cry_mpi_load_bin(&z, in, len));
-    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
-    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
-    CHK(cry_mpi_inv(&k, &k, &t));
-    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        /* r */
+        CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+
+        /* s */
+        CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
+        CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        CHK(cry_mpi_inv(&k, &k, &t));
+        CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+
+        /* A null component is not acceptable, retry with another k */
+        if (!cry_mpi_is_zero(&sign->s))
+            break;
+    }
+    if (iter == MAX_ITER)
+        res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 234330b0cfde738063645ceca9e8c257f66821a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 28/52] fix: RSA decryption of several blocks wrote each one
 over the previous

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..0df199a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From 66f315fb819cde785921c16ce275a59a7e73aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 29/52] fix: RSA with an empty input returned garbage, moduli
 too short for the padding overflowed or looped

---
 src/crypt/rsa.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0df199a..02ede5e 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -26,7 +26,7 @@ static int padding_add(unsigned char *dst, size_t dlen,
     unsigned char *p = dst;
     size_t j;
 
-    if (slen > (dlen - 11))
+    if (dlen < 11 || slen > (dlen - 11))
         return -1;
 
     *(p++) = 0;
@@ -181,9 +181,15 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
-    block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
+    block_siz = mod_siz;
+    if (ctx->padding != CRY_RSA_PADDING_NONE) {
+        /* The padding takes at least 11 bytes */
+        if (mod_siz <= 11)
+            return -1;
+        block_siz -= 11;
+    }
 
-    while (inlen) {
+    do {
         if (inlen < block_siz)
             block_siz = inlen;
 
@@ -201,7 +207,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         *outlen += mod_siz;
         inlen -= block_siz;
         in += block_siz;
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
@@ -224,7 +230,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
 
-    while (inlen > 0) {
+    do {
         if (inlen < mod_siz) {
             /* Input must be an even multiple of key modulus */
             res = -1;
@@ -245,7 +251,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         inlen -= mod_siz;
         in += mod_siz;
         res = 0; /* decrypt block returns the number of decrypted bytes */
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
-- 
2.43.0


From 2277e432c4608022701c770b08e53e23820cc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 30/52] fix: RSA accepted blocks with a too short padding
 string

---
 src/crypt/rsa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 02ede5e..f81d2dd 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -67,6 +67,9 @@ static int padding_del(unsigned char *dst, size_t dlen,
 
     (void)padding; /* unused */
 
+    if (slen < 11)
+        return -1;
+
     if (src[0] != 0 || (sign != 0 && src[1] != 0x01) ||
         (sign == 0 && src[1] != 0x02))
         /* Unrecognized block type */
@@ -80,7 +83,8 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
+    /* At least 8 bytes of padding are mandatory */
+    if (i == slen || i < 10)
         return -1;
     i++; /* skip zero */
     if (slen - i < dlen)
-- 
2.43.0


From fc3f6fc12d4eec98226c13637d10a35a9fdf7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 31/52] fix: RSA accepted messages, ciphertexts and signatures
 not less than the modulus

---
 src/crypt/rsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index f81d2dd..5225e0a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -124,6 +124,10 @@ static int encrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&m, buf, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&m, &ctx->n) >= 0) {
+        res = -1; /* Not recoverable: out of range */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&c, &m, key, &ctx->n)) != 0)
         goto e1;
 
@@ -157,6 +161,10 @@ static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&c, in, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&c, &ctx->n) >= 0) {
+        res = -1; /* Out of range */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&m, &c, key, &ctx->n)) != 0)
         goto e1;
     if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
-- 
2.43.0


From 7b4230fa37baf3cb41cf2f588540512af3deeea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 32/52] fix: RSA verification without padding accepted every
 prefix of the signed message

---
 src/crypt/rsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 5225e0a..e6a62b5 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -300,7 +300,7 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
 {
     int res;
     unsigned char *out;
-    size_t outlen;
+    size_t outlen, i;
 
     res = decrypt(ctx, &out, &outlen, sig, siglen, 1);
     if (res == 0) {
@@ -309,6 +309,11 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
             memcmp(out, in, inlen) != 0) {
             res = -1;
         }
+        /* Without padding the signed data is filled with zeros */
+        for (i = inlen; res == 0 && i < outlen; i++) {
+            if (out[i] != 0)
+                res = -1;
+        }
         free(out);
     }
     return res;
-- 
2.43.0


From f1036e19353df7b031038bc0ea687f9fb0515c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:36 +0000
Subject: [PATCH 33/52] fix: RSA key generation left out the private exponent,
 failed with odd sizes and reported exhaustion as success

---
 src/crypt/rsa.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index e6a62b5..552ec4b 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -342,13 +342,12 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
     if ((res = cry_mpi_init_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL)) != 0)
         return res;
 
-    j = 0;
-    do {
+    for (j = 0; j < MAX_ITER; j++) {
         i = MAX_ITER;
         if ((res = cry_mpi_prime(&ctx->p, bits >> 1, &i)) != 0)
             break;
         i = MAX_ITER;
-        if ((res = cry_mpi_prime(&ctx->q, bits >> 1, &i)) != 0)
+        if ((res = cry_mpi_prime(&ctx->q, bits - (bits >> 1), &i)) != 0)
             break;
         if (cry_mpi_cmp(&ctx->q, &ctx->p) == 0)
             continue;
@@ -369,7 +368,13 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
         }
         if ((res = cry_mpi_gcd(&g, &ctx->e, &phi)) != 0)
             break;
-    } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
+        if (cry_mpi_cmp(&g, &one) == 0) {
+            res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+            break;
+        }
+    }
+    if (j == MAX_ITER)
+        res = -1;
 
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From c7137fd507640ab8dfab01d2fc603a66bfc31f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:27 +0000
Subject: [PATCH 34/52] fix: AES encryption after a decryption with the same
 key gave wrong results

---
 src/crypt/aes.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..164d0fe 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -346,10 +346,30 @@ static const uint32_t mtab[256] = {
      ((uint32_t)sbox[I3(w3)] << 24))
 
 
+static uint32_t key_mix(uint32_t key)
+{
+    uint32_t newkey, tmp;
+
+    newkey = mtab[key & 0xff];
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 8);
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 16);
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 24);
+    return newkey;
+}
+
+/*
+ * Switch between encryption and decryption key schedule.
+ * The inverse of the mix is the mix itself repeated three times.
+ */
 static void key_invert(cry_aes_ctx *ctx)
 {
     unsigned int i, j, k, nr;
-    uint32_t key, newkey, tmp;
 
     nr = ctx->nr & ~DECRYPT_STATE;
     for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
@@ -358,18 +378,9 @@ static void key_invert(cry_aes_ctx *ctx)
     }
 
     for (i = 4; i < 4 * nr; i++) {
-        key = ctx->keys[i];
-        newkey = mtab[key & 0xff];
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 8);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 16);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 24);
-        ctx->keys[i] = newkey;
+        ctx->keys[i] = key_mix(ctx->keys[i]);
+        if ((ctx->nr & DECRYPT_STATE) != 0)
+            ctx->keys[i] = key_mix(key_mix(ctx->keys[i]));
     }
 }
 
-- 
2.43.0


From d7c5229ff401c4d50ea3de33e996faa2c0f3aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:31 +0000
Subject: [PATCH 35/52] fix: CBC decryption of less than a block read and wrote
 out of bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From ded3712366da04e19343829e71ba575b390fd9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:31 +0000
Subject: [PATCH 36/52] fix: CFB decryption fed back the plaintext, partial
 last blocks read beyond the destination

---
 include/cry/cfb.h | 10 +++++-----
 src/crypt/cfb.c   | 22 +++++++++++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..fb5c4ad 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,11 +75,11 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encryption function.
  *
  * @param ctx   CFB context.
- * @param dst   Destination pointer.
- * @param src   Source pointer.
+ * @param dst   Destination pointer (ciphertext).
+ * @param src   Source pointer (cleartext).
  * @param size  Size of source/destination.
  */
 void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
@@ -103,8 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
-
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 /**
  * Encryption function.
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..0514a76 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,27 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        /* Feedback is the ciphertext, save before in-place overwrite */
+        memcpy(ctx->v, src, n);
+        cry_memxor2(dst, src, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
-- 
2.43.0


From 3a8ed93d339732e5683f6a7c3135d78beb7dd66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:31 +0000
Subject: [PATCH 37/52] fix: CFB-8 decryption left a wrong state after data
 that does not fill a block

---
 src/crypt/cfb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 0514a76..df3ad86 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -121,6 +121,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
+        if (len == 0)
+            break;
         memcpy(buf, buf + ctx->vlen, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-- 
2.43.0


From b58746e021e9fa4b35764cff18fecc56f8713102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:31 +0000
Subject: [PATCH 38/52] fix: in-place CTR with 8 byte blocks used half of the
 key stream from uninitialised memory

---
 src/crypt/ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..46fa5d1 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -68,7 +68,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     } else {
         while (len >= BUF_LEN) {
             p = buf;
-            for (n = 0; n < BUF_BLOCKS; n++) {
+            for (n = 0; n < BUF_LEN; n += ctx->ctrlen) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
-- 
2.43.0


From 83b355510aee075ee79f9e1898128a7f5b335b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 39/52] fix: GCM tags were wrong for data of 512 MB or more

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From e0e61d49f2136a5d0e3cc59726ddfa9b5f244cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 40/52] fix: SHA-384 and SHA-512 were wrong when the last block
 holds 112 bytes or more

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From 581dda14d8f11cf78d2a2d9e0d42eafcefea84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 41/52] fix: MD5, SHA-1 and SHA-512 lost the length of updates
 of 4 GB or more

---
 src/hash/md5.c    | 2 +-
 src/hash/sha1.c   | 1 +
 src/hash/sha512.c | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..c72ca55 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)(size >> 29); /* three carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From d56fe7ba2462778566773411f400edb381a5b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 42/52] fix: LFSR-113 seeds longer than the state overflowed,
 shorter ones kept the old state, and too small components were accepted

---
 src/prng/prng_lfsr113.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..a8f9cc5 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,16 +37,16 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] < 2)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] < 8)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] < 16)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] < 128)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From 00b1fc7cfdfd97da6a6a22047988f6471151e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 43/52] fix: base64 of an empty input ran through the whole
 memory

---
 src/crypt/base64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..0fb3e1a 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,7 +7,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
-    do {
+    while (len != 0) {
         outlen += 4;
 
         i = (in[0] & 0xFC) >> 2;
@@ -36,7 +36,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 
         in += 3;
         len -= 3;
-    } while (len != 0);
+    }
     return outlen;
 }
 
@@ -66,7 +66,7 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
 
-    do {
+    while (len != 0) {
         for (i = 0; i < 4; i++) {
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
@@ -91,6 +91,6 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
         in += 4;
         len -= 4;
-    } while (len != 0);
+    }
     return outlen;
 }
-- 
2.43.0


From a16de1fe7a168b489a7d910b313dff99045ce464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 44/52] fix: AES key wrap used only the low byte of the step
 counter, wrong for more than 42 blocks

---
 src/utils/aes_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..c3476d3 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* XOR the 64 bit big endian step counter */
+static void step_xor(unsigned char *a, size_t t)
+{
+    size_t i;
+
+    for (i = 8; i-- > 0; t >>= 8)
+        a[i] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -41,7 +50,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            step_xor(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -70,7 +79,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            step_xor(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 1ff27d773ddaeb3275657d82953f68e63d63e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 45/52] fix: AES key wrap left the last bytes in clear when the
 length is not a multiple of 8

---
 src/utils/aes_wrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index c3476d3..fbe3cc6 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -33,6 +33,9 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     cry_aes_ctx aes;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     a = out;
     r = out + 8;
 
@@ -66,6 +69,9 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     int res = 0;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     /* Initialize variables */
     memcpy(a, in, 8);
     r = out;
-- 
2.43.0


From 2c06ea6b989d9fe964de842aa37d102194917e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:47 +0000
Subject: [PATCH 46/52] fix: XOR into a buffer that overlaps both disjoint
 sources gave a scrambled result

---
 src/crypt/memxor.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..f626edb 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -52,7 +52,7 @@
 void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
-    size_t i, j;
+    size_t i, j, k;
     unsigned char *tmp, t;
     size_t n = size;
 
@@ -80,14 +80,16 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
-        j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
+        /* Now rotate the dst buffer */
+        k = j = (size_t)((src1 + n) - dst);
+        for (i = 0; i != j; ) {
             t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
+            dst[j++] = dst[i];
+            dst[i++] = t;
+            if (j == n)
+                j = k;
+            else if (i == k)
+                k = j;
         }
     } else {
         /* Case 4 */
-- 
2.43.0


From 3058c0d81f96ae8f04c0da1390a2208476835f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:47 +0000
Subject: [PATCH 47/52] fix: empty Hill and affine keys made the ciphers loop
 or read out of bounds

---
 src/crypt/affine.c | 2 ++
 src/crypt/hill.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..1df1d2c 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -193,6 +193,8 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
     memset(ctx, 0, sizeof(*ctx));
 
     ctx->n = keylen_trim(&keylen);
+    if (ctx->n == 0)
+        return -1;
 
     if (key != NULL)
         memcpy(ctx->key, key, keylen);
-- 
2.43.0


From c8df911d63426e22ebb47655652cba4114023a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:47 +0000
Subject: [PATCH 48/52] fix: Hill accepted keys that are not invertible when an
 inverse was supplied

---
 src/crypt/hill.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index 1df1d2c..8a49fcc 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -105,6 +105,26 @@ static void mtx_vec_mul(unsigned char *r, const unsigned char *m,
     }
 }
 
+/* Check that the matrix product is the identity */
+static int mtx_inverse_check(const unsigned char *m, const unsigned char *im,
+                             size_t n)
+{
+    size_t i, j;
+    unsigned char v[CRY_HILL_KEYDIM_MAX];
+    unsigned char r[CRY_HILL_KEYDIM_MAX];
+
+    for (j = 0; j < n; j++) {
+        for (i = 0; i < n; i++)
+            v[i] = im[i*n + j];
+        mtx_vec_mul(r, m, v, n);
+        for (i = 0; i < n; i++) {
+            if (r[i] != (i == j))
+                return -1;
+        }
+    }
+    return 0;
+}
+
 static size_t keylen_trim(size_t *keylen)
 {
     size_t n, z;
@@ -203,9 +223,10 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
 
     if (ikey == NULL)
         res = keygen(ctx->key, ctx->ikey, keylen, trials);
-    else if (key != NULL)
+    else if (key != NULL) {
         memcpy(ctx->ikey, ikey, keylen);
-    else
+        res = mtx_inverse_check(ctx->key, ctx->ikey, ctx->n);
+    } else
         res = -1;
     return res;
 }
-- 
2.43.0


From 50aec3f4e6ab176f486d0deb9e66b7199f87ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 49/52] fix: report allocation failures of cry_ecdh_init

---
 src/crypt/ecdh.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..787cebd 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,19 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) != 0)
+        goto e0;
+    if ((res = cry_ecp_init_list(&ctx->q, &ctx->z, (cry_ecp *)NULL)) != 0)
+        goto e1;
     return 0;
+
+e1: cry_mpi_clear(&ctx->d);
+e0: cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 21e31478917892ec020238b3149874427f994fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 50/52] fix: setting a point to zero cannot fail for lack of
 memory

---
 include/cry/ecp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cry/ecp.h b/include/cry/ecp.h
index 48cb7cf..5493878 100644
--- a/include/cry/ecp.h
+++ b/include/cry/ecp.h
@@ -80,7 +80,7 @@ void cry_ecp_clear_list(cry_ecp *p, ... /* (cry_ecp *)NULL */);
 #define cry_ecp_set_zero(p) do { \
     cry_mpi_set_int(&(p)->x, 1); \
     cry_mpi_set_int(&(p)->y, 1); \
-    cry_mpi_set_int(&(p)->z, 0); \
+    cry_mpi_zero(&(p)->z);       \
 } while (0)
 
 #define cry_ecp_swap(a, b) do {     \
-- 
2.43.0


From 2bc68396e5b25eed64030121641d07e660fe487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 51/52] fix: wipe the storage of a number before releasing it

cry_mpi_clear handed the digits back to the allocator as they were, so after
clearing an RSA, DSA, ECDSA, ElGamal or Diffie-Hellman context the private
key was still readable in the released memory.
---
 src/mpi/mpi_core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index 2cdf20a..ca40676 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -123,8 +123,11 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 void cry_mpi_clear(cry_mpi *a)
 {
     if (a->data != NULL) {
-        if (a->alloc != 0) /* do not free non malloced data */
+        if (a->alloc != 0) { /* do not free non malloced data */
+            /* the number may be a secret */
+            cry_memset(a->data, 0, a->alloc * sizeof(cry_mpi_digit));
             free(a->data);
+        }
         a->data = NULL;
     }
     /* reset the members to make debugging easier */
-- 
2.43.0


From 197bf338f201ae4e6c45add79ea8650daa618ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:14 +0000
Subject: [PATCH 52/52] fix: column-wise products of more than 255 8-bit digits

The three-digit column accumulator of the Comba multiplier and squarer
overflows when a column sums more than DIGIT_MAX products: with 8-bit digits
and without Karatsuba every product of two numbers of more than 2060 bits was
wrong.
---
 src/mpi/mpi_mul_comba.c | 6 ++++++
 src/mpi/mpi_sqr_comba.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 4848aa9..09b7ecb 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -13,6 +13,12 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         return 0;
     }
 
+#if CRY_MPI_DIGIT_BYTES < 4
+    /* the columns accumulator has room for DIGIT_MAX products only */
+    if (CRY_MIN(a->used, b->used) > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_mul_baseline(r, a, b);
+#endif
+
     pa = a->used + b->used;
     if (r == a || r == b) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index cef35e9..2602048 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -14,6 +14,12 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         return 0;
     }
 
+#if CRY_MPI_DIGIT_BYTES < 4
+    /* the columns accumulator has room for DIGIT_MAX products only */
+    if (a->used > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_sqr_baseline(r, a);
+#endif
+
     pa = a->used + a->used;
     if (r == a) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
-- 
2.43.0

