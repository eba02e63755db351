From 3d629019a4d824ab33d01c16672227d09ba83528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 01/23] fix: keep the carry when find_wnaf rounds a full-width
 scalar up

---
 libff/algebra/scalar_multiplication/wnaf.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 760df2c..278010d 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -27,6 +27,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
     while (!c.is_zero())
     {
         long u;
+        mp_limb_t carry = 0;
         if ((c.data[0] & 1) == 1)
         {
             u = c.data[0] % (1u << (window_size+1));
@@ -41,7 +42,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
             }
             else
             {
-                mpn_add_1(c.data, c.data, n, -u);
+                carry = mpn_add_1(c.data, c.data, n, -u);
             }
         }
         else
@@ -52,6 +53,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         ++j;
 
         mpn_rshift(c.data, c.data, n, 1); // c = c/2
+        c.data[n-1] |= carry << (GMP_NUMB_BITS-1); // c may exceed n limbs by one bit before the shift
     }
 
     return res;
-- 
2.43.0


From 2ac8961f7f14b85670cf4e10d8a58de5d219a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 02/23] fix: make gf192::multiplicative_generator generate the
 whole multiplicative group

x has order (2^192-1)/723; x^2+x+1 has full order.
---
 libff/algebra/fields/binary/gf192.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..7f8cfee 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -19,7 +19,7 @@ namespace libff {
 using std::size_t;
 
 const uint64_t gf192::modulus_;
-gf192 gf192::multiplicative_generator = gf192(2);
+gf192 gf192::multiplicative_generator = gf192(7);
 
 gf192::gf192() : value_{0, 0, 0}
 {
-- 
2.43.0


From 68cd3a85de77649577405fc3a83bb63932c5c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 03/23] fix: div_ceil for negative operands and numerators near
 the top of the range

x + (y-1) overflowed for large x, and truncation gave the wrong quotient
when x or y was negative.
---
 libff/common/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..37579bd 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -104,7 +104,9 @@ long long div_ceil(long long x, long long y)
     {
         throw std::invalid_argument("libff::div_ceil: division by zero, second argument must be non-zero");
     }
-    return (x + (y-1)) / y;
+    const long long q = x / y;
+    const bool round_up = (x % y != 0) && ((x < 0) == (y < 0));
+    return q + (round_up ? 1 : 0);
 }
 
 bool is_little_endian()
-- 
2.43.0


From 93fc65e20cccb9489fe6f5537601340601d6d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 04/23] fix: get_root_of_unity rejected the admissible sizes
 from 2^32 up

1u << logn overflows for logn >= 32, although bls12_381 Fr (s = 32) and the
MNT fields (s = 34) have roots of those orders.
---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6bfefed..fc63350 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,7 +101,7 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1u << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
+    if (!is_power_of_2(n)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
 
     FieldT omega = FieldT::root_of_unity;
-- 
2.43.0


From 22971df57080bb5125b2b9a6af0015b9fb8e0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 05/23] fix: Fp_model::from_words range check without
 MONTGOMERY_OUTPUT

The value was compared with the modulus after it had been reduced, so
out-of-range words were always reported as valid.
---
 libff/algebra/fields/prime_base/fp.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 75304b0..8e0d588 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -800,10 +800,11 @@ bool Fp_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::copy(words.begin() + start_word, words.end(), this->mont_repr.data);
     // Zero out the left-most bit_offset bits.
     this->mont_repr.data[n - 1] = mp_limb_t((uint64_t(this->mont_repr.data[n - 1]) << bit_offset) >> bit_offset);
+    const bool in_range = this->mont_repr < modulus;
 #ifndef MONTGOMERY_OUTPUT
     this->mul_reduce(Rsquared);
 #endif
-    return this->mont_repr < modulus;
+    return in_range;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From 43af551cd7e758399a9d7b975c4995bc268fbbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 06/23] fix: declare that ordered_exponent::operator< reads
 memory

The inline assembly dereferences its pointer operands, but does not list
"memory" as clobbered, so the compiler reuses the result of an earlier
comparison after the exponents changed (seen from -O1 on): Bos-Coster
multi-exponentiation returned wrong sums for 3, 4 and 5 limb scalars.
---
 libff/algebra/scalar_multiplication/multiexp.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index 5b9d8fb..a15d328 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -52,7 +52,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 4)
@@ -71,7 +71,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 5)
@@ -91,7 +91,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else
-- 
2.43.0


From e33eecf82f195842fd34be9c5ea3a1ad726798d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 07/23] fix: pairings of the identity element are one

The Miller loops read affine coordinates, which the identity does not have,
so that pairing it with another point gave zero or a value other than one.
---
 libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp |  6 ++++++
 libff/algebra/curves/bls12_381/bls12_381_pairing.cpp |  6 ++++++
 libff/algebra/curves/edwards/edwards_pairing.cpp     | 12 ++++++++++++
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp       | 12 ++++++++++++
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp       | 12 ++++++++++++
 5 files changed, 48 insertions(+)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index eb368fd..65f3f30 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -489,6 +489,12 @@ alt_bn128_Fq12 alt_bn128_ate_double_miller_loop(const alt_bn128_ate_G1_precomp &
 
 alt_bn128_Fq12 alt_bn128_ate_pairing(const alt_bn128_G1& P, const alt_bn128_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return alt_bn128_Fq12::one();
+    }
+
     enter_block("Call to alt_bn128_ate_pairing");
     alt_bn128_ate_G1_precomp prec_P = alt_bn128_ate_precompute_G1(P);
     alt_bn128_ate_G2_precomp prec_Q = alt_bn128_ate_precompute_G2(Q);
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index 20b7cde..f3441f7 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -417,6 +417,12 @@ bls12_381_Fq12 bls12_381_ate_double_miller_loop(const bls12_381_ate_G1_precomp &
 
 bls12_381_Fq12 bls12_381_ate_pairing(const bls12_381_G1& P, const bls12_381_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return bls12_381_Fq12::one();
+    }
+
     enter_block("Call to bls12_381_ate_pairing");
     bls12_381_ate_G1_precomp prec_P = bls12_381_ate_precompute_G1(P);
     bls12_381_ate_G2_precomp prec_Q = bls12_381_ate_precompute_G2(Q);
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 537c33d..7a2ba3a 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -432,6 +432,12 @@ edwards_Fq6 edwards_tate_miller_loop(const edwards_tate_G1_precomp &prec_P,
 
 edwards_Fq6 edwards_tate_pairing(const edwards_G1& P, const edwards_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_tate_pairing");
     edwards_tate_G1_precomp prec_P = edwards_tate_precompute_G1(P);
     edwards_tate_G2_precomp prec_Q = edwards_tate_precompute_G2(Q);
@@ -723,6 +729,12 @@ edwards_Fq6 edwards_ate_double_miller_loop(const edwards_ate_G1_precomp &prec_P1
 
 edwards_Fq6 edwards_ate_pairing(const edwards_G1& P, const edwards_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_ate_pairing");
     edwards_ate_G1_precomp prec_P = edwards_ate_precompute_G1(P);
     edwards_ate_G2_precomp prec_Q = edwards_ate_precompute_G2(Q);
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 53c936e..11c5620 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -677,6 +677,12 @@ mnt4_Fq4 mnt4_ate_double_miller_loop(const mnt4_ate_G1_precomp &prec_P1,
 
 mnt4_Fq4 mnt4_ate_pairing(const mnt4_G1& P, const mnt4_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return mnt4_Fq4::one();
+    }
+
     enter_block("Call to mnt4_ate_pairing");
     mnt4_ate_G1_precomp prec_P = mnt4_ate_precompute_G1(P);
     mnt4_ate_G2_precomp prec_Q = mnt4_ate_precompute_G2(Q);
@@ -733,6 +739,12 @@ mnt4_GT mnt4_reduced_pairing(const mnt4_G1 &P,
 mnt4_GT mnt4_affine_reduced_pairing(const mnt4_G1 &P,
                                     const mnt4_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return mnt4_GT::one();
+    }
+
     const mnt4_affine_ate_G1_precomputation prec_P = mnt4_affine_ate_precompute_G1(P);
     const mnt4_affine_ate_G2_precomputation prec_Q = mnt4_affine_ate_precompute_G2(Q);
     const mnt4_Fq4 f = mnt4_affine_ate_miller_loop(prec_P, prec_Q);
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..5753503 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -689,6 +689,12 @@ mnt6_Fq6 mnt6_ate_double_miller_loop(const mnt6_ate_G1_precomp &prec_P1,
 
 mnt6_Fq6 mnt6_ate_pairing(const mnt6_G1& P, const mnt6_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return mnt6_Fq6::one();
+    }
+
     enter_block("Call to mnt6_ate_pairing");
     mnt6_ate_G1_precomp prec_P = mnt6_ate_precompute_G1(P);
     mnt6_ate_G2_precomp prec_Q = mnt6_ate_precompute_G2(Q);
@@ -745,6 +751,12 @@ mnt6_GT mnt6_reduced_pairing(const mnt6_G1 &P,
 mnt6_GT mnt6_affine_reduced_pairing(const mnt6_G1 &P,
                                     const mnt6_G2 &Q)
 {
+    /* the Miller loop works on affine coordinates, which the identity lacks */
+    if (P.is_zero() || Q.is_zero())
+    {
+        return mnt6_GT::one();
+    }
+
     const mnt6_affine_ate_G1_precomputation prec_P = mnt6_affine_ate_precompute_G1(P);
     const mnt6_affine_ate_G2_precomputation prec_Q = mnt6_affine_ate_precompute_G2(Q);
     const mnt6_Fq6 f = mnt6_affine_ate_miller_loop(prec_P, prec_Q);
-- 
2.43.0


From 249c28638f916b59031ace89d9b7a33b144bcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 08/23] fix: mul_by_b of the BN and BLS twist groups multiplies
 by the twist coefficient

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 2 +-
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..11e5146 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -35,7 +35,7 @@ alt_bn128_G2::alt_bn128_G2()
 
 alt_bn128_Fq2 alt_bn128_G2::mul_by_b(const alt_bn128_Fq2 &elt)
 {
-    return alt_bn128_Fq2(alt_bn128_twist_mul_by_b_c0 * elt.c0, alt_bn128_twist_mul_by_b_c1 * elt.c1);
+    return alt_bn128_twist_coeff_b * elt;
 }
 
 void alt_bn128_G2::print() const
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..4683235 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -24,7 +24,7 @@ bls12_381_G2::bls12_381_G2()
 
 bls12_381_Fq2 bls12_381_G2::mul_by_b(const bls12_381_Fq2 &elt)
 {
-    return bls12_381_Fq2(bls12_381_twist_mul_by_b_c0 * elt.c0, bls12_381_twist_mul_by_b_c1 * elt.c1);
+    return bls12_381_twist_coeff_b * elt;
 }
 
 void bls12_381_G2::print() const
-- 
2.43.0


From cbef7c968428bfd2ea7e0f40825c03ebb356a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 09/23] fix: compressed G2 points keep the sign of y when its
 first coefficient is zero

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 14 +++++++++++---
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 14 +++++++++++---
 libff/algebra/curves/edwards/edwards_g2.cpp     | 14 +++++++++++---
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 14 +++++++++++---
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 14 +++++++++++---
 5 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index 11e5146..52468b5 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -380,6 +380,14 @@ alt_bn128_G2 alt_bn128_G2::random_element()
     return (alt_bn128_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first non-zero coefficient, which tells y from -y */
+static unsigned int Y_sign(const alt_bn128_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 {
     alt_bn128_G2 copy(g);
@@ -388,8 +396,8 @@ std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign(copy.Y);
 #endif
 
     return out;
@@ -421,7 +429,7 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 4683235..45b1bdb 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -366,6 +366,14 @@ bls12_381_G2 bls12_381_G2::random_element()
     return (bls12_381_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first non-zero coefficient, which tells y from -y */
+static unsigned int Y_sign(const bls12_381_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 {
     bls12_381_G2 copy(g);
@@ -374,8 +382,8 @@ std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign(copy.Y);
 #endif
 
     return out;
@@ -407,7 +415,7 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..0479578 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -330,6 +330,14 @@ edwards_G2 edwards_G2::random_element()
     return edwards_Fr::random_element().as_bigint() * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first non-zero coefficient, which tells y from -y */
+static unsigned int Y_sign(const edwards_Fq3 &y)
+{
+    return (y.c0.is_zero() ? (y.c1.is_zero() ? y.c2 : y.c1) : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 {
     edwards_G2 copy(g);
@@ -337,8 +345,8 @@ std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign(copy.Y);
 #endif
     return out;
 }
@@ -369,7 +377,7 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
 
-    if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+    if (Y_sign(tY) != Y_lsb)
     {
         tY = -tY;
     }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..e1f073a 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -416,6 +416,14 @@ mnt4_G2 mnt4_G2::random_element()
     return (mnt4_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first non-zero coefficient, which tells y from -y */
+static unsigned int Y_sign(const mnt4_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 {
     mnt4_G2 copy(g);
@@ -425,8 +433,8 @@ std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign(copy.Y);
 #endif
 
     return out;
@@ -458,7 +466,7 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..e0f46be 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -422,6 +422,14 @@ mnt6_G2 mnt6_G2::random_element()
     return (mnt6_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first non-zero coefficient, which tells y from -y */
+static unsigned int Y_sign(const mnt6_Fq3 &y)
+{
+    return (y.c0.is_zero() ? (y.c1.is_zero() ? y.c2 : y.c1) : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 {
     mnt6_G2 copy(g);
@@ -431,8 +439,8 @@ std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign(copy.Y);
 #endif
 
     return out;
@@ -464,7 +472,7 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
-- 
2.43.0


From bf9c7ac8b869e88491e7d6077dc736bd200ccd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 10/23] fix: define the declared stream operators for vectors
 of Fp6_2over3 elements

---
 .../fields/prime_extension/fp6_2over3.tcc     | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..df2b4fa 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -382,5 +382,41 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s;
+    in >> s;
+
+    char b;
+    in.read(&b, 1);
+
+    v.reserve(s);
+
+    for (size_t i = 0; i < s; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        consume_OUTPUT_NEWLINE(in);
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 5f4098afc4e015d148ff8eef56cb2ab35d285d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 11/23] fix: deserialize_bit_vector consumes the newlines
 serialize_bit_vector writes

---
 libff/common/utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 37579bd..092a0b1 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -11,6 +11,7 @@
 #include <cstdarg>
 #include <cstdint>
 
+#include <libff/common/serialization.hpp>
 #include <libff/common/utils.hpp>
 
 namespace libff {
@@ -141,11 +142,13 @@ void deserialize_bit_vector(std::istream &in, bit_vector &v)
 {
     size_t size;
     in >> size;
+    consume_newline(in);
     v.resize(size);
     for (size_t i = 0; i < size; ++i)
     {
         bool b;
         in >> b;
+        consume_newline(in);
         v[i] = b;
     }
 }
-- 
2.43.0


From 16f3c1699a35c6e3b82054c1731dd8af1a206fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 12/23] fix: reading a vector of extension-field elements
 consumes the separator after each element

---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 1 +
 libff/algebra/fields/prime_extension/fp2.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp3.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..90025a7 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -562,6 +562,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..92e316f 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -305,6 +305,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..78dd4e5 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -307,6 +307,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..2ed0bc2 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -322,6 +322,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0


From 9f8333405a3f80d78399aae95e35892cc31f6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 13/23] fix: separate the elements of vectors of integers in
 binary output

---
 libff/common/serialization.tcc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index e00f2be..d3b5117 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -13,6 +13,7 @@
 
 #include <cassert>
 #include <sstream>
+#include <type_traits>
 
 #include <libff/common/utils.hpp>
 
@@ -103,7 +104,8 @@ std::ostream& operator<<(std::ostream& out, const std::vector<T> &v)
     out << v.size() << "\n";
     for (const T& t : v)
     {
-        out << t << OUTPUT_NEWLINE;
+        // integers are always followed by a newline
+        out << t << (std::is_arithmetic<T>::value ? "\n" : OUTPUT_NEWLINE);
     }
 
     return out;
@@ -122,7 +124,14 @@ std::istream& operator>>(std::istream& in, std::vector<T> &v)
     {
         T elt;
         in >> elt;
-        consume_OUTPUT_NEWLINE(in);
+        if (std::is_arithmetic<T>::value)
+        {
+            consume_newline(in);
+        }
+        else
+        {
+            consume_OUTPUT_NEWLINE(in);
+        }
         v.push_back(elt);
     }
 
-- 
2.43.0


From 9c394f16768d795eb62dc8e8d7263cefc1f4318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 14/23] fix: binary output of binary-field elements is
 self-delimiting

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..c70a1b0 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index 7f8cfee..78813a1 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..5248da6 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..6404701 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..a9efc60 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 617dd3bc16fb32131df83c6891bdd97e3ae1480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 15/23] fix: edwards_tate_reduced_pairing leaves the profiling
 block it entered

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 7a2ba3a..66d8375 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -451,7 +451,7 @@ edwards_GT edwards_tate_reduced_pairing(const edwards_G1 &P, const edwards_G2 &Q
     enter_block("Call to edwards_tate_reduced_pairing");
     const edwards_Fq6 f = edwards_tate_pairing(P, Q);
     const edwards_GT result = edwards_final_exponentiation(f);
-    leave_block("Call to edwards_tate_reduce_pairing");
+    leave_block("Call to edwards_tate_reduced_pairing");
     return result;
 }
 
-- 
2.43.0


From e464433158e6c261e146fc57aa807ac28e9c8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 16/23] fix: profiling indentation follows the blocks when
 output is toggled inside one

---
 libff/common/profiling.cpp | 41 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index dcf41c7..5dd24c9 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -260,23 +260,22 @@ void enter_block(const std::string &msg, const bool indent)
     long long cpu_t = get_nsec_cpu_time();
     enter_cpu_times[msg] = cpu_t;
 
-    if (inhibit_profiling_info)
-    {
-        return;
-    }
-
 #ifdef MULTICORE
 #pragma omp critical
 #endif
     {
-        op_profiling_enter(msg);
+        if (!inhibit_profiling_info)
+        {
+            op_profiling_enter(msg);
 
-        print_indent();
-        printf("(enter) %-35s\t", msg.c_str());
-        print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-        printf("\n");
-        fflush(stdout);
+            print_indent();
+            printf("(enter) %-35s\t", msg.c_str());
+            print_times_from_last_and_start(t, t, cpu_t, cpu_t);
+            printf("\n");
+            fflush(stdout);
+        }
 
+        /* the nesting depth follows the blocks even while output is inhibited */
         if (indent)
         {
             ++indentation;
@@ -312,11 +311,6 @@ void leave_block(const std::string &msg, const bool indent)
     }
 #endif
 
-    if (inhibit_profiling_info)
-    {
-        return;
-    }
-
 #ifdef MULTICORE
 #pragma omp critical
 #endif
@@ -326,12 +320,15 @@ void leave_block(const std::string &msg, const bool indent)
             --indentation;
         }
 
-        print_indent();
-        printf("(leave) %-35s\t", msg.c_str());
-        print_times_from_last_and_start(t, enter_times[msg], cpu_t, enter_cpu_times[msg]);
-        print_op_profiling(msg);
-        printf("\n");
-        fflush(stdout);
+        if (!inhibit_profiling_info)
+        {
+            print_indent();
+            printf("(leave) %-35s\t", msg.c_str());
+            print_times_from_last_and_start(t, enter_times[msg], cpu_t, enter_cpu_times[msg]);
+            print_op_profiling(msg);
+            printf("\n");
+            fflush(stdout);
+        }
     }
 }
 
-- 
2.43.0


From b18bbaa254a16d5cd2e1177608019b04d17d3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 17/23] fix: durations of profiling blocks nested in a block of
 the same name

---
 libff/common/profiling.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 5dd24c9..b00d201 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -62,11 +62,11 @@ void start_profiling()
 }
 
 std::map<std::string, size_t> invocation_counts;
-std::map<std::string, long long> enter_times;
+std::map<std::string, std::vector<long long> > enter_times; // of the open blocks of that name, innermost last
 std::map<std::string, long long> last_times;
 std::map<std::string, long long> cumulative_times;
 //TODO: Instead of analogous maps for time and cpu_time, use a single struct-valued map
-std::map<std::string, long long> enter_cpu_times;
+std::map<std::string, std::vector<long long> > enter_cpu_times;
 std::map<std::string, long long> last_cpu_times;
 std::map<std::pair<std::string, std::string>, long long> op_counts;
 std::map<std::pair<std::string, std::string>, long long> cumulative_op_counts; // ((msg, data_point), value)
@@ -256,9 +256,9 @@ void enter_block(const std::string &msg, const bool indent)
 
     block_names.emplace_back(msg);
     long long t = get_nsec_time();
-    enter_times[msg] = t;
+    enter_times[msg].push_back(t);
     long long cpu_t = get_nsec_cpu_time();
-    enter_cpu_times[msg] = cpu_t;
+    enter_cpu_times[msg].push_back(cpu_t);
 
 #ifdef MULTICORE
 #pragma omp critical
@@ -283,6 +283,18 @@ void enter_block(const std::string &msg, const bool indent)
     }
 }
 
+/* Remove and return the enter time of the innermost open block (0 if there is none). */
+static long long pop_enter_time(std::vector<long long> &times)
+{
+    if (times.empty())
+    {
+        return 0;
+    }
+    const long long t = times.back();
+    times.pop_back();
+    return t;
+}
+
 void leave_block(const std::string &msg, const bool indent)
 {
     if (inhibit_profiling_counters)
@@ -298,11 +310,13 @@ void leave_block(const std::string &msg, const bool indent)
     ++invocation_counts[msg];
 
     long long t = get_nsec_time();
-    last_times[msg] = (t - enter_times[msg]);
-    cumulative_times[msg] += (t - enter_times[msg]);
+    const long long enter_t = pop_enter_time(enter_times[msg]);
+    last_times[msg] = (t - enter_t);
+    cumulative_times[msg] += (t - enter_t);
 
     long long cpu_t = get_nsec_cpu_time();
-    last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
+    const long long enter_cpu_t = pop_enter_time(enter_cpu_times[msg]);
+    last_cpu_times[msg] = (cpu_t - enter_cpu_t);
 
 #ifdef PROFILE_OP_COUNTS
     for (std::pair<std::string, long long*> p : op_data_points)
@@ -324,7 +338,7 @@ void leave_block(const std::string &msg, const bool indent)
         {
             print_indent();
             printf("(leave) %-35s\t", msg.c_str());
-            print_times_from_last_and_start(t, enter_times[msg], cpu_t, enter_cpu_times[msg]);
+            print_times_from_last_and_start(t, enter_t, cpu_t, enter_cpu_t);
             print_op_profiling(msg);
             printf("\n");
             fflush(stdout);
-- 
2.43.0


From 9f927ff6b994b2ea0c07f252a356fa2be2ddeb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 18/23] fix: profiling bookkeeping is kept under the lock in
 MULTICORE builds

---
 libff/common/profiling.cpp | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index b00d201..9cdbb1e 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -254,16 +254,16 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
-    block_names.emplace_back(msg);
-    long long t = get_nsec_time();
-    enter_times[msg].push_back(t);
-    long long cpu_t = get_nsec_cpu_time();
-    enter_cpu_times[msg].push_back(cpu_t);
-
 #ifdef MULTICORE
 #pragma omp critical
 #endif
     {
+        block_names.emplace_back(msg);
+        long long t = get_nsec_time();
+        enter_times[msg].push_back(t);
+        long long cpu_t = get_nsec_cpu_time();
+        enter_cpu_times[msg].push_back(cpu_t);
+
         if (!inhibit_profiling_info)
         {
             op_profiling_enter(msg);
@@ -302,33 +302,33 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
+#ifdef MULTICORE
+#pragma omp critical
+#endif
+    {
 #ifndef MULTICORE
-    assert(*(--block_names.end()) == msg);
+        assert(*(--block_names.end()) == msg);
 #endif
-    block_names.pop_back();
+        block_names.pop_back();
 
-    ++invocation_counts[msg];
+        ++invocation_counts[msg];
 
-    long long t = get_nsec_time();
-    const long long enter_t = pop_enter_time(enter_times[msg]);
-    last_times[msg] = (t - enter_t);
-    cumulative_times[msg] += (t - enter_t);
+        long long t = get_nsec_time();
+        const long long enter_t = pop_enter_time(enter_times[msg]);
+        last_times[msg] = (t - enter_t);
+        cumulative_times[msg] += (t - enter_t);
 
-    long long cpu_t = get_nsec_cpu_time();
-    const long long enter_cpu_t = pop_enter_time(enter_cpu_times[msg]);
-    last_cpu_times[msg] = (cpu_t - enter_cpu_t);
+        long long cpu_t = get_nsec_cpu_time();
+        const long long enter_cpu_t = pop_enter_time(enter_cpu_times[msg]);
+        last_cpu_times[msg] = (cpu_t - enter_cpu_t);
 
 #ifdef PROFILE_OP_COUNTS
-    for (std::pair<std::string, long long*> p : op_data_points)
-    {
-        cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
-    }
+        for (std::pair<std::string, long long*> p : op_data_points)
+        {
+            cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
+        }
 #endif
 
-#ifdef MULTICORE
-#pragma omp critical
-#endif
-    {
         if (indent)
         {
             --indentation;
-- 
2.43.0


From aeebd6e795a1d3824438e5787e887a26bb16b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 19/23] fix: profiling bookkeeping is kept under a mutex in
 every build

---
 libff/common/profiling.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 9cdbb1e..78af2bb 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -13,6 +13,7 @@
 #include <cstdio>
 #include <ctime>
 #include <list>
+#include <mutex>
 #include <stdexcept>
 #include <vector>
 
@@ -75,6 +76,9 @@ size_t indentation = 0;
 
 std::vector<std::string> block_names;
 
+/* held while a block is entered or left: the bookkeeping is shared by all threads */
+static std::mutex bookkeeping_mutex;
+
 std::list<std::pair<std::string, long long*> > op_data_points = {
 #ifdef PROFILE_OP_COUNTS
     std::make_pair("Fradd", &Fr<default_ec_pp>::add_cnt),
@@ -254,10 +258,9 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
-#ifdef MULTICORE
-#pragma omp critical
-#endif
     {
+        std::lock_guard<std::mutex> lock(bookkeeping_mutex);
+
         block_names.emplace_back(msg);
         long long t = get_nsec_time();
         enter_times[msg].push_back(t);
@@ -302,10 +305,9 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
-#ifdef MULTICORE
-#pragma omp critical
-#endif
     {
+        std::lock_guard<std::mutex> lock(bookkeeping_mutex);
+
 #ifndef MULTICORE
         assert(*(--block_names.end()) == msg);
 #endif
-- 
2.43.0


From 3a4cc57ab2fc202320efde2a6ad240827d61343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 20/23] fix: Fp from the most negative long negates without
 signed overflow

---
 libff/algebra/fields/prime_base/fp.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 8e0d588..d396fb6 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -210,7 +210,7 @@ Fp_model<n,modulus>::Fp_model(const long x, const bool is_unsigned)
     }
     else
     {
-        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, (mp_limb_t)-x);
+        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, -(mp_limb_t)x);
 #ifndef NDEBUG
             assert(borrow == 0);
 #else
-- 
2.43.0


From ae1399db4bcf2cf907fff243061e53d6d1b79f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 21/23] fix: two's complement encoding adds 2^w in unsigned
 arithmetic

---
 libff/common/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 092a0b1..34c0cc9 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -66,7 +66,7 @@ size_t to_twos_complement(int i, size_t w)
 {
     assert(i >= -(1l<<(w-1)));
     assert(i < (1l<<(w-1)));
-    return (i >= 0) ? i : i + (1L<<w);
+    return (i >= 0) ? i : i + (1UL<<w);
 }
 
 int from_twos_complement(size_t i, size_t w)
-- 
2.43.0


From 452295139f2eb546dc25eea50f6e22591e13ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 22/23] fix: Double converts to the nearest integer instead of
 truncating

---
 libff/common/double.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/common/double.cpp b/libff/common/double.cpp
index e19671e..f87aa59 100755
--- a/libff/common/double.cpp
+++ b/libff/common/double.cpp
@@ -151,12 +151,12 @@ Double Double::inverse() const
 
 libff::bigint<1> Double::as_bigint() const
 {
-    return libff::bigint<1>((size_t) val.real());
+    return libff::bigint<1>((size_t) round(val.real()));
 }
 
 unsigned long Double::as_ulong() const
 {
-    return round((size_t) val.real());
+    return (unsigned long) round(val.real());
 }
 
 Double Double::squared() const
-- 
2.43.0


From 653b08e8a5d194b581d9f1684aa7f8de58b4b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 23/23] fix: Double to the power zero is one for the base zero
 too

---
 libff/common/double.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/common/double.cpp b/libff/common/double.cpp
index f87aa59..1613d38 100755
--- a/libff/common/double.cpp
+++ b/libff/common/double.cpp
@@ -132,11 +132,15 @@ bool Double::operator>(const Double &other) const
 
 Double Double::operator^(const libff::bigint<1> power) const
 {
-    return Double(pow(val, power.as_ulong()));
+    return *this ^ (size_t) power.as_ulong();
 }
 
 Double Double::operator^(const size_t power) const
 {
+    if (power == 0) {
+        return one(); // pow() yields NaN for 0^0
+    }
+
     return Double(pow(val, power));
 }
 
-- 
2.43.0

