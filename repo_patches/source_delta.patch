From 38f4f724a09ef315e89e0d3825cc151e8196a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 01/11] fix: compute squared norm of signature without 32-bit
 overflow

---
 include/verification.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..3573ebd 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,10 +67,12 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  // accumulated in 64 -bits, because squared norm of a forged signature can be
+  // way larger than 2^31
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
   }
   for (size_t i = 0; i < N; i++) {
     sqrd_norm += normalized_s1[i] * normalized_s1[i];
-- 
2.43.0


From 219a0c728f3989a31a0ad31459fa154982be3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 02/11] fix: center s1 in [-q/2, q/2] when verifying, keeping
 (q-1)/2 positive

---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 3573ebd..99cfd4e 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From a35dd37f4aa3a83c6f31f232216281910e4b5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 03/11] fix: decompress signatures without reading past their
 end or misreading long unary runs

---
 include/decoding.hpp | 55 +++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..c887222 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -205,8 +205,8 @@ decode_skey(const uint8_t* const __restrict skey,
 // Now notice, if we're working with a byte array of length 2 and we're asked to
 // extract 8 contiguous bits, starting from bit index 11, we will access memory
 // location which we're not supposed to be. So it's caller's responsibility to
-// ensure that atleast 2 consecutive memory locations ( i.e. bytes ) can be
-// accessed, starting from byte index (bitoff / 8).
+// ensure that atleast 8 bits are available, starting from bit index bitoff. When
+// those 8 bits live in a single byte, following byte is never accessed.
 static inline constexpr uint8_t
 extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
                           const size_t bitoff)
@@ -214,6 +214,10 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t byte_at = bitoff >> 3;
   const size_t bit_at = bitoff & 7ul;
 
+  if (bit_at == 0) {
+    return bytes[byte_at];
+  }
+
   const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
                         static_cast<uint16_t>(bytes[byte_at + 1]);
 
@@ -278,7 +282,8 @@ decompress_sig(const uint8_t* const __restrict sig,
   size_t coeff_idx = 0;
   bool failed = false;
 
-  while ((coeff_idx < N) && (bit_idx < slen)) {
+  // each coefficient is encoded using at least 9 -bits
+  while ((coeff_idx < N) && (bit_idx + 9 <= slen)) {
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
@@ -293,31 +298,29 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += ebits;
-
-          if (v < ebits) {
-            break;
-          }
+      size_t k = 0;
+      for (; bit_idx < slen;) {
+        const size_t ebits = std::min(8ul, slen - bit_idx);
+
+        size_t v = 0;
+        if (ebits < 8) {
+          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+          v = std::min<size_t>(std::countl_zero(t), ebits);
+        } else {
+          const auto t = extract_8_contiguous_bits(sig, bit_idx);
+          v = std::countl_zero(t);
+        }
+        k += v;
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
       }
+
+      // terminating bit of unary code is missing
+      failed |= bit_idx >= slen;
+      coeff += (1 << 7) * static_cast<int32_t>(k);
     }
 
     // recompute coefficient s_i
-- 
2.43.0


From 78d4fead828a32e5854421f6ac3001f28f2a7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 04/11] fix: compress and decompress signatures which use every
 available bit

---
 include/decoding.hpp | 2 +-
 include/encoding.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index c887222..6117cec 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -340,7 +340,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= (bit_idx > slen) | (coeff_idx < N);
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From c2e075e20b7688463cf3bafd5c7b000614d7bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 05/11] fix: stop compressing a signature as soon as it does
 not fit

---
 include/encoding.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 361ccf7..576170d 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -182,6 +182,13 @@ compress_sig(const int32_t* const __restrict poly_s,
   size_t coeff_idx = 0;
 
   while (coeff_idx < N) {
+    // give up before writing past end of the buffer, when it can't fit anyway
+    const size_t blen = 9 + (std::abs(poly_s[coeff_idx]) >> 7);
+    if (bit_idx + blen > slen) {
+      bit_idx = slen + 1;
+      break;
+    }
+
     // encode sign bit
     {
       const size_t byte_idx = bit_idx >> 3;
-- 
2.43.0


From 9ecf81ff980531db7f746c9e3de6fa9b9fa9ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 06/11] fix: reject public keys with coefficients not reduced
 modulo q

---
 include/decoding.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 6117cec..1ab68ce 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -13,8 +13,9 @@ namespace decoding {
 // https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon public key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and all coefficients should be < q, otherwise
+// decoding will fail, returning false. In case of successful decoding, truth
+// value is returned.
 template<const size_t N>
 static inline bool
 decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
@@ -44,7 +45,15 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
-  return true;
+  bool canonical = true;
+  for (size_t i = 0; i < N; i++) {
+    canonical &= h[i].v < ff::Q;
+  }
+
+  if (!canonical) [[unlikely]] {
+    std::fill_n(h, N, 0);
+  }
+  return canonical;
 }
 
 // Decodes a byte encoded Falcon{512, 1024} secret key into three polynomials f,
-- 
2.43.0


From 1716234d659e9365b69005a0d510c30e4d3b5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 07/11] fix: do not output key pairs which secret key encoding
 can not represent

---
 include/ntru_gen.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..457f0b1 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -447,6 +447,20 @@ reduce(const std::array<mpz_class, N>& f,
   }
 }
 
+// Checks whether all coefficients of given degree N polynomial belong to
+// [-bound, bound] or not.
+template<const size_t N>
+static inline bool
+is_within_bound(const std::array<mpz_class, N>& poly, const int32_t bound)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -bound) && (poly[i] <= bound);
+  }
+
+  return flg;
+}
+
 // Ad-hoc wrapper type for denoting that it's time to abort execution of NTRU
 // solve algorithm
 struct ntru_solve_status_t
@@ -517,6 +531,11 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // secret key encodes coefficients of f, g using {6, 5} -bits and those of F
+  // using 8 -bits, see section 3.11.5 of Falcon specification
+  constexpr int32_t fg_bound = N == 512 ? 31 : 15;
+  constexpr int32_t F_bound = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
@@ -538,11 +557,19 @@ ntru_gen(int32_t* const __restrict f,
       g_[i] = mpz_class(g[i]);
     }
 
+    if (!is_within_bound(f_, fg_bound) || !is_within_bound(g_, fg_bound)) {
+      continue;
+    }
+
     const auto ret = ntru_solve(f_, g_);
     if (!ret.second.is_solution()) {
       continue;
     }
 
+    if (!is_within_bound(ret.first.first, F_bound)) {
+      continue;
+    }
+
     for (size_t i = 0; i < N; i++) {
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
-- 
2.43.0


From dc53b682a084cf8a1ec6c3b8ece4b0844a14a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 08/11] fix: seed PRNG with 256 bits of system entropy instead
 of 32

---
 include/prng.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..3537eac 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -6,9 +6,8 @@
 namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
-// SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// SHAKE256 XoF whose state is obtained by hashing 32 random bytes, all of which
+// are sampled from system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +22,15 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
-    for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+    for (size_t i = 0; i < sizeof(seed); i += 4) {
+      const uint32_t word = rd();
+
+      seed[i + 0] = static_cast<uint8_t>(word >> 0);
+      seed[i + 1] = static_cast<uint8_t>(word >> 8);
+      seed[i + 2] = static_cast<uint8_t>(word >> 16);
+      seed[i + 3] = static_cast<uint8_t>(word >> 24);
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From 476b55d42e0ae8a166956d254da0d3dfcd12081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 09/11] fix: do not sign using damaged secret key

---
 include/falcon.hpp | 57 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/include/falcon.hpp b/include/falcon.hpp
index 2bdd7c0..e8e145c 100644
--- a/include/falcon.hpp
+++ b/include/falcon.hpp
@@ -85,10 +85,58 @@ recompute_G(const int32_t* const __restrict f,
   fft::ifft<log2<N>()>(G_);
 
   for (size_t i = 0; i < N; i++) {
-    G[i] = static_cast<int32_t>(std::round(G_[i].real()));
+    // when f, g, F don't belong together, these can be arbitrarily large or NaN
+    const double v = std::round(G_[i].real());
+    G[i] = std::abs(v) < Q ? static_cast<int32_t>(v) : 0;
   }
 }
 
+// Given polynomials f, g, F ( decoded from secret key ) and G ( recomputed from
+// them ), this routine checks whether they make up a key pair, which Falcon key
+// generation could've output i.e. f is invertible mod q, Gram-Schmidt norm is
+// within bound and fG - gF = 0 mod q.
+template<const size_t N>
+static inline bool
+is_valid_key(const int32_t* const __restrict f,
+             const int32_t* const __restrict g,
+             const int32_t* const __restrict F,
+             const int32_t* const __restrict G)
+  requires((N == 512) || (N == 1024))
+{
+  if (!ntru_gen::is_poly_invertible<log2<N>()>(f)) {
+    return false;
+  }
+
+  const double gsnorm = ntru_gen::gram_schmidt_norm<log2<N>()>(f, g);
+  if (!(gsnorm <= ntru_gen::GS_NORM_THRESHOLD)) {
+    return false;
+  }
+
+  ff::ff_t f_[N];
+  ff::ff_t g_[N];
+  ff::ff_t F_[N];
+  ff::ff_t G_[N];
+
+  for (size_t i = 0; i < N; i++) {
+    f_[i].v = static_cast<uint16_t>((f[i] < 0) * ff::Q + f[i]);
+    g_[i].v = static_cast<uint16_t>((g[i] < 0) * ff::Q + g[i]);
+    F_[i].v = static_cast<uint16_t>((F[i] < 0) * ff::Q + F[i]);
+    G_[i].v = static_cast<uint16_t>((G[i] < 0) * ff::Q + G[i]);
+  }
+
+  ntt::ntt<log2<N>()>(f_);
+  ntt::ntt<log2<N>()>(g_);
+  ntt::ntt<log2<N>()>(F_);
+  ntt::ntt<log2<N>()>(G_);
+
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (f_[i] * G_[i]).v == (g_[i] * F_[i]).v;
+  }
+
+  return flg;
+}
+
 // Given four degree N polynomials f, g, F and G, in coefficient form, this
 // routine computes a 2x2 matrix B, in its FFT form s.t. B = [[g, -f], [G, -F]]
 template<const size_t N>
@@ -186,6 +234,9 @@ sign(const fft::cmplx* const __restrict B, // 2x2 matrix [[g, -f], [G, -F]]
 // when one signs many messages - one after another say. But for single shot
 // usecases, where secret key is loaded into memory just to sign a single
 // message, one might prefer using this routine.
+//
+// Returns false, without computing any signature, if secret key can't be decoded
+// or it's damaged i.e. what it holds is not a Falcon secret key.
 template<const size_t N>
 static inline bool
 sign(const uint8_t* const __restrict skey,
@@ -208,6 +259,10 @@ sign(const uint8_t* const __restrict skey,
   }
 
   recompute_G<N>(f, g, F, G);
+  if (!is_valid_key<N>(f, g, F, G)) [[unlikely]] {
+    return false;
+  }
+
   compute_matrix_B<N>(f, g, F, G, B);
   compute_falcon_tree<N>(B, T);
   sign<N>(B, T, msg, mlen, sig, rng);
-- 
2.43.0


From 830b58b0fa29b9efcdf06b0f02e2ef81a3e5fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 10/11] fix: keep argument of exponential from being rounded
 below zero

---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..9d496cc 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -250,7 +250,7 @@ static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(0., x - s * LN2); // can be rounded below 0
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -287,7 +287,7 @@ ber_exp(const double x,
         const size_t rblen)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(0., x - s * LN2); // can be rounded below 0
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0


From c23d17e9f33a7e1c0e59002d72aced85edecb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 11/11] fix: finish reducing F, G even when rounding errors
 prevent any progress

Reducing (F, G) by (f, g) could go on forever: when some coefficient of k is
1/2, rounding errors let F, G move back and forth by the same multiple of f, g;
and when FFT coefficients of f, g differ in size by more than double precision
can express, F, G never become short enough. Stop reducing when F, G have not
become shorter for several iterations. What's left is reduced one level higher,
or rejected for not fitting into the secret key.
---
 include/ntru_gen.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index 457f0b1..29e0c20 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -3,6 +3,7 @@
 #include "polynomial.hpp"
 #include "prng.hpp"
 #include "samplerz.hpp"
+#include <limits>
 
 // Generate f, g, F, G ∈ Z[x]/(φ) | fG − gF = q mod φ ( i.e. NTRU equation )
 namespace ntru_gen {
@@ -364,6 +365,15 @@ reduce(const std::array<mpz_class, N>& f,
   fft::adj_poly<log2<N>()>(f_adjoint);
   fft::adj_poly<log2<N>()>(g_adjoint);
 
+  // F, G get shorter every few iterations, until they're reduced. But rounding
+  // errors may also let them move back and forth, when a coefficient of k is
+  // ±1/2, or even grow, when f, g have both very small and very large FFT
+  // coefficients, hence give up after several iterations without any progress.
+  constexpr size_t max_stalled = 32;
+
+  size_t shortest = std::numeric_limits<size_t>::max();
+  size_t stalled = 0;
+
   while (1) {
     const std::pair<mpz_class, mpz_class> Fmm = min_max(F);
     const std::pair<mpz_class, mpz_class> Gmm = min_max(G);
@@ -378,6 +388,13 @@ reduce(const std::array<mpz_class, N>& f,
       break;
     }
 
+    if (blen1 < shortest) {
+      shortest = blen1;
+      stalled = 0;
+    } else if (++stalled > max_stalled) {
+      break;
+    }
+
     fft::cmplx F_adjust[N];
     fft::cmplx G_adjust[N];
     fft::cmplx F_adjoint[N];
-- 
2.43.0

