From 3b22e9636bcfb19bd7723bc12568331f05e06c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 01/14] fix: Cauchy matrix normalisation divided by already
 normalised elements

The divisor of a row/column was overwritten by the first iteration of the
inner loop, so the generator matrix was not a scaled Cauchy matrix and some
sets of n_data fragments were not decodable.
---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..c08e472 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -417,14 +417,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T coef = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), coef));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T coef = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), coef));
         }
     }
 }
-- 
2.43.0


From c06e4d93b3255abbb8921dccf37c2127f4defd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 02/14] fix: do not use vectorized modular operations for other
 moduli

SIMD operations are hard-wired to the modulus 257 for 16-bit elements and 65537
for 32-bit elements. They were also used by fields of another cardinal, e.g. FNT
with 32-bit elements and a word size of one byte.
---
 src/fec_rs_fnt.h |  3 ++-
 src/fft_2n.h     |  2 +-
 src/simd/simd.h  | 16 ++++++++++++++++
 src/simd_ring.h  | 10 +++++-----
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/fec_rs_fnt.h b/src/fec_rs_fnt.h
index f06c790..ced5178 100644
--- a/src/fec_rs_fnt.h
+++ b/src/fec_rs_fnt.h
@@ -78,7 +78,8 @@ class RsFnt : public FecCode<T> {
 
         // Indices used for accelerated functions
         const unsigned ratio = simd::countof<T>();
-        simd_vec_len = this->pkt_size / ratio;
+        simd_vec_len =
+            simd::vec_len<T>(this->pkt_size, this->gf->card());
         simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
         simd_offset = simd_vec_len * ratio;
     }
diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..9c4436d 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -202,7 +202,7 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
 
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    simd_vec_len = simd::vec_len<T>(this->pkt_size, card);
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/simd/simd.h b/src/simd/simd.h
index f4d1cdf..2cef532 100644
--- a/src/simd/simd.h
+++ b/src/simd/simd.h
@@ -54,6 +54,22 @@ static constexpr std::size_t countof()
     return REG_BITSZ / (sizeof(T) * CHAR_BIT);
 }
 
+/** Return the number of SIMD registers that `len` elements fill entirely, or 0
+ *  when the vectorized operations cannot be used.
+ *
+ *  @note the vectorized modular operations are dedicated to a Fermat prime per
+ *  element type, i.e. 257 for 16-bit and 65537 for 32-bit elements. Elements of
+ *  rings of another cardinal must be handled by scalar operations.
+ */
+template <typename T>
+static constexpr std::size_t vec_len(std::size_t len, T card)
+{
+    return ((sizeof(T) == 2 && card == 257)
+            || (sizeof(T) == 4 && card == 65537))
+               ? len / countof<T>()
+               : 0;
+}
+
 } // namespace simd
 } // namespace quadiron
 
diff --git a/src/simd_ring.h b/src/simd_ring.h
index a25176a..56f5e98 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -50,7 +50,7 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = vec_len<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
@@ -79,7 +79,7 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = vec_len<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -101,7 +101,7 @@ inline void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len, T card)
     VecType* _bufb = reinterpret_cast<VecType*>(bufb);
     VecType* _res = reinterpret_cast<VecType*>(res);
     const unsigned ratio = sizeof(*_bufa) / sizeof(*bufa);
-    const size_t _len = len / ratio;
+    const size_t _len = vec_len<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -127,7 +127,7 @@ inline void mul_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = vec_len<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -150,7 +150,7 @@ inline void neg(size_t len, T* buf, T card)
 {
     VecType* _buf = reinterpret_cast<VecType*>(buf);
     const unsigned ratio = sizeof(*_buf) / sizeof(*buf);
-    const size_t _len = len / ratio;
+    const size_t _len = vec_len<T>(len, card);
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
-- 
2.43.0


From a6dfe12bbf08bfa84ba7a9d4a4ff4209d2b131af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 03/14] fix: C API encode dereferenced the buffers of parities
 that are not wanted

---
 src/quadiron_c.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..6b5b6d7 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -94,7 +94,9 @@ int quadiron_fnt32_encode(
             data_vec[i] = data[i] + metadata_size;
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
-            parities_vec[i] = parity[i] + metadata_size;
+            if (wanted_idxs[i]) {
+                parities_vec[i] = parity[i] + metadata_size;
+            }
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
@@ -102,7 +104,9 @@ int quadiron_fnt32_encode(
             parities_vec[i] = data[i] + metadata_size;
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
-            parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            if (wanted_idxs[fec->n_data + i]) {
+                parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            }
         }
     }
 
@@ -120,6 +124,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -129,6 +136,9 @@ int quadiron_fnt32_encode(
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +147,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From 491bdde09de8f640181fec4395edebd1165602b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 04/14] fix: fnt_serialize left the last dword of the header
 uninitialized

---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From 8e284697f8a75b1c2a74a1ab8dd41ad15231b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 05/14] fix: C API decode reset metadata beyond the parities
 properties

---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 6b5b6d7..271085b 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -230,9 +230,9 @@ int quadiron_fnt32_decode(
 
     // reset metadata of data
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
+        quadiron::Properties null_prop;
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From f694a8b784be3fe5e2779472dbebc192636f8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 06/14] fix: C API reconstruct selected data with the parities
 flags

---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 271085b..ebbba60 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -305,13 +305,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From 1aa0ab56377d4fbc3c967ea7117ea30744c9bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 07/14] fix: fnt_deserialize accepted entry counts that
 overflow the header

---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 3df01792e19e9620ac094a6ef0f1ee215df06a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 08/14] fix: constructors leaked their tables when an
 allocation failed

---
 src/arith.h       |  7 ++-----
 src/fft_base.h    | 13 ++++++-------
 src/fft_ct.h      | 40 +++++++++++++++-------------------------
 src/fft_gt.h      | 42 ++++++++++++++++--------------------------
 src/fft_naive.h   | 30 ++++++++++++++----------------
 src/gf_bin_ext.h  | 41 +++++++++++++----------------------------
 src/vec_buffers.h | 32 ++++++++++++++++++++++++--------
 7 files changed, 90 insertions(+), 115 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..83ec700 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -332,8 +332,8 @@ T chinese_remainder(int n_mod, T a[], T n[])
 {
     SignedDoubleSizeVal<T> acc;
     SignedDoubleSizeVal<T> x;
-    SignedDoubleSizeVal<T>* N = new SignedDoubleSizeVal<T>[n_mod];
-    SignedDoubleSizeVal<T>* M = new SignedDoubleSizeVal<T>[n_mod];
+    std::vector<SignedDoubleSizeVal<T>> N(n_mod);
+    std::vector<SignedDoubleSizeVal<T>> M(n_mod);
 
     acc = 1;
     for (int i = 0; i < n_mod; i++) {
@@ -353,9 +353,6 @@ T chinese_remainder(int n_mod, T a[], T n[])
         x += N[i] * M[i] * a[i];
     }
 
-    delete[] N;
-    delete[] M;
-
     x = x % acc;
 
     if (x < 0) {
diff --git a/src/fft_base.h b/src/fft_base.h
index 6c5189c..8d6ee25 100644
--- a/src/fft_base.h
+++ b/src/fft_base.h
@@ -31,6 +31,8 @@
 #ifndef __QUAD_FFT_BASE_H__
 #define __QUAD_FFT_BASE_H__
 
+#include <memory>
+
 #include "gf_base.h"
 #include "vec_buffers.h"
 #include "vec_vector.h"
@@ -87,7 +89,7 @@ class FourierTransform {
     const gf::Field<T>* gf;
     int n;
     T inv_n_mod_p;
-    vec::Vector<T>* vec_inv_n = nullptr;
+    std::unique_ptr<vec::Vector<T>> vec_inv_n = nullptr;
     FourierTransform(const gf::Field<T>& gf, int n, bool additive = false);
 };
 
@@ -103,7 +105,8 @@ FourierTransform<T>::FourierTransform(
     if (!additive) {
         this->inv_n_mod_p = gf.get_inv_n_mod_p(n);
 
-        this->vec_inv_n = new vec::Vector<T>(gf, n);
+        this->vec_inv_n =
+            std::unique_ptr<vec::Vector<T>>(new vec::Vector<T>(gf, n));
         for (int i = 0; i < n; i++) {
             this->vec_inv_n->set(i, this->inv_n_mod_p);
         }
@@ -111,11 +114,7 @@ FourierTransform<T>::FourierTransform(
 }
 
 template <typename T>
-FourierTransform<T>::~FourierTransform()
-{
-    if (vec_inv_n != nullptr)
-        delete vec_inv_n;
-}
+FourierTransform<T>::~FourierTransform() = default;
 
 template <typename T>
 int FourierTransform<T>::get_n()
diff --git a/src/fft_ct.h b/src/fft_ct.h
index c243886..0d3f988 100644
--- a/src/fft_ct.h
+++ b/src/fft_ct.h
@@ -31,6 +31,8 @@
 #ifndef __QUAD_FFT_CT_H__
 #define __QUAD_FFT_CT_H__
 
+#include <memory>
+
 #include "arith.h"
 #include "fft_2.h"
 #include "fft_base.h"
@@ -108,11 +110,11 @@ class CooleyTukey : public FourierTransform<T> {
     T n1;
     T n2;
     T w, w1, w2, inv_w;
-    vec::Vector<T>* G = nullptr;
-    vec::View<T>* Y = nullptr;
-    vec::View<T>* X = nullptr;
-    FourierTransform<T>* dft_outer = nullptr;
-    FourierTransform<T>* dft_inner = nullptr;
+    std::unique_ptr<vec::Vector<T>> G = nullptr;
+    std::unique_ptr<vec::View<T>> Y = nullptr;
+    std::unique_ptr<vec::View<T>> X = nullptr;
+    std::unique_ptr<FourierTransform<T>> dft_outer = nullptr;
+    std::unique_ptr<FourierTransform<T>> dft_inner = nullptr;
     std::vector<T> prime_factors;
     void mul_twiddle_factors(bool inv);
 };
@@ -148,9 +150,9 @@ CooleyTukey<T>::CooleyTukey(
 
     w1 = gf.exp(w, n2); // order of w1 = n1
     if (n1 == 2) {
-        this->dft_outer = new fft::Size2<T>(gf);
+        this->dft_outer.reset(new fft::Size2<T>(gf));
     } else {
-        this->dft_outer = new fft::Naive<T>(gf, n1, w1);
+        this->dft_outer.reset(new fft::Naive<T>(gf, n1, w1));
     }
 
     if (n2 > 1) {
@@ -161,29 +163,17 @@ CooleyTukey<T>::CooleyTukey(
         // if (_is_power_of_2<T>(_n2))
         //   this->dft_inner = new fft::Radix2<T>(gf, _n2);
         // else
-        this->dft_inner =
-            new CooleyTukey<T>(gf, _n2, id + 1, &this->prime_factors, w2);
-        this->G = new vec::Vector<T>(gf, this->n);
-        this->Y = new vec::View<T>(this->G);
-        this->X = new vec::View<T>(this->G);
+        this->dft_inner.reset(
+            new CooleyTukey<T>(gf, _n2, id + 1, &this->prime_factors, w2));
+        this->G.reset(new vec::Vector<T>(gf, this->n));
+        this->Y.reset(new vec::View<T>(this->G.get()));
+        this->X.reset(new vec::View<T>(this->G.get()));
     } else
         loop = false;
 }
 
 template <typename T>
-CooleyTukey<T>::~CooleyTukey()
-{
-    if (dft_outer)
-        delete dft_outer;
-    if (dft_inner)
-        delete dft_inner;
-    if (X)
-        delete X;
-    if (Y)
-        delete Y;
-    if (G)
-        delete G;
-}
+CooleyTukey<T>::~CooleyTukey() = default;
 
 template <typename T>
 void CooleyTukey<T>::mul_twiddle_factors(bool inv)
diff --git a/src/fft_gt.h b/src/fft_gt.h
index 66e4c6b..fd78ccf 100644
--- a/src/fft_gt.h
+++ b/src/fft_gt.h
@@ -31,6 +31,8 @@
 #ifndef __QUAD_FFT_GT_H__
 #define __QUAD_FFT_GT_H__
 
+#include <memory>
+
 #include "arith.h"
 #include "fft_2.h"
 #include "fft_2n.h"
@@ -125,11 +127,11 @@ class GoodThomas : public FourierTransform<T> {
     T n2;
     T w, w1, w2;
     T a, b, c, d;
-    vec::Vector<T>* G = nullptr;
-    vec::View<T>* Y = nullptr;
-    vec::View<T>* X = nullptr;
-    FourierTransform<T>* dft_outer = nullptr;
-    FourierTransform<T>* dft_inner = nullptr;
+    std::unique_ptr<vec::Vector<T>> G = nullptr;
+    std::unique_ptr<vec::View<T>> Y = nullptr;
+    std::unique_ptr<vec::View<T>> X = nullptr;
+    std::unique_ptr<FourierTransform<T>> dft_outer = nullptr;
+    std::unique_ptr<FourierTransform<T>> dft_inner = nullptr;
     std::vector<T> prime_factors;
 };
 
@@ -167,9 +169,9 @@ GoodThomas<T>::GoodThomas(
 
     w1 = gf.exp(w, n2); // order of w1 = n1
     if (n1 == 2) {
-        this->dft_outer = new fft::Size2<T>(gf);
+        this->dft_outer.reset(new fft::Size2<T>(gf));
     } else {
-        this->dft_outer = new fft::Naive<T>(gf, n1, w1);
+        this->dft_outer.reset(new fft::Naive<T>(gf, n1, w1));
     }
 
     if (n2 > 1) {
@@ -177,32 +179,20 @@ GoodThomas<T>::GoodThomas(
         w2 = gf.exp(w, n1); // order of w2 = n2
         T _n2 = n / n1;
         if (arith::is_power_of_2<T>(_n2)) {
-            this->dft_inner = new fft::Radix2<T>(gf, _n2);
+            this->dft_inner.reset(new fft::Radix2<T>(gf, _n2));
         } else {
-            this->dft_inner = new fft::CooleyTukey<T>(
-                gf, _n2, id + 1, &this->prime_factors, w2);
+            this->dft_inner.reset(new fft::CooleyTukey<T>(
+                gf, _n2, id + 1, &this->prime_factors, w2));
         }
-        this->G = new vec::Vector<T>(gf, this->n);
-        this->Y = new vec::View<T>(this->G);
-        this->X = new vec::View<T>(this->G);
+        this->G.reset(new vec::Vector<T>(gf, this->n));
+        this->Y.reset(new vec::View<T>(this->G.get()));
+        this->X.reset(new vec::View<T>(this->G.get()));
     } else
         loop = false;
 }
 
 template <typename T>
-GoodThomas<T>::~GoodThomas()
-{
-    if (dft_outer)
-        delete dft_outer;
-    if (dft_inner)
-        delete dft_inner;
-    if (X)
-        delete X;
-    if (Y)
-        delete Y;
-    if (G)
-        delete G;
-}
+GoodThomas<T>::~GoodThomas() = default;
 
 /*
  * It calculates multiplicative inverse of a number modulo mod
diff --git a/src/fft_naive.h b/src/fft_naive.h
index cf312f2..1ee53c8 100644
--- a/src/fft_naive.h
+++ b/src/fft_naive.h
@@ -31,6 +31,8 @@
 #ifndef __QUAD_FFT_NAIVE_H__
 #define __QUAD_FFT_NAIVE_H__
 
+#include <memory>
+
 #include "fft_base.h"
 #include "gf_base.h"
 #include "vec_matrix.h"
@@ -61,8 +63,8 @@ class Naive : public FourierTransform<T> {
     T w;
     T inv_w;
     size_t pkt_size;
-    vec::Matrix<T>* W;
-    vec::Matrix<T>* inv_W;
+    std::unique_ptr<vec::Matrix<T>> W;
+    std::unique_ptr<vec::Matrix<T>> inv_W;
     void compute_W(vec::Matrix<T>* _W, T _w);
     void
     _fft(vec::Vector<T>& output, vec::Vector<T>& input, vec::Matrix<T>* _W);
@@ -76,20 +78,16 @@ Naive<T>::Naive(const gf::Field<T>& gf, int n, T w, size_t pkt_size)
 {
     this->w = w;
     this->inv_w = gf.inv(w);
-    this->W = new vec::Matrix<T>(gf, this->n, this->n);
-    this->inv_W = new vec::Matrix<T>(gf, this->n, this->n);
+    this->W.reset(new vec::Matrix<T>(gf, this->n, this->n));
+    this->inv_W.reset(new vec::Matrix<T>(gf, this->n, this->n));
     this->pkt_size = pkt_size;
 
-    compute_W(W, w);
-    compute_W(inv_W, this->inv_w);
+    compute_W(W.get(), w);
+    compute_W(inv_W.get(), this->inv_w);
 }
 
 template <typename T>
-Naive<T>::~Naive()
-{
-    delete this->inv_W;
-    delete this->W;
-}
+Naive<T>::~Naive() = default;
 
 /**
  * Compute matrix
@@ -120,7 +118,7 @@ void Naive<T>::_fft(
 template <typename T>
 void Naive<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
 {
-    _fft(output, input, W);
+    _fft(output, input, W.get());
 }
 
 /*
@@ -131,13 +129,13 @@ void Naive<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
 template <typename T>
 void Naive<T>::fft_inv(vec::Vector<T>& output, vec::Vector<T>& input)
 {
-    _fft(output, input, inv_W);
+    _fft(output, input, inv_W.get());
 }
 
 template <typename T>
 void Naive<T>::ifft(vec::Vector<T>& output, vec::Vector<T>& input)
 {
-    _fft(output, input, inv_W);
+    _fft(output, input, inv_W.get());
     if (this->inv_n_mod_p > 1)
         output.mul_scalar(this->inv_n_mod_p);
 }
@@ -171,7 +169,7 @@ void Naive<T>::_fft(
 template <typename T>
 void Naive<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
 {
-    _fft(output, input, W);
+    _fft(output, input, W.get());
 }
 
 /** Perform decimation-in-frequency FFT or inverse FFT
@@ -182,7 +180,7 @@ void Naive<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
 template <typename T>
 void Naive<T>::fft_inv(vec::Buffers<T>& output, vec::Buffers<T>& input)
 {
-    _fft(output, input, inv_W);
+    _fft(output, input, inv_W.get());
 }
 template <typename T>
 void Naive<T>::ifft(vec::Buffers<T>& output, vec::Buffers<T>& input)
diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..0445623 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -32,6 +32,7 @@
 #define __QUAD_GF_BIN_EXT_H__
 
 #include <limits>
+#include <memory>
 
 #include "exceptions.h"
 #include "gf_base.h"
@@ -66,10 +67,11 @@ class BinExtension : public gf::Field<T> {
     T primitive_poly;
     T first_bit;
     T tab_nb;
-    T* gflog = nullptr;
-    T* gfilog = nullptr;
-    T*** gfsplit = nullptr; // (n/4-1)*256*256 elements
-    T* mask = nullptr;
+    std::unique_ptr<T[]> gflog = nullptr;
+    std::unique_ptr<T[]> gfilog = nullptr;
+    // (n/4-1)*256*256 elements
+    std::unique_ptr<std::unique_ptr<std::unique_ptr<T[]>[]>[]> gfsplit = nullptr;
+    std::unique_ptr<T[]> mask = nullptr;
     bool restricted = false;
     T _mul_log(T a, T b) const;
     T _mul_split(T a, T b) const;
@@ -141,7 +143,7 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
         this->restricted = true;
     }
 
-    this->mask = new T[n];
+    this->mask.reset(new T[n]);
     init_mask();
 
     this->tab_nb = n / 4 - 1;
@@ -173,24 +175,7 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
 }
 
 template <typename T>
-BinExtension<T>::~BinExtension()
-{
-    if (gflog != nullptr)
-        delete[] gflog;
-    if (gfilog != nullptr)
-        delete[] gfilog;
-    if (gfsplit != nullptr) {
-        for (T t = 0; t < tab_nb; t++) {
-            for (T i = 0; i < 256; i++) {
-                delete[] gfsplit[t][i];
-            }
-            delete[] gfsplit[t];
-        }
-        delete[] gfsplit;
-    }
-    if (mask)
-        delete[] mask;
-}
+BinExtension<T>::~BinExtension() = default;
 
 template <typename T>
 void BinExtension<T>::init()
@@ -253,8 +238,8 @@ void BinExtension<T>::setup_tables(void)
 {
     T b, log;
 
-    gflog = new T[my_card];
-    gfilog = new T[my_card];
+    gflog.reset(new T[my_card]);
+    gfilog.reset(new T[my_card]);
     b = 1;
     for (log = 0; log < my_card - 1; log++) {
         gflog[b] = log;
@@ -303,11 +288,11 @@ void BinExtension<T>::setup_split_tables(void)
     T base;
 
     // alloc
-    gfsplit = new T**[tab_nb];
+    gfsplit.reset(new std::unique_ptr<std::unique_ptr<T[]>[]>[tab_nb]);
     for (t = 0; t < tab_nb; t++) {
-        gfsplit[t] = new T*[256];
+        gfsplit[t].reset(new std::unique_ptr<T[]>[256]);
         for (i = 0; i < 256; i++) {
-            gfsplit[t][i] = new T[256];
+            gfsplit[t][i].reset(new T[256]);
         }
     }
 
diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..dbca02b 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -135,8 +135,30 @@ class Buffers final {
     simd::AlignedAllocator<T> allocator;
     BufMemAlloc mem_alloc_case = BufMemAlloc::FULL;
     T* zeros = nullptr;
+
+    void allocate_mem();
 };
 
+/**
+ * Allocate the `n` buffers of `size` elements
+ */
+template <typename T>
+void Buffers<T>::allocate_mem()
+{
+    mem.reserve(n);
+    try {
+        for (int i = 0; i < n; i++) {
+            mem.push_back(this->allocator.allocate(size));
+        }
+    } catch (...) {
+        // The destructor is not called when a constructor throws.
+        for (T* buf : mem) {
+            this->allocator.deallocate(buf, size);
+        }
+        throw;
+    }
+}
+
 /**
  * Constructor of Buffers
  *
@@ -151,10 +173,7 @@ Buffers<T>::Buffers(int n, size_t size)
     this->mem_len = n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
-    mem.reserve(n);
-    for (int i = 0; i < n; i++) {
-        mem.push_back(this->allocator.allocate(size));
-    }
+    this->allocate_mem();
 }
 
 /**
@@ -193,10 +212,7 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-    mem.reserve(n);
-    for (i = 0; i < this->n; i++) {
-        mem.push_back(this->allocator.allocate(size));
-    }
+    this->allocate_mem();
 
     int copy_len = (this->n <= vec_n) ? this->n : vec_n;
     for (i = 0; i < copy_len; i++) {
-- 
2.43.0


From efc48dbb5a8e6fbfe53a555938c0b6d17222c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 09/14] fix: C API let exceptions escape to its callers

---
 src/quadiron_c.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index ebbba60..bd0bfaa 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -36,7 +36,7 @@ extern "C" {
 
 struct QuadironFnt32*
 quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic)
-{
+try {
     const size_t pkt_size = 1024;
 
     if (word_size == 1 || word_size == 2) {
@@ -50,6 +50,9 @@ quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic)
                 pkt_size));
     }
 
+    return nullptr;
+} catch (...) {
+    // Exceptions must not reach callers written in C.
     return nullptr;
 }
 
@@ -76,7 +79,7 @@ int quadiron_fnt32_encode(
     uint8_t** parity,
     int* wanted_idxs,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
@@ -160,6 +163,9 @@ int quadiron_fnt32_encode(
     }
 
     return 0;
+} catch (...) {
+    // Exceptions must not reach callers written in C.
+    return -1;
 }
 
 int quadiron_fnt32_decode(
@@ -168,7 +174,7 @@ int quadiron_fnt32_decode(
     uint8_t** parity,
     int* missing_idxs,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
@@ -239,6 +245,9 @@ int quadiron_fnt32_decode(
     }
 
     return 0;
+} catch (...) {
+    // Exceptions must not reach callers written in C.
+    return -1;
 }
 
 int quadiron_fnt32_reconstruct(
@@ -248,7 +257,7 @@ int quadiron_fnt32_reconstruct(
     int* missing_idxs,
     unsigned int destination_idx,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data);
@@ -416,6 +425,9 @@ int quadiron_fnt32_reconstruct(
     }
 
     return 0;
+} catch (...) {
+    // Exceptions must not reach callers written in C.
+    return -1;
 }
 
 void quadiron_hex_dump(uint8_t* buf, size_t size)
-- 
2.43.0


From b9454282081e567e78d50fe247bf3565346de237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 10/14] fix: properties loader turned lines without separator
 into marks

---
 src/property.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/property.cpp b/src/property.cpp
index f11428e..03b3b49 100644
--- a/src/property.cpp
+++ b/src/property.cpp
@@ -50,6 +50,10 @@ std::istream& operator>>(std::istream& is, Properties& props)
         }
         // Extract the key.
         auto end = line.find('=', begin);
+        // Skip lines without separator (e.g. truncated ones).
+        if (end == std::string::npos) {
+            continue;
+        }
         std::string key = line.substr(begin, end - begin);
         // No leading or trailing whitespace allowed.
         key.erase(key.find_last_not_of(" \f\t\v") + 1);
-- 
2.43.0


From d385f768fe34d62e599c3eb3a5916c1b1fa89bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 11/14] fix: compute_omegas_cached trusted truncated or foreign
 cache files

---
 src/gf_ring.h | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..6d9a626 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -515,23 +515,26 @@ void RingModN<T>::compute_omegas_cached(vec::Vector<T>& W, int n, T w) const
 
     filename << "W" << w << ".cache";
 
-    if (-1 == access(filename.str().c_str(), F_OK)) {
-        std::ofstream file;
-        file.open(filename.str().c_str(), std::ios::out);
-        for (int i = 0; i < n; i++) {
-            W.set(i, this->exp(w, i));
-            file << W.get(i) << "\n";
-        }
-    } else {
-        std::ifstream file;
-        int i = 0;
-        file.open(filename.str().c_str(), std::ios::in);
-        T tmp;
-        while (file >> tmp) {
-            W.set(i, tmp);
-            i++;
-        }
-        assert(i == n);
+    // Use the cache only if it holds exactly the `n` expected powers: it may be
+    // truncated, or may come from another ring, length or (partial) write.
+    std::ifstream cache(filename.str().c_str(), std::ios::in);
+    T expected = 1;
+    T tmp;
+    int i = 0;
+    while (i < n && cache >> tmp && tmp == expected) {
+        W.set(i, tmp);
+        expected = this->mul(expected, w);
+        i++;
+    }
+    if (i == n && !(cache >> tmp) && cache.eof()) {
+        return;
+    }
+    cache.close();
+
+    std::ofstream file(filename.str().c_str(), std::ios::out);
+    for (i = 0; i < n; i++) {
+        W.set(i, this->exp(w, i));
+        file << W.get(i) << "\n";
     }
 }
 
-- 
2.43.0


From 4e867932db7901056deb9e59ef47c4ef8c594b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:23 +0000
Subject: [PATCH 12/14] fix: refuse to serialize mark locations beyond 32 bits

Properties::fnt_serialize stores a location in a 32-bit word; a larger
location was silently truncated and decoded as another one. Report an
error, as when the marks do not fit.
---
 src/property.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/property.h b/src/property.h
index fe86d99..8dcee1d 100644
--- a/src/property.h
+++ b/src/property.h
@@ -35,6 +35,7 @@
 #include <cstdint>
 #include <cstring>
 #include <iosfwd>
+#include <limits>
 #include <string>
 #include <vector>
 #include <assert.h>
@@ -106,6 +107,12 @@ class Properties {
         if ((2 + props.size()) > n_dwords) {
             return -1;
         }
+        for (auto const& item : props) {
+            // A location is stored on 32 bits.
+            if (item.first > std::numeric_limits<uint32_t>::max()) {
+                return -1;
+            }
+        }
         dwords[0] = htonl(FNT1);
         unsigned i = 2;
         for (auto const& item : props) {
-- 
2.43.0


From 3aa04d0bbb375739be2c6f19e35eb8d192aa07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 13/14] fix: stream encoders dereferenced the streams of
 outputs that are not wanted

encode_streams_horizontal and encode_streams_vertical document that entries
of output_parities_bufs are nullptr when not wanted, but wrote to every
entry.
---
 src/fec_base.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..364ee86 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -452,8 +452,10 @@ void FecCode<T>::encode_streams_horizontal(
         n_encode_ops++;
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            T tmp = output.get(i);
-            writew(tmp, output_parities_bufs[i]);
+            if (output_parities_bufs[i] != nullptr) {
+                T tmp = output.get(i);
+                writew(tmp, output_parities_bufs[i]);
+            }
         }
         offset++;
     }
@@ -534,8 +536,12 @@ void FecCode<T>::encode_streams_vertical(
             output_mem_T, output_mem_char, output_len, pkt_size, word_size);
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            write_pkt(
-                output_mem_char.at(i), *(output_parities_bufs[i]), read_bytes);
+            if (output_parities_bufs[i] != nullptr) {
+                write_pkt(
+                    output_mem_char.at(i),
+                    *(output_parities_bufs[i]),
+                    read_bytes);
+            }
         }
         offset += pkt_size;
     }
-- 
2.43.0


From 3b843561f55387d0019be0d31c97d13619450de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:56 +0000
Subject: [PATCH 14/14] fix: saved properties depended on the formatting flags
 and the locale of the stream

---
 src/property.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/property.cpp b/src/property.cpp
index 03b3b49..82745fe 100644
--- a/src/property.cpp
+++ b/src/property.cpp
@@ -76,7 +76,10 @@ std::ostream& operator<<(std::ostream& os, const Properties& props)
     const std::vector<std::pair<size_t, uint32_t>> map = props.get_map();
 
     for (auto const& item : map) {
-        os << item.first << " = " << item.second << '\n';
+        // The format must not depend on the formatting flags or the locale of
+        // the stream, or the numbers could not be read back.
+        os << std::to_string(item.first) << " = "
+           << std::to_string(item.second) << '\n';
     }
     return os;
 }
-- 
2.43.0

