From 5f1127a1f73720804dda568c56a85ec648b0afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 01/33] fix: SimdArray::shifted(amount, shiftIn) indexed
 shiftIn by the size of *this

When shiftIn has another size than *this, the function took the wrong entries
of shiftIn for negative amounts and read beyond its end for positive ones, so
the result depended on unrelated memory.
---
 Vc/common/simdarray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..81701bc 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1172,8 +1172,8 @@ public:
                 i += amount;
                 if (i >= 0) {
                     return operator[](i);
-                } else if (i >= -SSize) {
-                    return shiftIn[i + SSize];
+                } else if (i >= -static_cast<int>(NN)) {
+                    return shiftIn[i + static_cast<int>(NN)];
                 }
                 return 0;
             });
@@ -1182,7 +1182,7 @@ public:
             i += amount;
             if (i < SSize) {
                 return operator[](i);
-            } else if (i < 2 * SSize) {
+            } else if (i < SSize + static_cast<int>(NN)) {
                 return shiftIn[i - SSize];
             }
             return 0;
-- 
2.43.0


From 5a971e1f0f595bf9ad28f4c598ad9866e0de5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 02/33] fix: 16-bit gathers read beyond the gathered element

The AVX2 gather specializations for (u)short read 32 bits per element, i.e. two
bytes after every element, which faults for an element at the end of a page.
---
 Vc/avx/vector.h | 58 +++----------------------------------------------
 Vc/sse/vector.h | 48 +++-------------------------------------
 2 files changed, 6 insertions(+), 100 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..3d15293 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -224,61 +224,9 @@ public:
                     .data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx0)),
-                                      int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    *this = (simd_cast<Signed>(*this) << 8) >> 8;  // sign extend
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            const auto k0 = simd_cast<AVX2::int_m, 0>(k).data();
-            const auto k1 = simd_cast<AVX2::int_m, 1>(k).data();
-            auto v = simd_cast<Vector>(
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k0, aliasing_cast<int>(args.address), idx0)),
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k1, aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    v = (simd_cast<Signed>(v) << 8) >> 8;  // sign extend
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // There is no 8-bit or 16-bit gather instruction and the 32-bit gathers would read
+        // beyond the requested entries (i.e. possibly from inaccessible memory). Therefore
+        // 16-bit vectors use the generic implementations.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..4f7bb6c 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -176,51 +176,9 @@ template <typename T> class Vector<T, VectorAbi::Sse>
                 simd_cast<SSE::int_v>(args.indexes).data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx = simd_cast<int_v>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(
-                AVX::gather<sizeof(MT) * Scale>(aliasing_cast<int>(args.address), idx)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    d.v() = _mm_srai_epi16(_mm_slli_epi16(d.v(), 8), 8);
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            auto v = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                _mm256_setzero_si256(), simd_cast<AVX2::int_m>(k).data(),
-                aliasing_cast<int>(args.address),
-                simd_cast<int_v>(args.indexes).data())));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    v.data() = _mm_srai_epi16(_mm_slli_epi16(v.data(), 8), 8);
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // There is no 8-bit or 16-bit gather instruction and the 32-bit gathers would read
+        // beyond the requested entries (i.e. possibly from inaccessible memory). Therefore
+        // 16-bit vectors use the generic implementations.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
-- 
2.43.0


From 0615e916a045997194297035d27234ef4da6bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 03/33] fix: AVX double_v loads from 8- and 16-bit integers
 converted the wrong elements

The loads read 16 bytes and converted them as if they were four ints: the values
were wrong and up to 12 bytes beyond the elements were read.
---
 Vc/avx/detail.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..9263019 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -373,24 +373,28 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
     return AVX::convert<int, double>(load16(mem, f));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const ushort *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<ushort, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const short *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<short, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const uchar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const schar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From 13ce764a1e54e85344850e0489c7b862e9411bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 04/33] fix: interleaved reads read beyond the last structure

Deinterleaving 3 (float, int, uint, short, ushort) or 5 to 7 (short, ushort) members
loaded 4 or 8 entries from every structure, i.e. up to 10 bytes beyond the end of
the last one, which faults if that memory is not mapped.
---
 Vc/avx/detail.h | 144 +++++++++++++++++++++++++-----------------------
 Vc/sse/detail.h | 105 +++++++++++++++++++++++------------
 2 files changed, 145 insertions(+), 104 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 9263019..c160288 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1482,18 +1482,26 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const __m256i tmp0 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[0]]), *aliasing_cast<double>(&data[i[1]]),
-            *aliasing_cast<double>(&data[i[8]]), *aliasing_cast<double>(&data[i[9]])));
-        const __m256i tmp1 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[2]]), *aliasing_cast<double>(&data[i[3]]),
-            *aliasing_cast<double>(&data[i[10]]), *aliasing_cast<double>(&data[i[11]])));
-        const __m256i tmp2 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[4]]), *aliasing_cast<double>(&data[i[5]]),
-            *aliasing_cast<double>(&data[i[12]]), *aliasing_cast<double>(&data[i[13]])));
-        const __m256i tmp3 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[6]]), *aliasing_cast<double>(&data[i[7]]),
-            *aliasing_cast<double>(&data[i[14]]), *aliasing_cast<double>(&data[i[15]])));
+        const __m256i tmp0 = concat(
+            _mm_unpacklo_epi64(loadEntries(&data[i[0]], EntryCount<3>()),
+                               loadEntries(&data[i[1]], EntryCount<3>())),
+            _mm_unpacklo_epi64(loadEntries(&data[i[8]], EntryCount<3>()),
+                               loadEntries(&data[i[9]], EntryCount<3>())));
+        const __m256i tmp1 = concat(
+            _mm_unpacklo_epi64(loadEntries(&data[i[2]], EntryCount<3>()),
+                               loadEntries(&data[i[3]], EntryCount<3>())),
+            _mm_unpacklo_epi64(loadEntries(&data[i[10]], EntryCount<3>()),
+                               loadEntries(&data[i[11]], EntryCount<3>())));
+        const __m256i tmp2 = concat(
+            _mm_unpacklo_epi64(loadEntries(&data[i[4]], EntryCount<3>()),
+                               loadEntries(&data[i[5]], EntryCount<3>())),
+            _mm_unpacklo_epi64(loadEntries(&data[i[12]], EntryCount<3>()),
+                               loadEntries(&data[i[13]], EntryCount<3>())));
+        const __m256i tmp3 = concat(
+            _mm_unpacklo_epi64(loadEntries(&data[i[6]], EntryCount<3>()),
+                               loadEntries(&data[i[7]], EntryCount<3>())),
+            _mm_unpacklo_epi64(loadEntries(&data[i[14]], EntryCount<3>()),
+                               loadEntries(&data[i[15]], EntryCount<3>())));
         const __m256i tmp4 = AVX::unpacklo_epi16(tmp0, tmp2); // a0 a4 b0 b4 c0 c4 XX XX | a8 a12 b8 ...
         const __m256i tmp5 = AVX::unpackhi_epi16(tmp0, tmp2); // a1 a5 ...
         const __m256i tmp6 = AVX::unpacklo_epi16(tmp1, tmp3); // a2 a6 ...
@@ -1543,22 +1551,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadEntries(&data[i[0]], EntryCount<5>()),
+                                 loadEntries(&data[i[8]], EntryCount<5>()));
+        const __m256i b = concat(loadEntries(&data[i[1]], EntryCount<5>()),
+                                 loadEntries(&data[i[9]], EntryCount<5>()));
+        const __m256i c = concat(loadEntries(&data[i[2]], EntryCount<5>()),
+                                 loadEntries(&data[i[10]], EntryCount<5>()));
+        const __m256i d = concat(loadEntries(&data[i[3]], EntryCount<5>()),
+                                 loadEntries(&data[i[11]], EntryCount<5>()));
+        const __m256i e = concat(loadEntries(&data[i[4]], EntryCount<5>()),
+                                 loadEntries(&data[i[12]], EntryCount<5>()));
+        const __m256i f = concat(loadEntries(&data[i[5]], EntryCount<5>()),
+                                 loadEntries(&data[i[13]], EntryCount<5>()));
+        const __m256i g = concat(loadEntries(&data[i[6]], EntryCount<5>()),
+                                 loadEntries(&data[i[14]], EntryCount<5>()));
+        const __m256i h = concat(loadEntries(&data[i[7]], EntryCount<5>()),
+                                 loadEntries(&data[i[15]], EntryCount<5>()));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1586,22 +1594,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadEntries(&data[i[0]], EntryCount<6>()),
+                                 loadEntries(&data[i[8]], EntryCount<6>()));
+        const __m256i b = concat(loadEntries(&data[i[1]], EntryCount<6>()),
+                                 loadEntries(&data[i[9]], EntryCount<6>()));
+        const __m256i c = concat(loadEntries(&data[i[2]], EntryCount<6>()),
+                                 loadEntries(&data[i[10]], EntryCount<6>()));
+        const __m256i d = concat(loadEntries(&data[i[3]], EntryCount<6>()),
+                                 loadEntries(&data[i[11]], EntryCount<6>()));
+        const __m256i e = concat(loadEntries(&data[i[4]], EntryCount<6>()),
+                                 loadEntries(&data[i[12]], EntryCount<6>()));
+        const __m256i f = concat(loadEntries(&data[i[5]], EntryCount<6>()),
+                                 loadEntries(&data[i[13]], EntryCount<6>()));
+        const __m256i g = concat(loadEntries(&data[i[6]], EntryCount<6>()),
+                                 loadEntries(&data[i[14]], EntryCount<6>()));
+        const __m256i h = concat(loadEntries(&data[i[7]], EntryCount<6>()),
+                                 loadEntries(&data[i[15]], EntryCount<6>()));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1630,22 +1638,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadEntries(&data[i[0]], EntryCount<7>()),
+                                 loadEntries(&data[i[8]], EntryCount<7>()));
+        const __m256i b = concat(loadEntries(&data[i[1]], EntryCount<7>()),
+                                 loadEntries(&data[i[9]], EntryCount<7>()));
+        const __m256i c = concat(loadEntries(&data[i[2]], EntryCount<7>()),
+                                 loadEntries(&data[i[10]], EntryCount<7>()));
+        const __m256i d = concat(loadEntries(&data[i[3]], EntryCount<7>()),
+                                 loadEntries(&data[i[11]], EntryCount<7>()));
+        const __m256i e = concat(loadEntries(&data[i[4]], EntryCount<7>()),
+                                 loadEntries(&data[i[12]], EntryCount<7>()));
+        const __m256i f = concat(loadEntries(&data[i[5]], EntryCount<7>()),
+                                 loadEntries(&data[i[13]], EntryCount<7>()));
+        const __m256i g = concat(loadEntries(&data[i[6]], EntryCount<7>()),
+                                 loadEntries(&data[i[14]], EntryCount<7>()));
+        const __m256i h = concat(loadEntries(&data[i[7]], EntryCount<7>()),
+                                 loadEntries(&data[i[15]], EntryCount<7>()));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1966,14 +1974,14 @@ template<typename V> struct InterleaveImpl<V, 8, 32> {
                                     V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const m128  il0 = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]])); // a0 b0 c0 d0
-        const m128  il1 = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]])); // a1 b1 c1 d1
-        const m128  il2 = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]])); // a2 b2 c2 d2
-        const m128  il3 = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]])); // a3 b3 c3 d3
-        const m128  il4 = _mm_loadu_ps(aliasing_cast<float>(&data[i[4]])); // a4 b4 c4 d4
-        const m128  il5 = _mm_loadu_ps(aliasing_cast<float>(&data[i[5]])); // a5 b5 c5 d5
-        const m128  il6 = _mm_loadu_ps(aliasing_cast<float>(&data[i[6]])); // a6 b6 c6 d6
-        const m128  il7 = _mm_loadu_ps(aliasing_cast<float>(&data[i[7]])); // a7 b7 c7 d7
+        const m128  il0 = load3Floats(&data[i[0]]); // a0 b0 c0 d0
+        const m128  il1 = load3Floats(&data[i[1]]); // a1 b1 c1 d1
+        const m128  il2 = load3Floats(&data[i[2]]); // a2 b2 c2 d2
+        const m128  il3 = load3Floats(&data[i[3]]); // a3 b3 c3 d3
+        const m128  il4 = load3Floats(&data[i[4]]); // a4 b4 c4 d4
+        const m128  il5 = load3Floats(&data[i[5]]); // a5 b5 c5 d5
+        const m128  il6 = load3Floats(&data[i[6]]); // a6 b6 c6 d6
+        const m128  il7 = load3Floats(&data[i[7]]); // a7 b7 c7 d7
 
         const m256 il04 = concat(il0, il4);
         const m256 il15 = concat(il1, il5);
diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..94b4a04 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -818,6 +818,39 @@ static Vc_INTRINSIC Vc_CONST enable_if<(sizeof(V) == 16), V> rotated(V v, int am
 }
 
 //InterleaveImpl{{{1
+// Load the given number of entries without accessing the memory behind them. A structure may
+// be the last one in a mapped (or writable from other threads) region, so that the loads must
+// not be rounded up to the next power of two.
+template <int N> struct EntryCount {
+};
+template <typename T> Vc_INTRINSIC __m128i loadEntries(const T *mem, EntryCount<3>)
+{
+    static_assert(sizeof(T) == 2, "loadEntries expects 16-bit entries");
+    return _mm_insert_epi16(_mm_cvtsi32_si128(*aliasing_cast<int>(mem)), mem[2], 2);
+}
+template <typename T> Vc_INTRINSIC __m128i loadEntries(const T *mem, EntryCount<5>)
+{
+    static_assert(sizeof(T) == 2, "loadEntries expects 16-bit entries");
+    return _mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)), mem[4], 4);
+}
+template <typename T> Vc_INTRINSIC __m128i loadEntries(const T *mem, EntryCount<6>)
+{
+    static_assert(sizeof(T) == 2, "loadEntries expects 16-bit entries");
+    return _mm_unpacklo_epi64(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)),
+                              _mm_cvtsi32_si128(*aliasing_cast<int>(mem + 4)));
+}
+template <typename T> Vc_INTRINSIC __m128i loadEntries(const T *mem, EntryCount<7>)
+{
+    return _mm_unpacklo_epi64(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)),
+                              loadEntries(mem + 4, EntryCount<3>()));
+}
+template <typename T> Vc_INTRINSIC __m128 load3Floats(const T *mem)
+{
+    static_assert(sizeof(T) == 4, "load3Floats expects 32-bit entries");
+    return _mm_movelh_ps(_mm_castpd_ps(_mm_load_sd(aliasing_cast<double>(mem))),
+                         _mm_load_ss(aliasing_cast<float>(mem + 2)));
+}
+
 template<typename V, size_t Size, size_t VSize> struct InterleaveImpl;
 template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void interleave(typename V::EntryType *const data, const I &i,/*{{{*/
@@ -1004,14 +1037,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128i a = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadEntries(&data[i[0]], EntryCount<3>());
+        const __m128i b = loadEntries(&data[i[1]], EntryCount<3>());
+        const __m128i c = loadEntries(&data[i[2]], EntryCount<3>());
+        const __m128i d = loadEntries(&data[i[3]], EntryCount<3>());
+        const __m128i e = loadEntries(&data[i[4]], EntryCount<3>());
+        const __m128i f = loadEntries(&data[i[5]], EntryCount<3>());
+        const __m128i g = loadEntries(&data[i[6]], EntryCount<3>());
+        const __m128i h = loadEntries(&data[i[7]], EntryCount<3>());
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1057,14 +1090,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadEntries(&data[i[0]], EntryCount<5>());
+        const __m128i b = loadEntries(&data[i[1]], EntryCount<5>());
+        const __m128i c = loadEntries(&data[i[2]], EntryCount<5>());
+        const __m128i d = loadEntries(&data[i[3]], EntryCount<5>());
+        const __m128i e = loadEntries(&data[i[4]], EntryCount<5>());
+        const __m128i f = loadEntries(&data[i[5]], EntryCount<5>());
+        const __m128i g = loadEntries(&data[i[6]], EntryCount<5>());
+        const __m128i h = loadEntries(&data[i[7]], EntryCount<5>());
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1091,14 +1124,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadEntries(&data[i[0]], EntryCount<6>());
+        const __m128i b = loadEntries(&data[i[1]], EntryCount<6>());
+        const __m128i c = loadEntries(&data[i[2]], EntryCount<6>());
+        const __m128i d = loadEntries(&data[i[3]], EntryCount<6>());
+        const __m128i e = loadEntries(&data[i[4]], EntryCount<6>());
+        const __m128i f = loadEntries(&data[i[5]], EntryCount<6>());
+        const __m128i g = loadEntries(&data[i[6]], EntryCount<6>());
+        const __m128i h = loadEntries(&data[i[7]], EntryCount<6>());
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1126,14 +1159,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadEntries(&data[i[0]], EntryCount<7>());
+        const __m128i b = loadEntries(&data[i[1]], EntryCount<7>());
+        const __m128i c = loadEntries(&data[i[2]], EntryCount<7>());
+        const __m128i d = loadEntries(&data[i[3]], EntryCount<7>());
+        const __m128i e = loadEntries(&data[i[4]], EntryCount<7>());
+        const __m128i f = loadEntries(&data[i[5]], EntryCount<7>());
+        const __m128i g = loadEntries(&data[i[6]], EntryCount<7>());
+        const __m128i h = loadEntries(&data[i[7]], EntryCount<7>());
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1316,10 +1349,10 @@ template<typename V> struct InterleaveImpl<V, 4, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128 a = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]]));
-        const __m128 b = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]]));
-        const __m128 c = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]]));
-        const __m128 d = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]]));
+        const __m128 a = load3Floats(&data[i[0]]);
+        const __m128 b = load3Floats(&data[i[1]]);
+        const __m128 c = load3Floats(&data[i[2]]);
+        const __m128 d = load3Floats(&data[i[3]]);
 
         const __m128 tmp0 = _mm_unpacklo_ps(a, b); // [a0 a1 b0 b1]
         const __m128 tmp1 = _mm_unpacklo_ps(c, d); // [a2 a3 b2 b3]
-- 
2.43.0


From d3096f28abca0c281c18cfc3d86ee5b5597a3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 05/33] fix: interleaved loads of simdized std::tuple swapped
 the members

libstdc++ stores the members of a std::tuple in reverse order. simd_for_each and
load_interleaved/store_interleaved passed the first member as the last and vice versa.
---
 Vc/common/simdize.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..c2246ec 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1162,6 +1162,24 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// stored_in_order {{{
+/**\internal
+ * Returns whether the members of \p x are stored without padding in the order of their
+ * tuple indexes, as required for interleaved loads and stores. This is not the case for
+ * e.g. std::tuple in libstdc++, which stores its members in reverse order.
+ */
+template <class S, size_t... I>
+Vc_INTRINSIC bool stored_in_order(const S &x, Vc::index_sequence<I...>)
+{
+    const char *const begin = reinterpret_cast<const char *>(std::addressof(x));
+    bool r = true;
+    auto &&unused = {
+        (r = r && reinterpret_cast<const char *>(std::addressof(get_dispatcher<I>(x))) ==
+                      begin + I * homogeneous_sizeof<S>::value)...};
+    if (&unused == &unused) {}
+    return r;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1256,11 +1274,12 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::stored_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { assign(a, i, mem[i]); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                              mem);
     }
@@ -1277,11 +1296,12 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::stored_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { mem[i] = extract(a, i); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                               mem);
     }
-- 
2.43.0


From dc7a326a81b3a6467f44baa89971dacec20c7ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 06/33] fix: operator new of the SIMD types returned null
 instead of throwing bad_alloc

---
 Vc/common/macros.h  |  4 ++--
 Vc/common/malloc.h  | 11 +++++++++++
 Vc/common/simdize.h |  4 ++--
 Vc/common/types.h   |  2 ++
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Vc/common/macros.h b/Vc/common/macros.h
index ff1479f..b5ee00f 100644
--- a/Vc/common/macros.h
+++ b/Vc/common/macros.h
@@ -186,14 +186,14 @@ static Vc_INTRINSIC void unreachable() { __assume(0); }
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new(size_t size)                                     \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new(size_t, void *p) { return p; }                   \
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new[](size_t size)                                   \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new[](size_t, void *p) { return p; }                 \
diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index eec335e..f0ea30b 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -37,6 +37,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #else
 #include <cstdlib>
 #endif
+#include <new>
 
 #include "macros.h"
 
@@ -70,6 +71,16 @@ template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n
 #endif
 }
 
+// aligned_malloc for use in operator new, i.e. it never returns a null pointer
+template <std::size_t alignment> Vc_INTRINSIC void *aligned_new(std::size_t n)
+{
+    void *const ptr = aligned_malloc<alignment>(n);
+    if (ptr == nullptr) {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 template <Vc::MallocAlignment A> Vc_ALWAYS_INLINE void *malloc(size_t n)
 {
     switch (A) {
diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index c2246ec..8f8bb53 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -902,12 +902,12 @@ public:
     /// ignores by default.
     void *operator new(size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new(size_t, void *p_) { return p_; }
     void *operator new[](size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new[](size_t , void *p_) { return p_; }
     void operator delete(void *ptr_, size_t) { Vc::Common::free(ptr_); }
diff --git a/Vc/common/types.h b/Vc/common/types.h
index 50ce57d..33948fd 100644
--- a/Vc/common/types.h
+++ b/Vc/common/types.h
@@ -295,6 +295,8 @@ public:
 // declaration for functions in common/malloc.h
 template <std::size_t alignment>
 Vc_INTRINSIC_L void *aligned_malloc(std::size_t n) Vc_INTRINSIC_R;
+template <std::size_t alignment>
+Vc_INTRINSIC_L void *aligned_new(std::size_t n) Vc_INTRINSIC_R;
 Vc_ALWAYS_INLINE_L void free(void *p) Vc_ALWAYS_INLINE_R;
 
 /**\internal
-- 
2.43.0


From e4976d08e51cdbd14f2237ec2be27865dc940bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 07/33] fix: SimdArray and SimdMaskArray operator new aligned
 for a member only, not for the class

---
 Vc/common/simdarray.h     | 4 ++--
 Vc/common/simdmaskarray.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 81701bc..9b5f5a7 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -500,7 +500,7 @@ public:
     /// \internal
     Vc_INTRINSIC SimdArray(private_init_t, VectorType &&x) : data(std::move(x)) {}
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private:
     // The alignas attribute attached to the class declaration above is ignored by ICC
@@ -1461,7 +1461,7 @@ public:
     {
     }
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type0));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private: //{{{2
     // The alignas attribute attached to the class declaration above is ignored by ICC
diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index c2b6899..7ad5d3f 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -76,7 +76,7 @@ public:
     using reference = EntryReference;
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     SimdMaskArray() = default;
@@ -368,7 +368,7 @@ public:
     /// An alias for the corresponding SimdArray type.
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     ///\copydoc Mask::Mask()
-- 
2.43.0


From c4330b9a03ac2fca85159ba61e42a8f82a39acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 08/33] fix: Vc::malloc returned too little memory when the
 size computation overflowed

---
 Vc/common/malloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index f0ea30b..26962f0 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -53,6 +53,9 @@ template <size_t X> static constexpr size_t nextMultipleOf(size_t value)
 
 template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n)
 {
+    if (nextMultipleOf<alignment>(n) < n) {
+        return nullptr;  // the padded size is not representable
+    }
 #ifdef __MIC__
     return _mm_malloc(nextMultipleOf<alignment>(n), alignment);
 #elif defined(_WIN32)
@@ -146,6 +149,9 @@ Vc_ALWAYS_INLINE void free(void *p)
 template<typename T, Vc::MallocAlignment A>
 Vc_ALWAYS_INLINE T *malloc(size_t n)
 {
+    if (n > size_t(-1) / sizeof(T)) {
+        return nullptr;  // n * sizeof(T) is not representable
+    }
     return static_cast<T *>(Common::malloc<A>(n * sizeof(T)));
 }
 
-- 
2.43.0


From 30ee9d1090f4b04d192dcef35428c70be21a4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 09/33] fix: Vc::Allocator::max_size ignored the extra bytes of
 the allocation

---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From eb27705acbf806040027e99075dafc92d8773999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 10/33] fix: make_unique constructed objects at a null pointer
 and leaked when the constructor threw

---
 Vc/common/make_unique.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Vc/common/make_unique.h b/Vc/common/make_unique.h
index 709582d..b5a8aae 100644
--- a/Vc/common/make_unique.h
+++ b/Vc/common/make_unique.h
@@ -29,6 +29,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #define VC_COMMON_MAKE_UNIQUE_H_
 
 #include <memory>
+#include <new>
 #include "malloc.h"
 
 namespace Vc_VERSIONED_NAMESPACE
@@ -47,7 +48,16 @@ template<typename T> struct Deleter
 template<class T, MallocAlignment A = Vc::AlignOnVector, class... Args>
 inline std::unique_ptr<T, Deleter<T>> make_unique(Args&&... args)
 {
-    return std::unique_ptr<T, Deleter<T>>(new(Vc::malloc<T, A>(1)) T(std::forward<Args>(args)...));
+    // releases the memory if the constructor throws
+    struct FreeOnly {
+        void operator()(T *ptr) { Vc::free(ptr); }
+    };
+    std::unique_ptr<T, FreeOnly> memory(Vc::malloc<T, A>(1));
+    if (!memory) {
+        throw std::bad_alloc();
+    }
+    ::new (static_cast<void *>(memory.get())) T(std::forward<Args>(args)...);
+    return std::unique_ptr<T, Deleter<T>>(memory.release());
 }
 
 }  // namespace Common
-- 
2.43.0


From f2480f18c9b135eaeedae06416add2a9072082d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:00 +0000
Subject: [PATCH 11/33] fix: Memory::fromRawData keeps the data it wraps

---
 Vc/common/memory.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..3c09d6b 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -205,6 +205,7 @@ class Memory<V, Size, 0u, InitPadding> :
             typedef MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void> Base;
             friend class MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
+            friend class Memory<V, Size, 0u, !InitPadding>;  // fromRawData
             enum : size_t {
                 Alignment = V::MemoryAlignment,     // in Bytes
                 MaskedSize = Size & (V::Size - 1),  // the fraction of Size that exceeds
@@ -262,13 +263,15 @@ class Memory<V, Size, 0u, InitPadding> :
              */
             static Vc_ALWAYS_INLINE Vc_CONST Memory<V, Size, 0u, false> &fromRawData(EntryType *ptr)
             {
-                // DANGER! This placement new has to use the right address. If the compiler decides
-                // RowMemory requires padding before the actual data then the address has to be adjusted
+                // The data behind ptr is the value of the returned object: constructing an object
+                // at that place would start its life with undefined contents.
+                // DANGER! This has to use the right address. If the compiler decides RowMemory
+                // requires padding before the actual data then the address has to be adjusted
                 // accordingly
-                char *addr = reinterpret_cast<char *>(ptr);
                 typedef Memory<V, Size, 0u, false> MM;
+                char *addr = reinterpret_cast<char *>(ptr);
                 addr -= offsetof(MM, m_mem);
-                return *new(addr) MM;
+                return *reinterpret_cast<MM *>(addr);
             }
 
             /**
-- 
2.43.0


From c41b26f62ee8b931d2c98c4f1729ea1fc72670f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 12/33] fix: Vc::Memory of dynamic size may be empty, and
 reports failed allocations

---
 Vc/common/memory.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 3c09d6b..500f2a0 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -34,6 +34,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cstring>
 #include <cstddef>
 #include <initializer_list>
+#include <new>
 #include "memoryfwd.h"
 #include "malloc.h"
 #include "macros.h"
@@ -379,10 +380,23 @@ class Memory<V, Size, 0u, InitPadding> :
         size_t m_entriesCount;
         size_t m_vectorsCount;
         EntryType *m_mem;
-        size_t calcPaddedEntriesCount(size_t x)
+        static size_t calcVectorsCount(size_t x)
         {
-            size_t masked = x & AlignmentMask;
-            return (masked == 0 ? x : x + (Alignment - masked));
+            return x / Alignment + ((x & AlignmentMask) == 0 ? 0 : 1);
+        }
+        static EntryType *allocate(size_t vectorsCount)
+        {
+            if (vectorsCount == 0) {
+                return nullptr;
+            }
+            EntryType *const mem =
+                vectorsCount > ~size_t(0) / Alignment
+                    ? nullptr
+                    : Vc::malloc<EntryType, Vc::AlignOnVector>(vectorsCount * Alignment);
+            if (mem == nullptr) {
+                throw std::bad_alloc();
+            }
+            return mem;
         }
     public:
         using Base::vector;
@@ -396,11 +410,12 @@ class Memory<V, Size, 0u, InitPadding> :
          */
         Vc_ALWAYS_INLINE Memory(size_t size)
             : m_entriesCount(size),
-            m_vectorsCount(calcPaddedEntriesCount(m_entriesCount)),
-            m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
+            m_vectorsCount(calcVectorsCount(m_entriesCount)),
+            m_mem(allocate(m_vectorsCount))
         {
-            m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
@@ -414,7 +429,7 @@ class Memory<V, Size, 0u, InitPadding> :
         Vc_ALWAYS_INLINE Memory(const MemoryBase<V, Parent, 1, RM> &rhs)
             : m_entriesCount(rhs.entriesCount()),
             m_vectorsCount(rhs.vectorsCount()),
-            m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount * V::Size))
+            m_mem(allocate(m_vectorsCount))
         {
             Detail::copyVectors(*this, rhs);
         }
@@ -429,7 +444,7 @@ class Memory<V, Size, 0u, InitPadding> :
         Vc_ALWAYS_INLINE Memory(const Memory &rhs)
             : m_entriesCount(rhs.entriesCount()),
             m_vectorsCount(rhs.vectorsCount()),
-            m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount * V::Size))
+            m_mem(allocate(m_vectorsCount))
         {
             Detail::copyVectors(*this, rhs);
         }
-- 
2.43.0


From f22f19aceb3bf3fb7995fdfdb0ff5bea65ec865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 13/33] fix: dividing Vc::Memory objects does not divide by the
 padding

---
 Vc/common/memorybase.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 9e96e88..b166e72 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -29,6 +29,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #define VC_COMMON_MEMORYBASE_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <type_traits>
 #include <iterator>
 #include "macros.h"
@@ -366,6 +367,24 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         Parent *p() { return static_cast<Parent *>(this); }
         const Parent *p() const { return static_cast<const Parent *>(this); }
 
+        template <typename, typename, int, typename> friend class MemoryBase;
+
+        static constexpr size_t rowsOf(const MemoryDimensionBase<V, Parent, 1, RowMemory> *)
+        {
+            return 1;
+        }
+        static constexpr size_t rowsOf(const MemoryDimensionBase<V, Parent, 2, RowMemory> *)
+        {
+            return Parent::rowsCount();
+        }
+        // the number of entries in the i-th vector that are not padding
+        size_t usedEntries(size_t i) const
+        {
+            const size_t rows = rowsOf(this);
+            const size_t first = i % (vectorsCount() / rows) * V::Size;
+            return std::min<size_t>(entriesCount() / rows - first, V::Size);
+        }
+
         template <class Flags>
         using vector_reference = MayAlias<MemoryVector<V, Flags>> &;
         template <class Flags>
@@ -648,7 +667,12 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator/=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) /= rhs.vector(i);
+                V divisor = rhs.vector(i);
+                // padding does not take part in the division: normally it is zero
+                for (size_t j = std::min(usedEntries(i), rhs.usedEntries(i)); j < V::Size; ++j) {
+                    divisor[j] = EntryType(1);
+                }
+                vector(i) /= divisor;
             }
             return static_cast<Parent &>(*this);
         }
-- 
2.43.0


From 42e67cc722c47149fc564e11152fda42ac4a51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 14/33] fix: extended processor family was added in the wrong
 position

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From 35e29de45e5cd8a9121f598716df4de2c416740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 15/33] fix: L3 associativity of AMD processors was that of L2

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From ed879226199aebce5e684935e3b643be9819c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 16/33] fix: concurrent first users of CpuId saw unfinished
 identification

---
 Vc/cpuid.h    |  1 +
 src/cpuid.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Vc/cpuid.h b/Vc/cpuid.h
index 3d165a6..ba6b411 100644
--- a/Vc/cpuid.h
+++ b/Vc/cpuid.h
@@ -219,6 +219,7 @@ class CpuId
         static inline ushort prefetch() { return s_prefetch; }
 
     private:
+        static void identify();
         static void interpret(uchar byte, bool *checkLeaf4);
 
         static uint   s_ecx0;
diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index f477fed..b6497e1 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -130,11 +130,13 @@ static unsigned int CpuIdAmdAssociativityTable(int bits)
 
 void CpuId::init()
 {
-    {
-        static bool done = false;
-        if (done) return;
-        done = true;
-    }
+    // a second thread must not return before the first one has finished
+    static const bool done = (identify(), true);
+    static_cast<void>(done);
+}
+
+void CpuId::identify()
+{
     uint eax, ebx, ecx, edx;
 
     Vc_CPUID(0);
-- 
2.43.0


From 9baf8fdff5f9e8879cd5f788f553063d93a0e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 17/33] fix: extraInstructionsSupported answered 0 before
 static initialisation

---
 src/support_x86.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/support_x86.cpp b/src/support_x86.cpp
index bdc1293..648f458 100644
--- a/src/support_x86.cpp
+++ b/src/support_x86.cpp
@@ -113,6 +113,8 @@ Vc::Implementation bestImplementationSupported()
 Vc_TARGET_NO_SIMD
 unsigned int extraInstructionsSupported()
 {
+    CpuId::init();
+
     unsigned int flags = 0;
     if (CpuId::hasF16c()) flags |= Vc::Float16cInstructions;
     if (CpuId::hasFma4()) flags |= Vc::Fma4Instructions;
-- 
2.43.0


From 53b3ddfe9b55006506b65de162298202f24719b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:43 +0000
Subject: [PATCH 18/33] fix: CPUID leaves were read that the processor does not
 have

---
 src/cpuid.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index b6497e1..28b5885 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -140,6 +140,7 @@ void CpuId::identify()
     uint eax, ebx, ecx, edx;
 
     Vc_CPUID(0);
+    const uint maxLeaf = eax;
     s_ecx0 = ecx;
 
     Vc_CPUID(1);
@@ -176,17 +177,28 @@ void CpuId::identify()
     ebx >>= 8;
     s_logicalProcessors = ebx & 0xff;
 
-    Vc_CPUID_C(7, 0);
-    s_processorFeatures7B = ebx;
-    s_processorFeatures7C = ecx;
+    // what CPUID returns for a leaf the processor does not have is not about that leaf
+    if (maxLeaf >= 7) {
+        Vc_CPUID_C(7, 0);
+        s_processorFeatures7B = ebx;
+        s_processorFeatures7C = ecx;
+    }
+
+    Vc_CPUID(0x80000000);
+    const uint maxExtendedLeaf = (eax & 0xffff0000) == 0x80000000 ? eax : 0;
 
-    Vc_CPUID(0x80000001);
-    s_processorFeatures8C = ecx;
-    s_processorFeatures8D = edx;
+    if (maxExtendedLeaf >= 0x80000001) {
+        Vc_CPUID(0x80000001);
+        s_processorFeatures8C = ecx;
+        s_processorFeatures8D = edx;
+    }
 
     if (isAmd()) {
         s_prefetch = cacheLineSize();
 
+        if (maxExtendedLeaf < 0x80000005) {
+            return;
+        }
         Vc_CPUID(0x80000005);
         s_L1DataLineSize = ecx & 0xff;
         s_L1Data = (ecx >> 24) * 1024;
@@ -194,6 +206,9 @@ void CpuId::identify()
         s_L1InstructionLineSize = edx & 0xff;
         s_L1Instruction = (edx >> 24) * 1024;
 
+        if (maxExtendedLeaf < 0x80000006) {
+            return;
+        }
         Vc_CPUID(0x80000006);
         s_L2DataLineSize = ecx & 0xff;
         s_L2Data = (ecx >> 16) * 1024;
@@ -205,6 +220,9 @@ void CpuId::identify()
     }
 
     // Intel only
+    if (maxLeaf < 2) {
+        return;
+    }
     int repeat = 0;
     bool checkLeaf4 = false;
     do {
@@ -242,7 +260,7 @@ void CpuId::identify()
             }
         }
     } while (--repeat > 0);
-    if (checkLeaf4) {
+    if (checkLeaf4 && maxLeaf >= 4) {
         s_prefetch = cacheLineSize();
         if (s_prefetch == 0) {
             s_prefetch = 64;
-- 
2.43.0


From fb057df48e5fa114683d52077a7c8a5f268c4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:43 +0000
Subject: [PATCH 19/33] fix: FMA, FMA4, XOP and F16C were reported without OS
 support for AVX state

---
 src/support_x86.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/support_x86.cpp b/src/support_x86.cpp
index 648f458..6582fa4 100644
--- a/src/support_x86.cpp
+++ b/src/support_x86.cpp
@@ -116,14 +116,17 @@ unsigned int extraInstructionsSupported()
     CpuId::init();
 
     unsigned int flags = 0;
-    if (CpuId::hasF16c()) flags |= Vc::Float16cInstructions;
-    if (CpuId::hasFma4()) flags |= Vc::Fma4Instructions;
-    if (CpuId::hasXop ()) flags |= Vc::XopInstructions;
+    // these work on the registers that the OS has to save
+    if (CpuId::hasOsxsave() && CpuId::hasAvx() && xgetbvCheck(0x6)) {
+        flags |= Vc::VexInstructions;
+        if (CpuId::hasF16c()) flags |= Vc::Float16cInstructions;
+        if (CpuId::hasFma4()) flags |= Vc::Fma4Instructions;
+        if (CpuId::hasXop ()) flags |= Vc::XopInstructions;
+        if (CpuId::hasFma ()) flags |= Vc::FmaInstructions;
+    }
     if (CpuId::hasPopcnt()) flags |= Vc::PopcntInstructions;
     if (CpuId::hasSse4a()) flags |= Vc::Sse4aInstructions;
-    if (CpuId::hasFma ()) flags |= Vc::FmaInstructions;
     if (CpuId::hasBmi2()) flags |= Vc::Bmi2Instructions;
-    if (CpuId::hasOsxsave() && CpuId::hasAvx() && xgetbvCheck(0x6)) flags |= Vc::VexInstructions;
     //if (CpuId::hasPclmulqdq()) flags |= Vc::PclmulqdqInstructions;
     //if (CpuId::hasAes()) flags |= Vc::AesInstructions;
     //if (CpuId::hasRdrand()) flags |= Vc::RdrandInstructions;
-- 
2.43.0


From 7858b05da1d649bef3abc4dc6ced3515b9a03846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:43 +0000
Subject: [PATCH 20/33] fix: cache descriptor 0x30 is an instruction cache

---
 src/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 28b5885..d4d53fd 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -400,8 +400,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         s_L1Associativity = 8;
         break;
     case 0x40:
-- 
2.43.0


From 00ee35cbdfcf57b3339faf33f626a88c3207ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 21/33] fix: CurrentImplementation did not say that it needs
 F16C

---
 Vc/global.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/global.h b/Vc/global.h
index d19dc45..9b823d1 100644
--- a/Vc/global.h
+++ b/Vc/global.h
@@ -605,6 +605,9 @@ using CurrentImplementation = ImplementationT<
 #endif
 #endif
 #endif
+#ifdef Vc_IMPL_F16C
+    + Vc::Float16cInstructions
+#endif
 #ifdef Vc_IMPL_POPCNT
     + Vc::PopcntInstructions
 #endif
-- 
2.43.0


From b6447ef1e4091b223fe70e99a0cc7d645495ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 22/33] fix: documented output of Memory did not match what is
 printed

---
 Vc/IO | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/IO b/Vc/IO
index d9020e5..f7c858d 100644
--- a/Vc/IO
+++ b/Vc/IO
@@ -189,7 +189,7 @@ namespace Common
  * \endcode
  * will output (with SSE):
 \verbatim
-{[0, 1, 2, 3] [4, 5, 6, 7] [8, 9, 0, 0]}
+{[0, 1, 2, 3][4, 5, 6, 7][8, 9, 0, 0]}
 \endverbatim
  *
  * \param s Any standard C++ ostream object. For example std::cout or a std::stringstream object.
-- 
2.43.0


From d4284f01afb7f24e71d8e55b8302f791355cc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 23/33] fix: a scalar double_v::Random truncated the state that
 it shares with vectors

---
 Vc/scalar/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/scalar/vector.tcc b/Vc/scalar/vector.tcc
index 5acbd2a..b1129ce 100644
--- a/Vc/scalar/vector.tcc
+++ b/Vc/scalar/vector.tcc
@@ -166,10 +166,10 @@ template<> Vc_INTRINSIC Scalar::double_v Scalar::double_v::Random()
 {
     typedef unsigned long long uint64 Vc_MAY_ALIAS;
     uint64 state0 = *reinterpret_cast<const uint64 *>(&Common::RandomState[8]);
-    state0 = (state0 * 0x5deece66dull + 11) & 0x000fffffffffffffull;
+    state0 = state0 * 0x5deece66dull + 11;
     *reinterpret_cast<uint64 *>(&Common::RandomState[8]) = state0;
     union { unsigned long long i; double f; } x;
-    x.i = state0 | 0x3ff0000000000000ull;
+    x.i = (state0 & 0x000fffffffffffffull) | 0x3ff0000000000000ull;
     return Scalar::double_v(x.f - 1.);
 }
 // isnegative {{{1
-- 
2.43.0


From 4c6d92bd0ca0f3b2b55837136d7569fadf965cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 24/33] fix: Mask::generate calls the generator in lane order

---
 Vc/avx/mask.tcc | 58 +++++++++++++++++++++++++++++++++++++------------
 Vc/sse/mask.tcc | 32 ++++++++++++++++++++-------
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/Vc/avx/mask.tcc b/Vc/avx/mask.tcc
index 29631ad..ed3f05b 100644
--- a/Vc/avx/mask.tcc
+++ b/Vc/avx/mask.tcc
@@ -110,32 +110,62 @@ template <typename T> Vc_INTRINSIC bool Mask<T, VectorAbi::Avx>::isMix() const {
 }
 
 // generate {{{1
+// The generator is called before the intrinsic: the order of evaluation of function
+// arguments is unspecified, but the calls must happen in lane order.
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 4 + 32>)
 {
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    const bool b2 = gen(2) ? true : false;
+    const bool b3 = gen(3) ? true : false;
     return _mm256_setr_epi64x(
-        gen(0) ? 0xffffffffffffffffull : 0, gen(1) ? 0xffffffffffffffffull : 0,
-        gen(2) ? 0xffffffffffffffffull : 0, gen(3) ? 0xffffffffffffffffull : 0);
+        b0 ? 0xffffffffffffffffull : 0, b1 ? 0xffffffffffffffffull : 0,
+        b2 ? 0xffffffffffffffffull : 0, b3 ? 0xffffffffffffffffull : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 8 + 32>)
 {
-    return _mm256_setr_epi32(gen(0) ? 0xfffffffful : 0, gen(1) ? 0xfffffffful : 0,
-                             gen(2) ? 0xfffffffful : 0, gen(3) ? 0xfffffffful : 0,
-                             gen(4) ? 0xfffffffful : 0, gen(5) ? 0xfffffffful : 0,
-                             gen(6) ? 0xfffffffful : 0, gen(7) ? 0xfffffffful : 0);
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    const bool b2 = gen(2) ? true : false;
+    const bool b3 = gen(3) ? true : false;
+    const bool b4 = gen(4) ? true : false;
+    const bool b5 = gen(5) ? true : false;
+    const bool b6 = gen(6) ? true : false;
+    const bool b7 = gen(7) ? true : false;
+    return _mm256_setr_epi32(b0 ? 0xfffffffful : 0, b1 ? 0xfffffffful : 0,
+                             b2 ? 0xfffffffful : 0, b3 ? 0xfffffffful : 0,
+                             b4 ? 0xfffffffful : 0, b5 ? 0xfffffffful : 0,
+                             b6 ? 0xfffffffful : 0, b7 ? 0xfffffffful : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 16 + 32>)
 {
-    return _mm256_setr_epi16(gen(0) ? 0xfffful : 0, gen(1) ? 0xfffful : 0,
-                             gen(2) ? 0xfffful : 0, gen(3) ? 0xfffful : 0,
-                             gen(4) ? 0xfffful : 0, gen(5) ? 0xfffful : 0,
-                             gen(6) ? 0xfffful : 0, gen(7) ? 0xfffful : 0,
-                             gen(8) ? 0xfffful : 0, gen(9) ? 0xfffful : 0,
-                             gen(10) ? 0xfffful : 0, gen(11) ? 0xfffful : 0,
-                             gen(12) ? 0xfffful : 0, gen(13) ? 0xfffful : 0,
-                             gen(14) ? 0xfffful : 0, gen(15) ? 0xfffful : 0);
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    const bool b2 = gen(2) ? true : false;
+    const bool b3 = gen(3) ? true : false;
+    const bool b4 = gen(4) ? true : false;
+    const bool b5 = gen(5) ? true : false;
+    const bool b6 = gen(6) ? true : false;
+    const bool b7 = gen(7) ? true : false;
+    const bool b8 = gen(8) ? true : false;
+    const bool b9 = gen(9) ? true : false;
+    const bool b10 = gen(10) ? true : false;
+    const bool b11 = gen(11) ? true : false;
+    const bool b12 = gen(12) ? true : false;
+    const bool b13 = gen(13) ? true : false;
+    const bool b14 = gen(14) ? true : false;
+    const bool b15 = gen(15) ? true : false;
+    return _mm256_setr_epi16(b0 ? 0xfffful : 0, b1 ? 0xfffful : 0,
+                             b2 ? 0xfffful : 0, b3 ? 0xfffful : 0,
+                             b4 ? 0xfffful : 0, b5 ? 0xfffful : 0,
+                             b6 ? 0xfffful : 0, b7 ? 0xfffful : 0,
+                             b8 ? 0xfffful : 0, b9 ? 0xfffful : 0,
+                             b10 ? 0xfffful : 0, b11 ? 0xfffful : 0,
+                             b12 ? 0xfffful : 0, b13 ? 0xfffful : 0,
+                             b14 ? 0xfffful : 0, b15 ? 0xfffful : 0);
 }
 template <typename T>
 template <typename G>
diff --git a/Vc/sse/mask.tcc b/Vc/sse/mask.tcc
index efcf150..cbb0054 100644
--- a/Vc/sse/mask.tcc
+++ b/Vc/sse/mask.tcc
@@ -231,25 +231,41 @@ template<typename T> Vc_ALWAYS_INLINE Vc_PURE int Mask<T, VectorAbi::Sse>::first
 }
 
 // generate {{{1
+// The generator is called before the intrinsic: the order of evaluation of function
+// arguments is unspecified, but the calls must happen in lane order.
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 2>)
 {
-    return _mm_set_epi64x(gen(1) ? 0xffffffffffffffffull : 0,
-                          gen(0) ? 0xffffffffffffffffull : 0);
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    return _mm_set_epi64x(b1 ? 0xffffffffffffffffull : 0,
+                          b0 ? 0xffffffffffffffffull : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 4>)
 {
-    return _mm_setr_epi32(gen(0) ? 0xfffffffful : 0, gen(1) ? 0xfffffffful : 0,
-                          gen(2) ? 0xfffffffful : 0, gen(3) ? 0xfffffffful : 0);
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    const bool b2 = gen(2) ? true : false;
+    const bool b3 = gen(3) ? true : false;
+    return _mm_setr_epi32(b0 ? 0xfffffffful : 0, b1 ? 0xfffffffful : 0,
+                          b2 ? 0xfffffffful : 0, b3 ? 0xfffffffful : 0);
 }
 template <typename M, typename G>
 Vc_INTRINSIC M generate_impl(G &&gen, std::integral_constant<int, 8>)
 {
-    return _mm_setr_epi16(gen(0) ? 0xffffu : 0, gen(1) ? 0xffffu : 0,
-                          gen(2) ? 0xffffu : 0, gen(3) ? 0xffffu : 0,
-                          gen(4) ? 0xffffu : 0, gen(5) ? 0xffffu : 0,
-                          gen(6) ? 0xffffu : 0, gen(7) ? 0xffffu : 0);
+    const bool b0 = gen(0) ? true : false;
+    const bool b1 = gen(1) ? true : false;
+    const bool b2 = gen(2) ? true : false;
+    const bool b3 = gen(3) ? true : false;
+    const bool b4 = gen(4) ? true : false;
+    const bool b5 = gen(5) ? true : false;
+    const bool b6 = gen(6) ? true : false;
+    const bool b7 = gen(7) ? true : false;
+    return _mm_setr_epi16(b0 ? 0xffffu : 0, b1 ? 0xffffu : 0,
+                          b2 ? 0xffffu : 0, b3 ? 0xffffu : 0,
+                          b4 ? 0xffffu : 0, b5 ? 0xffffu : 0,
+                          b6 ? 0xffffu : 0, b7 ? 0xffffu : 0);
 }
 template <typename T>
 template <typename G>
-- 
2.43.0


From 285ba36176b72b74c867f929b5c7807bc8aa3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 25/33] fix: callWithValuesSorted passes the values in
 ascending order

---
 Vc/avx/vector.h | 7 ++++---
 Vc/sse/vector.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index 3d15293..4c71dd1 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -384,11 +384,12 @@ public:
 
         template <typename F> void callWithValuesSorted(F &&f)
         {
-            EntryType value = d.m(0);
+            const Vector s = sorted();
+            EntryType value = s.d.m(0);
             f(value);
             for (size_t i = 1; i < Size; ++i) {
-                if (d.m(i) != value) {
-                    value = d.m(i);
+                if (s.d.m(i) != value) {
+                    value = s.d.m(i);
                     f(value);
                 }
             }
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 4f7bb6c..c006460 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -321,11 +321,12 @@ template <typename T> class Vector<T, VectorAbi::Sse>
 
         template <typename F> void callWithValuesSorted(F &&f)
         {
-            EntryType value = d.m(0);
+            const Vector s = sorted();
+            EntryType value = s.d.m(0);
             f(value);
             for (std::size_t i = 1; i < Size; ++i) {
-                if (d.m(i) != value) {
-                    value = d.m(i);
+                if (s.d.m(i) != value) {
+                    value = s.d.m(i);
                     f(value);
                 }
             }
-- 
2.43.0


From c4b2abddbc564c7e03c112d94fef94ff6e1f6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 26/33] fix: iteration over where(mask) with 32 or more lanes

---
 Vc/common/iterators.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 071482a..867d977 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -234,11 +234,28 @@ cend(const T &v)
     return {v, int(T::size())};
 }
 
-template<typename M> Vc_ALWAYS_INLINE BitmaskIterator begin(const WhereImpl::WhereMask<M> &w)
+template <typename M>
+Vc_ALWAYS_INLINE enable_if<(M::Size < 32), BitmaskIterator> begin(
+    const WhereImpl::WhereMask<M> &w)
 {
     return w.mask.toInt();
 }
 
+// toInt cannot represent these masks: with 32 lanes the last lane is the sign bit (which
+// extends into all higher bits of BitmaskIterator::mask), beyond that the lanes do not fit.
+template <typename M>
+Vc_ALWAYS_INLINE enable_if<(M::Size >= 32), BitmaskIterator> begin(
+    const WhereImpl::WhereMask<M> &w)
+{
+    static_assert(M::Size <= sizeof(size_t) * 8,
+                  "Iteration over where(mask) is not supported for masks of this size.");
+    size_t bits = 0;
+    for (size_t i = 0; i < M::Size; ++i) {
+        bits |= size_t(bool(w.mask[i]) ? 1 : 0) << i;
+    }
+    return bits;
+}
+
 template<typename M> Vc_ALWAYS_INLINE BitmaskIterator end(const WhereImpl::WhereMask<M> &)
 {
     return 0;
-- 
2.43.0


From 93eb15a6e97aa10347856d85b4b9792ff70cc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 27/33] fix: makeContainer of an empty initializer list

The loop bound size - 1 wraps for an empty list, which made the loop write
vectors through the end iterator of an empty container without end.
---
 Vc/common/makeContainer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..51b86fc 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -54,11 +54,11 @@ namespace Vc_VERSIONED_NAMESPACE
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-                for (std::size_t i = 0; i < size - 1; ++i) {
+                for (std::size_t i = 1; i < size; ++i) {
                     *containerIt++ = V(init, Vc::Unaligned);
                     init += V::Size;
                 }
-                Vc_ASSERT(all_of(*containerIt == V::Zero()));
+                Vc_ASSERT(size == 0 || all_of(*containerIt == V::Zero()));
                 int j = 0;
                 while (init != initEnd) {
                     (*containerIt)[j++] = *init++;
@@ -90,11 +90,11 @@ namespace Vc_VERSIONED_NAMESPACE
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-                for (std::size_t i = 0; i < size - 1; ++i) {
+                for (std::size_t i = 1; i < size; ++i) {
                     *containerIt++ = V(init, Vc::Unaligned);
                     init += V::Size;
                 }
-                Vc_ASSERT(all_of(*containerIt == V::Zero()));
+                Vc_ASSERT(size == 0 || all_of(*containerIt == V::Zero()));
                 int j = 0;
                 while (init != initEnd) {
                     (*containerIt)[j++] = *init++;
-- 
2.43.0


From 0f11fea1947485f49ad4094feba8018d2bebb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 28/33] fix: assignment to a subscripted simdize iterator wrote
 through a dangling reference

---
 Vc/common/simdize.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 8f8bb53..1383465 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1499,13 +1499,13 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of
+    /// the iterator for write back in the assignment operator. (A reference to the
+    /// iterator would dangle if the Reference outlives it, as in Iterator::operator[].)
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From c0dc4aa56c00a944ddbbd582bab2fe86388bb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 29/33] fix: iterators of std::deque and reverse iterators were
 taken to be contiguous

---
 Vc/common/algorithms.h             | 20 ++++++++++++++------
 Vc/traits/has_contiguous_storage.h | 12 ++++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index 3ad27c6..108c592 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -72,8 +72,10 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::Size + 1;
-    for (; first < lastV; first += V::Size) {
+    // iterators of non-contiguous storage cannot load more than one entry at a time
+    for (; Traits::has_contiguous_storage<InputIt>::value &&
+           last - first >= std::ptrdiff_t(V::size());
+         first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -95,8 +97,10 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::size() + 1;
-    for (; first < lastV; first += V::size()) {
+    // iterators of non-contiguous storage cannot load more than one entry at a time
+    for (; Traits::has_contiguous_storage<InputIt>::value &&
+           last - first >= std::ptrdiff_t(V::size());
+         first += V::size()) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -123,7 +127,9 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typename std::make_signed<size_t>::type len = count;
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
+    // iterators of non-contiguous storage cannot load more than one entry at a time
+    for (; Traits::has_contiguous_storage<InputIt>::value && len >= int(V::size());
+         len -= V::Size, first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -146,7 +152,9 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typename std::make_signed<size_t>::type len = count;
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
+    // iterators of non-contiguous storage cannot load more than one entry at a time
+    for (; Traits::has_contiguous_storage<InputIt>::value && len >= int(V::size());
+         len -= V::Size, first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
diff --git a/Vc/traits/has_contiguous_storage.h b/Vc/traits/has_contiguous_storage.h
index 6c16f54..9e88225 100644
--- a/Vc/traits/has_contiguous_storage.h
+++ b/Vc/traits/has_contiguous_storage.h
@@ -43,6 +43,8 @@ template <typename T, size_t N> class array;
 template <typename T, size_t N> struct array;
 #endif
 template <typename T, typename Allocator> class vector;
+template <typename T, typename Allocator> class deque;
+template <typename It> class reverse_iterator;
 #ifdef _LIBCPP_END_NAMESPACE_STD
 _LIBCPP_END_NAMESPACE_STD
 #else
@@ -63,10 +65,12 @@ std::is_base_of<std::random_access_iterator_tag,
 test(int);
 
 // case 2: T is an iterator type
+#if (!defined __GLIBCXX__ || defined _GLIBCXX_DEBUG) && !defined _LIBCPP_VERSION
 template <typename T>
 std::is_base_of<std::random_access_iterator_tag,
                 typename std::iterator_traits<T>::iterator_category>
 test(long);
+#endif  // otherwise only the iterators specialized below have contiguous storage
 
 // case 3: everything else
 template <typename T> std::false_type test(...);
@@ -92,6 +96,14 @@ template <typename T> struct has_contiguous_storage_impl<std::initializer_list<T
 template <typename T, std::size_t N> struct has_contiguous_storage_impl<T[N]> : public std::true_type {};
 template <typename T, std::size_t N> struct has_contiguous_storage_impl<std::array<T, N>> : public std::true_type {};
 template <typename T, typename A> struct has_contiguous_storage_impl<std::vector<T, A>> : public std::true_type {};
+template <typename T, typename A> struct has_contiguous_storage_impl<std::deque<T, A>> : public std::false_type {};
+template <typename It> struct has_contiguous_storage_impl<std::reverse_iterator<It>> : public std::false_type {};
+#if defined __GLIBCXX__
+// the iterator type of std::vector and std::basic_string
+template <typename It, typename C> struct has_contiguous_storage_impl<__gnu_cxx::__normal_iterator<It, C>> : public has_contiguous_storage_impl<It> {};
+#elif defined _LIBCPP_VERSION
+template <typename It> struct has_contiguous_storage_impl<std::__wrap_iter<It>> : public has_contiguous_storage_impl<It> {};
+#endif
 
 }  // namespace Traits
 }  // namespace Vc
-- 
2.43.0


From bd06dd00edeb2a2679e9cff323f17bc6116875c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 30/33] fix: cpuid leaf 2 descriptors 0x1D and 0x24, AMD
 associativity 3-way and 6-way

Both L2 cache descriptors were reported as unknown, which left the L2 size
and associativity at 0, and so did the two associativity codes of the
extended cache leaf.
---
 src/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index d4d53fd..79569fe 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -115,7 +115,9 @@ static unsigned int CpuIdAmdAssociativityTable(int bits)
     case 0x0: return 0;
     case 0x1: return 1;
     case 0x2: return 2;
+    case 0x3: return 3;
     case 0x4: return 4;
+    case 0x5: return 6;
     case 0x6: return 8;
     case 0x8: return 16;
     case 0xA: return 32;
@@ -369,6 +371,11 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1DataLineSize = 64;
         s_L1Associativity = 6;
         break;
+    case 0x1D:
+        s_L2Data = 128 * 1024;
+        s_L2DataLineSize = 64;
+        s_L2Associativity = 2;
+        break;
     case 0x21:
         s_L2Data = 256 * 1024;
         s_L2DataLineSize = 64;
@@ -384,6 +391,11 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L3DataLineSize = 64;
         s_L3Associativity = 8;
         break;
+    case 0x24:
+        s_L2Data = 1024 * 1024;
+        s_L2DataLineSize = 64;
+        s_L2Associativity = 16;
+        break;
     case 0x25:
         s_L3Data = 2 * 1024 * 1024;
         s_L3DataLineSize = 64;
-- 
2.43.0


From cdca8ada06431252b97563b6fbc2b78d094dbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 31/33] fix: subscripting an iterator over SIMD vector lanes is
 relative to the iterator

it[n] returned entry n of the vector instead of *(it + n).
---
 Vc/common/iterators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 867d977..563d76b 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -55,7 +55,7 @@ public:
     using difference_type = int;
     using reference = value_type;
     Vc_ALWAYS_INLINE reference operator*() const { return v()[i()]; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i2]; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i() + i2]; }
 
 private:
     Vc_INTRINSIC V &v() const { return *static_cast<const Iterator<V> *>(this)->v; }
@@ -73,7 +73,7 @@ public:
     using difference_type = int;
     using reference = Vc::Detail::ElementReference<V, IteratorBase>;
     Vc_ALWAYS_INLINE reference operator*() const { return {*v(), i()}; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i2}; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i() + i2}; }
 
 private:
     Vc_INTRINSIC V *v() const { return static_cast<const Iterator<V> *>(this)->v; }
-- 
2.43.0


From 493a4777f4edd1e19a9013f9e7685d796c093e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 32/33] fix: transpose returned references to its own
 parameters

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..8b18f2c 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,7 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From da21cf563dd94775d0020e70f253a793167e2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 33/33] fix: MemoryBase::operator=(U&&) lacked its return
 statement

Assigning a value to all vectors through the base class ran off the end of a
function that returns a reference, which is undefined behaviour (an endless loop
with gcc -O2).
---
 Vc/common/memorybase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index b166e72..f813767 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -622,6 +622,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
             for (size_t i = 0; i < vectorsCount(); ++i) {
                 vector(i) = std::forward<U>(x);
             }
+            return static_cast<Parent &>(*this);
         }
 
         /**
-- 
2.43.0

