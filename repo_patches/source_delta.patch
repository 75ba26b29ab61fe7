From 0018602d216747f0c649f8c89bf42691b8d1c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 01/60] fix: PyFast_FromInt built corrupt ints for negative
 values and values of more than one digit

---
 pyfastutil/src/utils/PythonUtils.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..51df10e 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -147,11 +147,7 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From da0d0b353535751c151528abc51466454db219f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 02/60] fix: PyFast_AsShort and PyFast_AsChar ignored the sign
 of ints since Python 3.12

---
 pyfastutil/src/utils/PythonUtils.h | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 51df10e..bb5faa6 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -124,26 +124,12 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
-static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (short) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (short) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
+    return (short) PyLong_AsLong(obj);
 }
 
-static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (char) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (char) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline char PyFast_AsChar(PyObject *obj) noexcept {
+    return (char) PyLong_AsLong(obj);
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-- 
2.43.0


From 5290bf0e64ab3a82514728309c95ab68a3652fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 03/60] fix: from_range mistook an explicit argument equal to
 PY_SSIZE_T_MAX for a missing one

---
 pyfastutil/src/utils/PythonUtils.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index bb5faa6..2c2aecc 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -63,22 +63,18 @@ static __forceinline T *Py_CreateObjNoInit(PyTypeObject &typeObj) noexcept {
  */
 static __forceinline bool PyParse_EvalRange(PyObject *&args,
                                             Py_ssize_t &start, Py_ssize_t &stop, Py_ssize_t &step) noexcept {
-    Py_ssize_t arg1 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg2 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg3 = PY_SSIZE_T_MAX;
+    Py_ssize_t arg1 = 0;
+    Py_ssize_t arg2 = 0;
+    Py_ssize_t arg3 = 1;
 
     if (!PyArg_ParseTuple(args, "n|nn", &arg1, &arg2, &arg3)) {
         return false;
     }
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    if (PyTuple_GET_SIZE(args) == 1) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
-        start = arg1;
-        stop = arg2;
-        step = 1;
     } else if (arg3 != 0) {
         start = arg1;
         stop = arg2;
-- 
2.43.0


From 7a39255b46f7f0da632164c00d3dc6440ed5e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 04/60] fix: int array sort lost and corrupted elements of
 lists of 8 or more (broken SIMD network and merge)

---
 pyfastutil/src/PyFastUtil.cpp             |   3 -
 pyfastutil/src/utils/simd/BitonicSort.cpp | 595 +---------------------
 pyfastutil/src/utils/simd/BitonicSort.h   |   2 -
 3 files changed, 2 insertions(+), 598 deletions(-)

diff --git a/pyfastutil/src/PyFastUtil.cpp b/pyfastutil/src/PyFastUtil.cpp
index 8677f81..dec25f6 100644
--- a/pyfastutil/src/PyFastUtil.cpp
+++ b/pyfastutil/src/PyFastUtil.cpp
@@ -3,7 +3,6 @@
 //
 
 #include "PyFastUtil.h"
-#include "utils/simd/BitonicSort.h"
 #include "ints/IntArrayList.h"
 #include "ints/IntArrayListIter.h"
 #include "ints/BigIntArrayList.h"
@@ -32,8 +31,6 @@ static struct PyModuleDef pyfastutilModule = {
 #pragma ide diagnostic ignored "bugprone-reserved-identifier"
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit___pyfastutil() {
-    simd::initBitonicSort();
-
     PyObject *parent = PyModule_Create(&pyfastutilModule);
     if (parent == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..5090ae7 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -6,448 +6,12 @@
 #include <vector>
 #include <algorithm>
 
-#if !defined(__arm__) && !defined(__arm64__)
-
-#include <immintrin.h>
-#include "utils/simd/SIMDUtils.h"
-
-#endif
-
-#include <utils/PythonPCH.h>
-#include "SIMDHelper.h"
 #include "utils/include/TimSort.h"
 #include "utils/memory/AlignedAllocator.h"
-#include "utils/memory/PreFetch.h"
-
-template<typename T>
-concept IntOrLongLong = std::same_as<T, int> || std::same_as<T, long long>;
 
 namespace simd {
-#if !defined(__arm__) && !defined(__arm64__)
-    struct alignas(32) AVX2_MARKS {
-        alignas(32) const __m256i M1 = _mm256_set_epi32(7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(32) const __m256i M2 = _mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(32) const __m256i M3 = _mm256_set_epi32(5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(32) const __m256i M4 = _mm256_set_epi32(3, 2, 1, 0, 7, 6, 5, 4);
-    };
-    struct alignas(64) AVX512_MARKS {
-        alignas(64) const __m512i M1 = _mm512_set_epi32(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(64) const __m512i M2 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(64) const __m512i M3 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12);
-    };
-
-    static AVX2_MARKS *avx2Marks = nullptr;
-    static AVX512_MARKS *avx512Marks = nullptr;
-#endif
-
-    void initBitonicSort() {
-#if !defined(__arm__) && !defined(__arm64__)
-        if (IS_AVX2_SUPPORTED && avx2Marks == nullptr) {
-            avx2Marks = new AVX2_MARKS();
-        }
-        if (IS_AVX512_SUPPORTED && avx512Marks == nullptr) {
-            avx512Marks = new AVX512_MARKS();
-        }
-#endif
-    }
-
-#pragma clang diagnostic push
-#pragma ide diagnostic ignored "portability-simd-intrinsics"
-#pragma ide diagnostic ignored "NullDereference"
-#if !defined(__arm__) && !defined(__arm64__)
-
-    __forceinline void sort8Epi32AVX2(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 8 nums with avx2 reversed
-     */
-    __forceinline void sort8Epi32AVX2Reversed(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_max_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512Reversed(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-    }
-
-    [[maybe_unused]] __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &src,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_INTS;
-                i += AVX512_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_INTS;
-                i += AVX2_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_INTS;
-                i += SSE41_INTS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_LONG_LONGS;
-                i += AVX512_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_LONG_LONGS;
-                i += AVX2_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_LONG_LONGS;
-                i += SSE41_LONG_LONGS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<int, AlignedAllocator<int, 64>> &src,
-                          std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_INTS;
-            j += AVX512_INTS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_INTS;
-            j += AVX2_INTS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_INTS;
-            j += SSE41_INTS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_LONG_LONGS;
-            j += AVX512_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_LONG_LONGS;
-            j += AVX2_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_LONG_LONGS;
-            j += SSE41_LONG_LONGS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
     /**
-     * Merge sorted blocks with SIMD optimization, or fallback
-     * make sure aligned
-     */
-    template<IntOrLongLong T>
-    __forceinline void mergeSortedBlocks(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMerge(left, mid, right, data, temp);
-                } else {
-                    doSingleMerge(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-    /**
-     * Merge sorted blocks with SIMD optimization reversed, or fallback
-     */
-    template<IntOrLongLong T>
-    __forceinline void
-    mergeSortedBlocksReversed(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMergeReversed(left, mid, right, data, temp);
-                } else {
-                    doSingleMergeReversed(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-#endif
-#pragma clang diagnostic pop
-
-    /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort the vector
      * @param vector vector to sort
      */
     void simdsort(std::vector<int, AlignedAllocator<int, 64>> &vector, bool reverse) {
@@ -466,7 +30,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -480,87 +43,10 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_INTS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_INTS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_INTS <= size; sortedCount += AVX512_INTS) {
-                if (size - sortedCount > AVX512_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_INT);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_INTS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_INTS <= size; sortedCount += AVX2_INTS) {
-                if (size - sortedCount > AVX2_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_INT);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 
     /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort the vector
      * @param vector vector to sort
      */
     void simdsort(std::vector<long long, AlignedAllocator<long long, 64>> &vector, bool reverse) {
@@ -579,7 +65,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -593,81 +78,5 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_LONG_LONGS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_LONG_LONGS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_LONG_LONGS <= size; sortedCount += AVX512_LONG_LONGS) {
-                if (size - sortedCount > AVX512_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_LONG_LONG);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_LONG_LONGS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_LONG_LONGS <= size; sortedCount += AVX2_LONG_LONGS) {
-                if (size - sortedCount > AVX2_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_LONG_LONG);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 }
diff --git a/pyfastutil/src/utils/simd/BitonicSort.h b/pyfastutil/src/utils/simd/BitonicSort.h
index 398a0e6..13c3fa9 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.h
+++ b/pyfastutil/src/utils/simd/BitonicSort.h
@@ -11,8 +11,6 @@
 
 namespace simd {
 
-    void initBitonicSort();
-
     void simdsort(std::vector<int, AlignedAllocator<int, 64>> &vector, bool reverse);
 
     void simdsort(std::vector<long long, AlignedAllocator<long long, 64>> &vector, bool reverse);
-- 
2.43.0


From 6edf63c5c46fe88c767da2975a563c61d2e9b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 05/60] fix: IntArrayList and BigIntArrayList construction
 masked errors, leaked on re-init and truncated ints

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 57 +++++++++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp    | 59 ++++++++++++++++---------
 pyfastutil/src/utils/PythonUtils.h      | 13 ++++++
 3 files changed, 88 insertions(+), 41 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..10f06a4 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,32 +20,49 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *BigIntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(PyType_GenericNew(type, args, kwargs));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    self->vector.clear();
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
 
     // init vector
     try {
@@ -55,24 +72,25 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &BigIntArrayListType) {  // BigIntArrayList is a final class
-                auto *iter = reinterpret_cast<BigIntArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<BigIntArrayList *>(pyIterable);
+                self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
+                // converting an item may run code which changes the source
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    long long value = PyLong_AsLongLong(item);
+                    SAFE_DECREF(item);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
@@ -81,28 +99,27 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 long long value = PyLong_AsLongLong(item);
+                SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     SAFE_DECREF(iter);
-                    SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
                 self->vector.push_back(value);
-                SAFE_DECREF(item);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1236,7 +1253,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..56facea 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,32 +20,49 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *IntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntArrayList *>(PyType_GenericNew(type, args, kwargs));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    self->vector.clear();
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
 
     // init vector
     try {
@@ -55,24 +72,25 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntArrayListType) {  // IntArrayList is a final class
-                auto *iter = reinterpret_cast<IntArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<IntArrayList *>(pyIterable);
+                self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                // converting an item may run code which changes the source
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyParse_AsInt(item);
+                    SAFE_DECREF(item);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
@@ -81,28 +99,27 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
+                int value = PyParse_AsInt(item);
+                SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     SAFE_DECREF(iter);
-                    SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
                 self->vector.push_back(value);
-                SAFE_DECREF(item);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1234,7 +1251,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2c2aecc..7787d8d 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -120,6 +120,19 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
+/**
+ * Convert any int-like object to a C int.
+ * If the value does not fit, raises OverflowError and returns -1.
+ */
+[[maybe_unused]] static __forceinline int PyParse_AsInt(PyObject *obj) noexcept {
+    const long value = PyLong_AsLong(obj);
+    if (UNLIKELY(value > INT_MAX || value < INT_MIN)) {
+        PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C int");
+        return -1;
+    }
+    return static_cast<int>(value);
+}
+
 static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
     return (short) PyLong_AsLong(obj);
 }
-- 
2.43.0


From 41fb23de92c352c08d7205b115a59fb451181c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 06/60] fix: IntArrayList truncated ints outside the C int
 range; item assignment used a stale size; 'in' raised for huge ints

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 17 ++++++++++------
 pyfastutil/src/ints/IntArrayList.cpp    | 27 +++++++++++++++----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 10f06a4..217604c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -587,6 +587,14 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    long long value = 0;
+    if (pyValue != nullptr) {
+        value = PyLong_AsLongLong(pyValue);
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -601,11 +609,6 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            long long value = PyLong_AsLongLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -891,7 +894,9 @@ static int BigIntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     long long value = PyLong_AsLongLong(key);
     if (PyErr_Occurred()) {
-        return -1;
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) return -1;
+        PyErr_Clear();  // no element can be equal to it
+        return 0;
     }
 
     try {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 56facea..7f023a0 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -238,7 +238,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
 static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyParse_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -395,7 +395,7 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyParse_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -442,7 +442,7 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyParse_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -585,6 +585,14 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        value = PyParse_AsInt(pyValue);
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -599,11 +607,6 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            int value = PyLong_AsLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -887,13 +890,15 @@ static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    long value = PyLong_AsLong(key);
+    long long value = PyLong_AsLongLong(key);
     if (PyErr_Occurred()) {
-        return -1;
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) return -1;
+        PyErr_Clear();  // no element can be equal to it
+        return 0;
     }
 
     try {
-        if (std::find(self->vector.begin(), self->vector.end(), static_cast<int>(value)) != self->vector.end()) {
+        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
             return 1;  // true
         } else {
             return 0;  // false
-- 
2.43.0


From 5bce0ecf12a5b73d9ad27959f2b946d23e824f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 07/60] fix: from_range of the int arrays dropped the last
 element of negative steps, overflowed and truncated

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 17 ++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp    | 25 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 217604c..36abd95 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -140,33 +140,32 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
     }
 
     auto *list = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
-    if (list == nullptr) return PyErr_NoMemory();
+    if (list == nullptr) return nullptr;
 
     try {
-        Py_ssize_t elements;
+        size_t elements;  // unsigned: the distance may not fit in Py_ssize_t
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<long long>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 7f023a0..4f9529d 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -140,33 +140,40 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
     }
 
     auto *list = Py_CreateObj<IntArrayList>(IntArrayListType);
-    if (list == nullptr) return PyErr_NoMemory();
+    if (list == nullptr) return nullptr;
 
     try {
-        Py_ssize_t elements;
+        size_t elements;  // unsigned: the distance may not fit in Py_ssize_t
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
+        }
+
+        const auto last = static_cast<Py_ssize_t>(
+                static_cast<size_t>(start) + (elements - 1) * static_cast<size_t>(step));
+        if (std::min(start, last) < INT_MIN || std::max(start, last) > INT_MAX) {
+            SAFE_DECREF(list);
+            PyErr_SetString(PyExc_OverflowError, "range does not fit in C int");
+            return nullptr;
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<int>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From 8b32ba94ceb05dee2f60743f44c0a648a3dd6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 08/60] fix: int arrays: extending by itself, +, +=, *=,
 repetition and pop with a re-entrant index were wrong or unsafe

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 184 ++++++++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp    | 186 +++++++++++++++---------
 2 files changed, 239 insertions(+), 131 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 36abd95..ce02824 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -226,7 +226,7 @@ static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -264,9 +264,18 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // both may be the same list
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -276,24 +285,35 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -309,20 +329,23 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run code which changes the list
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
-
         if (index < 0) {
             index += vecSize;
         }
@@ -335,16 +358,18 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
+        PyObject *popped = PyLong_FromLongLong(self->vector.back());
+        if (popped == nullptr) return nullptr;
         self->vector.pop_back();
 
-        return PyLong_FromLongLong(popped);
+        return popped;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) return nullptr;
     self->vector.erase(self->vector.begin() + index);
 
-    return PyLong_FromLongLong(popped);
+    return popped;
 }
 
 static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
@@ -723,14 +748,17 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &BigIntArrayListType) {
         // fast add -> BigIntArrayList
+        auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -760,10 +788,20 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        try {
+            // both may be the same list
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
@@ -772,24 +810,35 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -815,19 +864,23 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            // only the first block is sure to be aligned
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -861,19 +914,22 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->vector.clear();
-        } else {
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                // only the first block is sure to be aligned
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -921,9 +977,7 @@ static PyObject *BigIntArrayList_reversed(PyObject *pySelf) {
 static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 4f9529d..6cd50b3 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -234,7 +234,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -272,9 +272,18 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // both may be the same list
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -284,24 +293,35 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyParse_AsInt(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -317,27 +337,31 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    Py_ssize_t index = -1;
+    if (nargs == 1) {
+        // may run code which changes the list
+        index = PyNumber_AsSsize_t(args[0], PyExc_IndexError);
+        if (index == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
-    Py_ssize_t index = vecSize - 1;
 
-    int popped;
+    PyObject *popped;
     switch (nargs) {
         case 0:
-            popped = self->vector.back();
+            popped = PyFast_FromInt(self->vector.back());
+            if (popped == nullptr) return nullptr;
             self->vector.pop_back();
 
-            return PyFast_FromInt(popped);
+            return popped;
         case 1:
-            index = PyLong_AsSsize_t(args[0]);
-            if (index == -1 && PyErr_Occurred()) {
-                return nullptr;
-            }
-
             if (index < 0) {
                 index += vecSize;
             }
@@ -347,10 +371,11 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
-            popped = self->vector[static_cast<size_t>(index)];
+            popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
+            if (popped == nullptr) return nullptr;
             self->vector.erase(self->vector.begin() + index);
 
-            return PyFast_FromInt(popped);
+            return popped;
         default:
             PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
             return nullptr;
@@ -729,14 +754,17 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &IntArrayListType) {
         // fast add -> IntArrayList
+        auto *self = reinterpret_cast<IntArrayList *>(pySelf);
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -766,10 +794,20 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        try {
+            // both may be the same list
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
@@ -778,24 +816,35 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyParse_AsInt(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -821,19 +870,23 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            // only the first block is sure to be aligned
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -867,19 +920,22 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->vector.clear();
-        } else {
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                // only the first block is sure to be aligned
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -927,9 +983,7 @@ static PyObject *IntArrayList_reversed(PyObject *pySelf) {
 static PyObject *IntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 54b43c57c186effeb8a9217f959520c20eac8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 09/60] fix: sort of the int arrays ignored failing keys,
 crashed when the key changed the list and let other threads in

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 35 ++++++++++++++++++-------
 pyfastutil/src/ints/IntArrayList.cpp    | 35 ++++++++++++++++++-------
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index ce02824..e7aef89 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -492,7 +492,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
@@ -501,14 +501,10 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     // do sort
     try {
         if (keyFunc == Py_None) {
-            // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -516,17 +512,38 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyLong_FromLongLong(vecData[i]);
+                pyData[i] = PyLong_FromLongLong(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *sorted = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            const bool success = sorted != nullptr;
+            Py_XDECREF(sorted);
 
+            // the key function may have changed the list
+            const bool modified = self->vector.size() != vecSize;
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
+                if (success && !modified) {
+                    self->vector[i] = PyLong_AsLongLong(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (!success) {
+                return nullptr;
+            }
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 6cd50b3..d2b0052 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -503,7 +503,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
@@ -512,14 +512,10 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     // do sort
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
-            // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -527,17 +523,38 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyFast_FromInt(vecData[i]);
+                pyData[i] = PyFast_FromInt(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *sorted = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            const bool success = sorted != nullptr;
+            Py_XDECREF(sorted);
 
+            // the key function may have changed the list
+            const bool modified = self->vector.size() != vecSize;
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
+                if (success && !modified) {
+                    self->vector[i] = PyFast_AsInt(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+
+            if (!success) {
+                return nullptr;
+            }
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 27aa2e81200a00a2547d3fd54ab2c7d24c2a7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 10/60] fix: slice assignment and deletion of the int arrays:
 crash on del, on non-slices, on aliases; partial assignments; no iterables

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 116 +++++++++++------------
 pyfastutil/src/ints/IntArrayList.cpp    | 118 ++++++++++++------------
 2 files changed, 113 insertions(+), 121 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e7aef89..181da7f 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -602,6 +602,10 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
     }
@@ -672,93 +676,85 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (value == nullptr) {  // delete
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (sliceLength == 0) {
+            return 0;
+        }
 
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
+        if (step < 0) {
+            start += step * (sliceLength - 1);
+            step = -step;
+        }
 
-    Py_ssize_t newLength = PySequence_Size(value);
+        const auto size = static_cast<Py_ssize_t>(self->vector.size());
+        Py_ssize_t kept = start;
+        for (Py_ssize_t i = start; i < size; i++) {
+            if ((i - start) % step != 0 || (i - start) / step >= sliceLength) {
+                self->vector[static_cast<size_t>(kept)] = self->vector[static_cast<size_t>(i)];
+                kept++;
+            }
+        }
+        self->vector.resize(static_cast<size_t>(kept));
+        return 0;
+    }
 
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // converting the new elements may change the list or the source
+    PyObject *items = PySequence_Fast(value, "can only assign an iterable");
+    if (items == nullptr) {
+        return -1;
+    }
+
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        std::vector<long long> newValues;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(items); i++) {
+            item = PySequence_Fast_GET_ITEM(items, i);
+            Py_INCREF(item);
+            newValues.push_back(PyLong_AsLongLong(item));
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(items);
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        const auto newLength = static_cast<Py_ssize_t>(newValues.size());
 
+        if (newLength < sliceLength) {  // less elements
             self->vector.erase(
                     self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                    self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.insert(
+                    self->vector.begin() + start + sliceLength,
+                    static_cast<size_t>(newLength - sliceLength), 0
+            );
         }
+        std::copy(newValues.begin(), newValues.end(), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        Py_XDECREF(item);
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(items);
     return 0;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index d2b0052..5ad1089 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -608,6 +608,10 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
     }
@@ -678,93 +682,85 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (value == nullptr) {  // delete
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (sliceLength == 0) {
+            return 0;
+        }
 
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
+        if (step < 0) {
+            start += step * (sliceLength - 1);
+            step = -step;
+        }
 
-    Py_ssize_t newLength = PySequence_Size(value);
+        const auto size = static_cast<Py_ssize_t>(self->vector.size());
+        Py_ssize_t kept = start;
+        for (Py_ssize_t i = start; i < size; i++) {
+            if ((i - start) % step != 0 || (i - start) / step >= sliceLength) {
+                self->vector[static_cast<size_t>(kept)] = self->vector[static_cast<size_t>(i)];
+                kept++;
+            }
+        }
+        self->vector.resize(static_cast<size_t>(kept));
+        return 0;
+    }
 
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // converting the new elements may change the list or the source
+    PyObject *items = PySequence_Fast(value, "can only assign an iterable");
+    if (items == nullptr) {
+        return -1;
+    }
+
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        std::vector<int> newValues;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(items); i++) {
+            item = PySequence_Fast_GET_ITEM(items, i);
+            Py_INCREF(item);
+            newValues.push_back(PyParse_AsInt(item));
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(items);
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        const auto newLength = static_cast<Py_ssize_t>(newValues.size());
 
+        if (newLength < sliceLength) {  // less elements
             self->vector.erase(
-                self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
+                    self->vector.begin() + start + newLength,
+                    self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.insert(
+                    self->vector.begin() + start + sliceLength,
+                    static_cast<size_t>(newLength - sliceLength), 0
+            );
         }
+        std::copy(newValues.begin(), newValues.end(), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        Py_XDECREF(item);
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(items);
     return 0;
 }
 
-- 
2.43.0


From 2bc00690e3852906d461f0f239301e7696ad04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 11/60] fix: int array comparisons truncated large ints,
 crashed on failing sequences and swallowed errors

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 64 +++++++++++++++++--------
 pyfastutil/src/ints/IntArrayList.cpp    | 64 +++++++++++++++++--------
 pyfastutil/src/utils/PythonUtils.h      | 16 +++++++
 3 files changed, 106 insertions(+), 38 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 181da7f..7a0ad22 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1020,20 +1020,25 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        const int order = PyFast_CompareInt(self->vector[i], item);
         SAFE_DECREF(item);
-        if (self_value != other_value)
+        if (order == -2) {  // can't be converted to int
+            if (!PyErr_ExceptionMatches(PyExc_TypeError)) return nullptr;
+            PyErr_Clear();
+            Py_RETURN_FALSE;
+        }
+        if (order != 0)
             Py_RETURN_FALSE;
     }
 
@@ -1042,6 +1047,7 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -1070,15 +1076,20 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order < 0)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
 }
@@ -1102,15 +1113,20 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order <= 0)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
 }
@@ -1134,15 +1150,20 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order > 0)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
 }
@@ -1166,15 +1187,20 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order >= 0)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
 }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5ad1089..df9646c 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1026,20 +1026,25 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        const int order = PyFast_CompareInt(self->vector[i], item);
         SAFE_DECREF(item);
-        if (self_value != other_value)
+        if (order == -2) {  // can't be converted to int
+            if (!PyErr_ExceptionMatches(PyExc_TypeError)) return nullptr;
+            PyErr_Clear();
+            Py_RETURN_FALSE;
+        }
+        if (order != 0)
             Py_RETURN_FALSE;
     }
 
@@ -1048,6 +1053,7 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -1076,15 +1082,20 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order < 0)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
 }
@@ -1108,15 +1119,20 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order <= 0)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
 }
@@ -1140,15 +1156,20 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order > 0)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
 }
@@ -1172,15 +1193,20 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // changed by the other sequence
+            SAFE_DECREF(item);
+            break;
+        }
+        const int order = PyFast_CompareInt(self->vector[i], item);
+        SAFE_DECREF(item);
+        if (order == -2) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order >= 0)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
 }
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 7787d8d..d726017 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -133,6 +133,22 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
     return static_cast<int>(value);
 }
 
+/**
+ * Compare a C integer with any int-like object, of any magnitude.
+ * @return -1, 0 or 1 if value is smaller, equal or greater; -2 with an exception set if object is not int-like.
+ */
+[[maybe_unused]] static __forceinline int PyFast_CompareInt(const long long value, PyObject *object) noexcept {
+    int overflow;
+    const long long other = PyLong_AsLongLongAndOverflow(object, &overflow);
+    if (overflow != 0) {
+        return -overflow;
+    }
+    if (other == -1 && PyErr_Occurred()) {
+        return -2;
+    }
+    return value < other ? -1 : (value > other ? 1 : 0);
+}
+
 static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
     return (short) PyLong_AsLong(obj);
 }
-- 
2.43.0


From 9aa75c9c897d27ddbb17cd0fbce8c73063e9419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 12/60] fix: buffers of the int arrays did not keep the array
 alive and dangled when it was resized

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 65 ++++++++++++++++++++-----
 pyfastutil/src/ints/BigIntArrayList.h   |  2 +
 pyfastutil/src/ints/IntArrayList.cpp    | 65 ++++++++++++++++++++-----
 pyfastutil/src/ints/IntArrayList.h      |  2 +
 4 files changed, 110 insertions(+), 24 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7a0ad22..e98b3b1 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -43,6 +43,14 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+static __forceinline bool ensureResizable(BigIntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *BigIntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(PyType_GenericNew(type, args, kwargs));
     if (self == nullptr) return nullptr;
@@ -59,6 +67,8 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
         return -1;
     }
 
+    if (!ensureResizable(self)) return -1;
+
     self->vector.clear();
     PyObject *fastKeys = nullptr;
     PyObject *iter = nullptr;
@@ -89,7 +99,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     Py_INCREF(item);
                     long long value = PyLong_AsLongLong(item);
                     SAFE_DECREF(item);
-                    if (PyErr_Occurred()) {
+                    if (PyErr_Occurred() || !ensureResizable(self)) {
                         SAFE_DECREF(fastKeys);
                         return -1;
                     }
@@ -107,7 +117,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             while ((item = PyIter_Next(iter)) != nullptr) {
                 long long value = PyLong_AsLongLong(item);
                 SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
+                if (PyErr_Occurred() || !ensureResizable(self)) {
                     SAFE_DECREF(iter);
                     return -1;
                 }
@@ -187,6 +197,8 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (static_cast<size_t>(pySSize) != self->vector.size() && !ensureResizable(self)) return nullptr;
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -242,6 +254,8 @@ static PyObject *BigIntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!ensureResizable(self)) return nullptr;
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -270,6 +284,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             // both may be the same list
             const auto selfSize = self->vector.size();
             const auto iterSize = iter->vector.size();
+            if (iterSize > 0 && !ensureResizable(self)) return nullptr;
             self->vector.resize(selfSize + iterSize);
             std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
         } catch (const std::exception &e) {
@@ -293,7 +308,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     try {
         // pre alloc
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -303,7 +318,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             long long value = PyLong_AsLongLong(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !ensureResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -358,6 +373,7 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
+        if (!ensureResizable(self)) return nullptr;
         PyObject *popped = PyLong_FromLongLong(self->vector.back());
         if (popped == nullptr) return nullptr;
         self->vector.pop_back();
@@ -365,6 +381,7 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return popped;
     }
 
+    if (!ensureResizable(self)) return nullptr;
     PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
     if (popped == nullptr) return nullptr;
     self->vector.erase(self->vector.begin() + index);
@@ -449,6 +466,8 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!ensureResizable(self)) return nullptr;
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -472,6 +491,7 @@ static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!ensureResizable(self)) return nullptr;
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -652,6 +672,7 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
+            if (!ensureResizable(self)) return -1;
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -689,6 +710,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         if (sliceLength == 0) {
             return 0;
         }
+        if (!ensureResizable(self)) return -1;
 
         if (step < 0) {
             start += step * (sliceLength - 1);
@@ -734,6 +756,10 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
         const auto newLength = static_cast<Py_ssize_t>(newValues.size());
+        if (newLength != sliceLength && !ensureResizable(self)) {
+            SAFE_DECREF(items);
+            return -1;
+        }
 
         if (newLength < sliceLength) {  // less elements
             self->vector.erase(
@@ -807,6 +833,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             // both may be the same list
             const auto selfSize = self->vector.size();
             const auto iterSize = iter->vector.size();
+            if (iterSize > 0 && !ensureResizable(self)) return nullptr;
             self->vector.resize(selfSize + iterSize);
             std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
         } catch (const std::exception &e) {
@@ -831,7 +858,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
 
     try {
         // pre alloc
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -841,7 +868,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             long long value = PyLong_AsLongLong(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !ensureResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -924,6 +951,8 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !ensureResizable(self)) return nullptr;
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -997,6 +1026,8 @@ static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
 static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !ensureResizable(self)) return nullptr;
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1266,25 +1297,35 @@ static PyObject *BigIntArrayList_str(PyObject *pySelf) {
     return BigIntArrayList_repr(pySelf);
 }
 
-static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("q");
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("q") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
     view->itemsize = sizeof(long long);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) == PyBUF_ND ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
+    self->exports++;
 
     return 0;
 }
 
+static void BigIntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<BigIntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef BigIntArrayList_methods[] = {
         {"from_range", (PyCFunction) BigIntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) BigIntArrayList_resize, METH_O},
@@ -1337,7 +1378,7 @@ static PyMappingMethods BigIntArrayList_asMapping = {
 
 static PyBufferProcs BigIntArrayList_asBuffer = {
         BigIntArrayList_get_buffer,
-        nullptr
+        BigIntArrayList_release_buffer
 };
 
 void initializeBigIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/BigIntArrayList.h b/pyfastutil/src/ints/BigIntArrayList.h
index 8a018c3..93053fa 100644
--- a/pyfastutil/src/ints/BigIntArrayList.h
+++ b/pyfastutil/src/ints/BigIntArrayList.h
@@ -15,6 +15,8 @@ typedef struct BigIntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<long long, AlignedAllocator<long long, 64>> vector;
     Py_ssize_t shape = 0;
+    // number of exported buffers, the vector must not be resized while there are any
+    Py_ssize_t exports = 0;
 } BigIntArrayList;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index df9646c..e521282 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -43,6 +43,14 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+static __forceinline bool ensureResizable(IntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *IntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
     auto *self = reinterpret_cast<IntArrayList *>(PyType_GenericNew(type, args, kwargs));
     if (self == nullptr) return nullptr;
@@ -59,6 +67,8 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
         return -1;
     }
 
+    if (!ensureResizable(self)) return -1;
+
     self->vector.clear();
     PyObject *fastKeys = nullptr;
     PyObject *iter = nullptr;
@@ -89,7 +99,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     Py_INCREF(item);
                     int value = PyParse_AsInt(item);
                     SAFE_DECREF(item);
-                    if (PyErr_Occurred()) {
+                    if (PyErr_Occurred() || !ensureResizable(self)) {
                         SAFE_DECREF(fastKeys);
                         return -1;
                     }
@@ -107,7 +117,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
             while ((item = PyIter_Next(iter)) != nullptr) {
                 int value = PyParse_AsInt(item);
                 SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
+                if (PyErr_Occurred() || !ensureResizable(self)) {
                     SAFE_DECREF(iter);
                     return -1;
                 }
@@ -195,6 +205,8 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (static_cast<size_t>(pySSize) != self->vector.size() && !ensureResizable(self)) return nullptr;
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -250,6 +262,8 @@ static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!ensureResizable(self)) return nullptr;
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -278,6 +292,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             // both may be the same list
             const auto selfSize = self->vector.size();
             const auto iterSize = iter->vector.size();
+            if (iterSize > 0 && !ensureResizable(self)) return nullptr;
             self->vector.resize(selfSize + iterSize);
             std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
         } catch (const std::exception &e) {
@@ -301,7 +316,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     try {
         // pre alloc
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -311,7 +326,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             int value = PyParse_AsInt(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !ensureResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -356,6 +371,7 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
     PyObject *popped;
     switch (nargs) {
         case 0:
+            if (!ensureResizable(self)) return nullptr;
             popped = PyFast_FromInt(self->vector.back());
             if (popped == nullptr) return nullptr;
             self->vector.pop_back();
@@ -371,6 +387,7 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
+            if (!ensureResizable(self)) return nullptr;
             popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
             if (popped == nullptr) return nullptr;
             self->vector.erase(self->vector.begin() + index);
@@ -460,6 +477,8 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!ensureResizable(self)) return nullptr;
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -483,6 +502,7 @@ static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!ensureResizable(self)) return nullptr;
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -658,6 +678,7 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     try {
         if (pyValue == nullptr) {
+            if (!ensureResizable(self)) return -1;
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -695,6 +716,7 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         if (sliceLength == 0) {
             return 0;
         }
+        if (!ensureResizable(self)) return -1;
 
         if (step < 0) {
             start += step * (sliceLength - 1);
@@ -740,6 +762,10 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
         const auto newLength = static_cast<Py_ssize_t>(newValues.size());
+        if (newLength != sliceLength && !ensureResizable(self)) {
+            SAFE_DECREF(items);
+            return -1;
+        }
 
         if (newLength < sliceLength) {  // less elements
             self->vector.erase(
@@ -813,6 +839,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             // both may be the same list
             const auto selfSize = self->vector.size();
             const auto iterSize = iter->vector.size();
+            if (iterSize > 0 && !ensureResizable(self)) return nullptr;
             self->vector.resize(selfSize + iterSize);
             std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + selfSize);
         } catch (const std::exception &e) {
@@ -837,7 +864,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
 
     try {
         // pre alloc
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -847,7 +874,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             int value = PyParse_AsInt(item);
             SAFE_DECREF(item);
 
-            if (PyErr_Occurred()) {
+            if (PyErr_Occurred() || !ensureResizable(self)) {
                 SAFE_DECREF(iter);
                 return nullptr;
             }
@@ -930,6 +957,8 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (n != 1 && !self->vector.empty() && !ensureResizable(self)) return nullptr;
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -1003,6 +1032,8 @@ static PyObject *IntArrayList_reverse(PyObject *pySelf) {
 static PyObject *IntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!self->vector.empty() && !ensureResizable(self)) return nullptr;
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1272,25 +1303,35 @@ static PyObject *IntArrayList_str(PyObject *pySelf) {
     return IntArrayList_repr(pySelf);
 }
 
-static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("i");
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("i") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
     view->itemsize = sizeof(int);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) == PyBUF_ND ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
+    self->exports++;
 
     return 0;
 }
 
+static void IntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<IntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef IntArrayList_methods[] = {
         {"from_range", (PyCFunction) IntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) IntArrayList_resize, METH_O},
@@ -1343,7 +1384,7 @@ static PyMappingMethods IntArrayList_asMapping = {
 
 static PyBufferProcs IntArrayList_asBuffer = {
         IntArrayList_get_buffer,
-        nullptr
+        IntArrayList_release_buffer
 };
 
 void initializeIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/IntArrayList.h b/pyfastutil/src/ints/IntArrayList.h
index 24d5598..7d8692e 100644
--- a/pyfastutil/src/ints/IntArrayList.h
+++ b/pyfastutil/src/ints/IntArrayList.h
@@ -15,6 +15,8 @@ typedef struct IntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<int, AlignedAllocator<int, 64>> vector;
     Py_ssize_t shape = 0;
+    // number of exported buffers, the vector must not be resized while there are any
+    Py_ssize_t exports = 0;
 } IntArrayList;
 }
 
-- 
2.43.0


From fb4f100d7c32830256906b4897e7b706bcba3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 13/60] fix: array iterators read out of bounds after a shrink,
 revived after exhaustion, and reversed() of an empty list misbehaved

---
 pyfastutil/src/ints/BigIntArrayListIter.cpp    | 17 ++++-------------
 pyfastutil/src/ints/IntArrayListIter.cpp       | 17 ++++-------------
 pyfastutil/src/objects/ObjectArrayListIter.cpp | 17 ++++-------------
 3 files changed, 12 insertions(+), 39 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..736766e 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
 static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay exhausted, even if the container grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,10 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyLong_FromLongLong(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         long long element = self->container->vector[self->index];
         self->index--;
         return PyLong_FromLongLong(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         long long element = self->container->vector[self->index];
         self->index++;
         return PyLong_FromLongLong(element);
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..62e8ec8 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void IntArrayListIter_dealloc(IntArrayListIter *self) {
 static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay exhausted, even if the container grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,10 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         int element = self->container->vector[self->index];
         self->index--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         int element = self->container->vector[self->index];
         self->index++;
         return PyFast_FromInt(element);
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..49eff10 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
 static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay exhausted, even if the container grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -49,22 +51,11 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         PyObject *element = self->container->vector[self->index];
         self->index--;
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         PyObject *element = self->container->vector[self->index];
         self->index++;
         Py_INCREF(element);
-- 
2.43.0


From 506aa9bfe03f9ed24e30a5afe3395cba00bd71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 14/60] fix: ObjectArrayList construction took no references
 from another ObjectArrayList, leaked on re-init and masked errors

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 61 +++++++++++++++++-----
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..9b35dec 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,32 +20,61 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) {
+            return false;
+        }
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+/**
+ * Release items which are no longer in any list. May run any code.
+ */
+static __forceinline void releaseItems(const std::vector<PyObject *> &items) {
+    for (PyObject *item: items) {
+        Py_DECREF(item);
+    }
+}
+
+static PyObject *ObjectArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(PyType_GenericNew(type, args, kwargs));
+    if (self == nullptr) return nullptr;
+
     new(&self->vector) std::vector<PyObject *>();
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    std::vector<PyObject *> oldItems;
+    oldItems.swap(self->vector);
+    releaseItems(oldItems);
+
+    PyObject *fastIter = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
 
     // init vector
     try {
@@ -55,13 +84,16 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
-                auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<ObjectArrayList *>(pyIterable);
+                self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
+                for (const auto &newItem: self->vector) {
+                    Py_INCREF(newItem);
+                }
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
+                fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
                 if (fastIter == nullptr) {
                     return -1;
                 }
@@ -69,23 +101,21 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
+                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
                 SAFE_DECREF(fastIter);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->vector.push_back(item);
             }
@@ -93,6 +123,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastIter);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1195,7 +1228,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From c0566e86644f681e053f998f2bb11b66181f9ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 15/60] fix: ObjectArrayList: extending by itself, +, +=, *=,
 clear and resize corrupted reference counts, looped forever or returned None

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 146 ++++++++++++++-------
 1 file changed, 97 insertions(+), 49 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 9b35dec..669a5ea 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -157,7 +157,12 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
+        std::vector<PyObject *> removed;
+        if (newSize < self->vector.size()) {
+            removed.assign(self->vector.begin() + pySSize, self->vector.end());
+        }
         self->vector.resize(newSize, Py_None);
+        releaseItems(removed);
         // No need to call Py_INCREF on Py_None or other constant objects
         // because, the reference count operations on global singleton objects
         // like None, True, and False have been optimized to be no-ops.
@@ -204,7 +209,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -231,6 +236,19 @@ static PyObject *ObjectArrayList_append(PyObject *pySelf, PyObject *object) {
     Py_RETURN_NONE;
 }
 
+/**
+ * Append all items of another list, which may be the list itself
+ */
+static __forceinline void extendFast(ObjectArrayList *self, ObjectArrayList *other) {
+    const auto selfSize = self->vector.size();
+    const auto otherSize = other->vector.size();
+    self->vector.resize(selfSize + otherSize);
+    for (size_t i = 0; i < otherSize; ++i) {
+        Py_INCREF(other->vector[i]);
+        self->vector[selfSize + i] = other->vector[i];
+    }
+}
+
 static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -243,11 +261,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
+        try {
+            extendFast(self, reinterpret_cast<ObjectArrayList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
         Py_RETURN_NONE;
     }
@@ -255,7 +274,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -268,21 +292,28 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->vector.push_back(item);
+        }
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -691,18 +722,18 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &ObjectArrayListType) {
         // fast add -> ObjectArrayList
+        auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
-            for (const auto &item: value->vector) {
-                Py_INCREF(item);
-            }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            extendFast(result, self);
+            extendFast(result, value);
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -731,13 +762,15 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
+        try {
+            extendFast(self, reinterpret_cast<ObjectArrayList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
@@ -746,23 +779,28 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
         return nullptr;
     }
 
-    // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        // pre alloc
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->vector.push_back(item);
+        }
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -788,13 +826,18 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
         const auto selfSize = self->vector.size();
 
+        if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
         result->vector.reserve(selfSize * n);
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->vector) {
@@ -834,13 +877,19 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
-        } else {
+            std::vector<PyObject *> removed;
+            removed.swap(self->vector);
+            releaseItems(removed);
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
 
+            if (selfSize > PY_SSIZE_T_MAX / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
@@ -899,10 +948,9 @@ static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
-    }
-    self->vector.clear();
+    std::vector<PyObject *> removed;
+    removed.swap(self->vector);  // releasing the items may change the list
+    releaseItems(removed);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 0121e9900aa61b3e2e3e9e7df1d7c9f8cba526c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 16/60] fix: ObjectArrayList: index, count, remove, 'in' and
 pop compared identities only, and ignored __index__

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 99 ++++++++++++----------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 669a5ea..c7b62d0 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -326,9 +326,37 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 }
 
 
+/**
+ * Find an item equal to the value in [start, stop). Comparing may run any code, which may change the list.
+ * @return its index, or -1 if there is none or (with an error set) a comparison failed
+ */
+static Py_ssize_t findItem(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->vector.size()); ++i) {
+        PyObject *item = self->vector[static_cast<size_t>(i)];
+        Py_INCREF(item);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) {
+            return -1;
+        }
+        if (cmpResult > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
+    Py_ssize_t pyIndex = -1;
+    if (nargs == 1) {
+        pyIndex = PyNumber_AsSsize_t(args[0], PyExc_IndexError);  // may change the list
+        if (pyIndex == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->vector.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
@@ -338,10 +366,7 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     Py_ssize_t index = vecSize - 1;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
+        index = pyIndex;
 
         if (index < 0) {
             index += vecSize;
@@ -372,7 +397,7 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
 
     PyObject *value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->vector.size());
+    auto stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
         return nullptr;
@@ -397,28 +422,32 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
+    Py_ssize_t index = findItem(self, value, start, stop);
 
-    if (it == self->vector.begin() + stop) {
-        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    if (index < 0) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+        }
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    size_t result = 0;
+    Py_ssize_t index = 0;
+    while ((index = findItem(self, object, index, PY_SSIZE_T_MAX)) >= 0) {
+        ++result;
+        ++index;
+    }
+    if (PyErr_Occurred()) {
         return nullptr;
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
@@ -459,19 +488,18 @@ static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
-    try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
+    const auto index = findItem(self, value, 0, PY_SSIZE_T_MAX);
 
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
-        } else {
+    if (index >= 0) {
+        if (index < static_cast<Py_ssize_t>(self->vector.size())) {  // the comparison may have shrunk the list
+            PyObject *removed = self->vector[static_cast<size_t>(index)];
+            self->vector.erase(self->vector.begin() + index);
+            SAFE_DECREF(removed);
+        }
+    } else {
+        if (!PyErr_Occurred()) {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
         }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
 
@@ -905,27 +933,12 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
+    if (findItem(self, key, 0, PY_SSIZE_T_MAX) >= 0) {
+        return 1;  // true
     }
+    return PyErr_Occurred() ? -1 : 0;  // false
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
-- 
2.43.0


From 754c0c8f27ab8948a7f44c5bcdab81fddf6a9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 17/60] fix: ObjectArrayList.sort crashed when a comparison or
 key function changed the list

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c7b62d0..1e4b1fe 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -513,14 +513,28 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
+    // the list is empty while sorting, so that the comparisons and the key function can't break it
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+
     // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    PyObject *result = CPython_sort(items.data(),
+                                    static_cast<Py_ssize_t>(items.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+
+    items.swap(self->vector);
+    if (!items.empty()) {
+        releaseItems(items);
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
-- 
2.43.0


From d02cf5f4a647f2af96f7dff1acb7539122e884c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 18/60] fix: ObjectArrayList item assignment leaked the
 replaced element; deletion released it while still in the list

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 1e4b1fe..b75c808 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -618,16 +618,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(removed);  // may change the list
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
+            PyObject *replaced = self->vector[static_cast<size_t>(pyIndex)];
             self->vector[static_cast<size_t>(pyIndex)] = value;
             Py_INCREF(value);
+            SAFE_DECREF(replaced);  // may change the list
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From a3a72eced70739dbd5e064205c22b0dba77825ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 19/60] fix: slice assignment and deletion of ObjectArrayList:
 crash on del and non-slices, dangling references, no iterables

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 157 +++++++++------------
 1 file changed, 67 insertions(+), 90 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index b75c808..fe214fc 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -583,6 +583,10 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
     }
@@ -651,116 +655,89 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    std::vector<PyObject *> removed;  // releasing the items may change the list
 
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
+    if (value == nullptr) {  // delete
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (step < 0 && sliceLength > 0) {
+            start += step * (sliceLength - 1);
+            step = -step;
+        }
 
-    Py_ssize_t newLength = PySequence_Size(value);
+        try {
+            removed.reserve(static_cast<size_t>(sliceLength));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return -1;
+        }
+
+        const auto size = static_cast<Py_ssize_t>(self->vector.size());
+        Py_ssize_t kept = start;
+        for (Py_ssize_t i = start; i < size; i++) {
+            PyObject *item = self->vector[static_cast<size_t>(i)];
+            if ((i - start) % step != 0 || (i - start) / step >= sliceLength) {
+                self->vector[static_cast<size_t>(kept)] = item;
+                kept++;
+            } else {
+                removed.push_back(item);
+            }
+        }
+        if (kept < size) {
+            self->vector.resize(static_cast<size_t>(kept));
+        }
+        releaseItems(removed);
+        return 0;
+    }
 
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        PyObject **startPtr = self->vector.data() + start;
-
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+    // reading the new elements may change the list
+    PyObject *items = PySequence_Fast(value, "can only assign an iterable");
+    if (items == nullptr) {
+        return -1;
+    }
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
-            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+    try {
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        const auto newLength = PySequence_Fast_GET_SIZE(items);
+
+        removed.assign(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
+        if (newLength < sliceLength) {  // less elements
+            self->vector.erase(
+                    self->vector.begin() + start + newLength,
+                    self->vector.begin() + start + sliceLength
+            );
+        } else {  // more elements
+            self->vector.insert(
+                    self->vector.begin() + start + sliceLength,
+                    static_cast<size_t>(newLength - sliceLength), nullptr
+            );
+        }
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            PyObject *item = PySequence_Fast_GET_ITEM(items, i);
+            Py_INCREF(item);
+            self->vector[static_cast<size_t>(start + i)] = item;
         }
     } catch (const std::exception &e) {
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(items);
+    releaseItems(removed);
     return 0;
 }
 
-- 
2.43.0


From d7af404a8726203daacebd0a5afb0130d2c22e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 20/60] fix: ObjectArrayList comparisons were not lexicographic
 and crashed when elements changed the list; recursive repr crashed

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 255 +++++----------------
 1 file changed, 52 insertions(+), 203 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index fe214fc..06b7513 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -961,75 +961,16 @@ static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
-        }
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_TRUE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Compare like a list does: find the first differing elements, then compare these or the sizes.
+ * Comparing may run any code, which may change both sequences.
+ */
+static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
+    const bool isEquality = op == Py_EQ || op == Py_NE;
 
     if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
     Py_ssize_t seqSize = PySequence_Size(pyValue);
@@ -1037,148 +978,53 @@ static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
+    if (isEquality && seqSize != static_cast<Py_ssize_t>(self->vector.size())) {
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < seqSize && i < static_cast<Py_ssize_t>(self->vector.size()); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
+            if (PyErr_ExceptionMatches(PyExc_IndexError)) {
+                // a comparison has shrunk the other sequence
+                seqSize = PySequence_Size(pyValue);
+                if (0 <= seqSize && seqSize <= i) {
+                    PyErr_Clear();
+                    break;
+                }
+            }
             return nullptr;
         }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {  // reading the item has shrunk the list
+            SAFE_DECREF(item);
+            break;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
-    }
-
-    Py_RETURN_FALSE;
-}
 
-static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
+        PyObject *selfItem = self->vector[static_cast<size_t>(i)];
+        Py_INCREF(selfItem);
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+        PyObject *result = nullptr;
+        const int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        if (cmpResult == 0) {
+            if (isEquality) {
+                result = PyBool_FromLong(op == Py_NE);
+            } else {
+                result = PyObject_RichCompare(selfItem, item, op);
+            }
         }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
     }
 
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
+    seqSize = PySequence_Size(pyValue);
     if (seqSize < 0) {
         return nullptr;
     }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return ObjectArrayList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return ObjectArrayList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return ObjectArrayList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return ObjectArrayList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return ObjectArrayList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return ObjectArrayList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    Py_RETURN_RICHCOMPARE(static_cast<Py_ssize_t>(self->vector.size()), seqSize, op);
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
@@ -1196,27 +1042,30 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {  // the list contains itself
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
+    PyObject *reprList = PyUnicode_FromString("[");
+
     // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
+    for (size_t i = 0; reprList != nullptr && i < vec.size(); ++i) {  // a repr may change the list
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
         }
 
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        PyObject *item = vec[i];
+        Py_INCREF(item);
+        PyUnicode_AppendAndDel(&reprList, PyObject_Repr(item));
+        SAFE_DECREF(item);
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From 65c48586ac9f96f11ea9a18d8bb2e02282788331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 21/60] fix: ObjectArrayList.reverse let other threads see and
 change the list half way

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 06b7513..31b53fd 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -946,9 +946,7 @@ static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
 static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 00baa1de90104dcca997da9d2050fc69888733dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 22/60] fix: ObjectLinkedList construction took no references
 from another ObjectLinkedList, leaked on re-init and masked errors

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 57 +++++++++++++++++----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..3c7e3ff 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -20,10 +20,37 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+/**
+ * Release items which are no longer in any list. May run any code.
+ */
+static __forceinline void releaseItems(const std::list<PyObject *> &items) {
+    for (PyObject *item: items) {
+        Py_DECREF(item);
+    }
+}
+
+/**
+ * Append all items of another list, which may be the list itself
+ */
+static __forceinline void extendFast(ObjectLinkedList *self, ObjectLinkedList *other) {
+    std::list<PyObject *> newItems = other->list;
+    for (const auto &item: newItems) {
+        Py_INCREF(item);
+    }
+    self->list.splice(self->list.end(), newItems);
+    self->modCount++;
+}
+
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(PyType_GenericNew(type, args, kwargs));
+    if (self == nullptr) return nullptr;
+
     new(&self->list) std::list<PyObject *>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,17 +60,25 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
         return -1;
     }
 
+    std::list<PyObject *> oldItems;
+    oldItems.swap(self->list);
+    self->modCount++;
+    releaseItems(oldItems);
+
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+
     // init list
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
-                auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
-                self->list = iter->list;
+                extendFast(self, reinterpret_cast<ObjectLinkedList *>(pyIterable));
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -52,27 +87,29 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    Py_INCREF(value);
                     self->list.push_back(value);
+                    Py_INCREF(value);
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->list.push_back(item);
+                self->modCount++;
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -122,7 +159,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -1105,7 +1142,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 4e7eed7474b68813b08fb25bebdf97d70c397b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 23/60] fix: ObjectLinkedList: extending by itself, +, +=, *=,
 clear and pop(i) corrupted memory or reference counts, or returned None

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 119 +++++++++++---------
 1 file changed, 68 insertions(+), 51 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3c7e3ff..fe2852e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -199,13 +199,13 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
+        try {
+            extendFast(self, reinterpret_cast<ObjectLinkedList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->modCount++;
         Py_RETURN_NONE;
     }
 
@@ -216,16 +216,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->list.push_back(item);
+            self->modCount++;
         }
-
-        self->list.push_back(item);
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -272,10 +274,11 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -614,16 +617,14 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
-            for (const auto &item: value->list) {
-                Py_INCREF(item);
-            }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            extendFast(result, reinterpret_cast<ObjectLinkedList *>(pySelf));
+            extendFast(result, value);
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -652,13 +653,15 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
+        try {
+            extendFast(self, reinterpret_cast<ObjectLinkedList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
@@ -668,16 +671,17 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->list.push_back(item);
+            self->modCount++;
         }
-
-        self->list.push_back(value);
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -703,10 +707,15 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
+    if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+        SAFE_DECREF(result);
+        return PyErr_NoMemory();
+    }
+
     try {
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->list) {
@@ -746,16 +755,24 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
-        } else {
-            const auto size = self->list.size();
+            std::list<PyObject *> removed;
+            removed.swap(self->list);
+            self->modCount++;
+            releaseItems(removed);
+        } else if (!self->list.empty()) {
+            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            std::list<PyObject *> newItems;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                auto iter = self->list.begin();
-                for (size_t j = 0; j < size; ++j, ++iter) {
-                    self->list.push_back(*iter);
-                    Py_INCREF(*iter);
-                }
+                newItems.insert(newItems.end(), self->list.begin(), self->list.end());
+            }
+            for (const auto &item: newItems) {
+                Py_INCREF(item);
             }
+            self->list.splice(self->list.end(), newItems);
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
@@ -807,10 +824,10 @@ static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
-    }
-    self->list.clear();
+    std::list<PyObject *> removed;
+    removed.swap(self->list);  // releasing the items may change the list
+    self->modCount++;
+    releaseItems(removed);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 27a4971a1a2ba35faa8620c181d4dd765ec27cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 24/60] fix: ObjectLinkedList: index, count, remove, 'in' and
 pop compared identities only, and ignored __index__

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 114 +++++++++++++-------
 1 file changed, 75 insertions(+), 39 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index fe2852e..0e4d005 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -239,9 +239,45 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
 }
 
 
+/**
+ * Find an item equal to the value in [start, stop). Comparing may run any code, which may change the list.
+ * @return its index, or -1 if there is none or (with an error set) a comparison failed
+ */
+static Py_ssize_t findItem(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    auto iter = at(self->list, static_cast<size_t>(start));
+    auto modCount = self->modCount;
+
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->list.size()); ++i) {
+        if (modCount != self->modCount) {  // a comparison has changed the list
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) {
+            return -1;
+        }
+        if (cmpResult > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    Py_ssize_t pyIndex = -1;
+    if (nargs == 1) {
+        pyIndex = PyNumber_AsSsize_t(args[0], PyExc_IndexError);  // may change the list
+        if (pyIndex == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->list.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
@@ -251,10 +287,7 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
     Py_ssize_t index;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
+        index = pyIndex;
 
         if (index < 0) {
             index += vecSize;
@@ -286,7 +319,7 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
 
     PyObject *value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->list.size());
+    auto stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
         return nullptr;
@@ -311,29 +344,42 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
+    Py_ssize_t index = findItem(self, value, start, stop);
 
-    if (it == stopIter) {
-        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    if (index < 0) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+        }
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->list.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
+    size_t result = 0;
+    auto iter = self->list.begin();
+    auto modCount = self->modCount;
 
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    for (size_t i = 0; i < self->list.size(); ++i) {
+        if (modCount != self->modCount) {  // a comparison has changed the list
+            iter = at(self->list, i);
+            modCount = self->modCount;
+        }
+
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        const int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) {
+            return nullptr;
+        }
+        result += cmpResult;
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
@@ -375,19 +421,21 @@ static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
-    try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
+    const auto index = findItem(self, value, 0, PY_SSIZE_T_MAX);
 
-        if (it != self->list.end()) {
+    if (index >= 0) {
+        auto it = at(self->list, static_cast<size_t>(index));
+
+        if (it != self->list.end()) {  // the comparison may have shrunk the list
+            PyObject *removed = *it;
             self->list.erase(it);
-            SAFE_DECREF(value);
             self->modCount++;
-        } else {
+            SAFE_DECREF(removed);
+        }
+    } else {
+        if (!PyErr_Occurred()) {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
         }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
 
@@ -784,24 +832,12 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
+    if (findItem(self, key, 0, PY_SSIZE_T_MAX) >= 0) {
+        return 1;  // true
     }
+    return PyErr_Occurred() ? -1 : 0;  // false
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
-- 
2.43.0


From ad1679cab9f54be52f75b696898ea041d6d1895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 25/60] fix: ObjectLinkedList.sort ignored failing comparisons
 and crashed when one changed the list

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 0e4d005..119857d 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -449,7 +449,7 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
@@ -461,24 +461,37 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
         return nullptr;
     }
 
-    auto iter = self->list.begin();
+    // the list is empty while sorting, so that the comparisons and the key function can't break it
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+
+    auto iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         pyData[i] = *iter;
     }
 
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    PyObject *result = CPython_sort(pyData,
+                                    static_cast<Py_ssize_t>(vecSize),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
 
-    iter = self->list.begin();
+    iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         *iter = pyData[i];
     }
 
     PyMem_FREE(pyData);
+    items.swap(self->list);
     self->modCount++;
 
-    Py_RETURN_NONE;
+    if (!items.empty()) {
+        releaseItems(items);
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
-- 
2.43.0


From bcc44fb646f34c6be58bf1d4fb7f0c9a3f609921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 26/60] fix: ObjectLinkedList item assignment leaked the
 replaced element; deletion left iterators dangling

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 119857d..35f0cf3 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -585,16 +585,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *removed = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(removed);  // may change the list
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *replaced = *iter;
+            *iter = value;
             Py_INCREF(value);
+            SAFE_DECREF(replaced);  // may change the list
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From f54d9990ef206b90d9c82ae0dfe7b026224c4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 27/60] fix: slice assignment and deletion of ObjectLinkedList:
 crash on del and non-slices, wrong positions, no iterables

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 96 ++++++++++++++-------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 35f0cf3..bd24a2e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -545,6 +545,10 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
     }
@@ -621,60 +625,86 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    std::list<PyObject *> removed;  // releasing the items may change the list
 
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
+    if (value == nullptr) {  // delete
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (sliceLength == 0) {
+            return 0;
+        }
+        if (step < 0) {
+            start += step * (sliceLength - 1);
+            step = -step;
+        }
+
+        auto iter = at(self->list, static_cast<size_t>(start));
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            const auto toRemove = iter++;
+            removed.splice(removed.end(), self->list, toRemove);
+            if (i + 1 < sliceLength) {
+                std::advance(iter, step - 1);
+            }
+        }
+        self->modCount++;
+        releaseItems(removed);
+        return 0;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    // reading the new elements may change the list
+    PyObject *items = PySequence_Fast(value, "can only assign an iterable");
+    if (items == nullptr) {
         return -1;
     }
 
-    PyObject *item = nullptr;
-    try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
-            }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    const auto newLength = PySequence_Fast_GET_SIZE(items);
+
+    if (step != 1) {
+        if (newLength != sliceLength) {
+            SAFE_DECREF(items);
+            PyErr_SetString(PyExc_ValueError, "attempt to assign sequence of wrong size to extended slice");
+            return -1;
         }
+    }
 
+    try {
+        std::list<PyObject *> newItems;
         for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
+            newItems.push_back(PySequence_Fast_GET_ITEM(items, i));
+        }
+        for (const auto &item: newItems) {
+            Py_INCREF(item);
+        }
 
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
+        if (step != 1) {
+            for (Py_ssize_t i = 0; i < sliceLength; i++) {
+                auto iter = at(self->list, static_cast<size_t>(start + i * step));
+                std::swap(*iter, newItems.front());
+                removed.splice(removed.end(), newItems, newItems.begin());
             }
-
-            SAFE_DECREF(*iter);
-            *iter = item;
+        } else {
+            const auto begin = at(self->list, static_cast<size_t>(start));
+            const auto end = std::next(begin, sliceLength);
+            removed.splice(removed.end(), self->list, begin, end);
+            self->list.splice(end, newItems);
         }
+        self->modCount++;
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(items);
+    releaseItems(removed);
     return 0;
 }
 
-- 
2.43.0


From 479f02ddc91b271c13191b1b9d8292eaa882d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 28/60] fix: ObjectLinkedList comparisons were not
 lexicographic and crashed when elements changed the list; recursive repr
 crashed

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 270 +++++---------------
 1 file changed, 62 insertions(+), 208 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index bd24a2e..faa417c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -915,77 +915,16 @@ static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
-        }
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_TRUE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Compare like a list does: find the first differing elements, then compare these or the sizes.
+ * Comparing may run any code, which may change both sequences.
+ */
+static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+    const bool isEquality = op == Py_EQ || op == Py_NE;
 
     if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
     Py_ssize_t seqSize = PySequence_Size(pyValue);
@@ -993,152 +932,59 @@ static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
+    if (isEquality && seqSize != static_cast<Py_ssize_t>(self->list.size())) {
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && i < static_cast<Py_ssize_t>(self->list.size()); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
+            if (PyErr_ExceptionMatches(PyExc_IndexError)) {
+                // a comparison has shrunk the other sequence
+                seqSize = PySequence_Size(pyValue);
+                if (0 <= seqSize && seqSize <= i) {
+                    PyErr_Clear();
+                    break;
+                }
+            }
             return nullptr;
         }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+        if (modCount != self->modCount) {  // the list has changed
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
         }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (i >= static_cast<Py_ssize_t>(self->list.size())) {  // reading the item has shrunk the list
+            SAFE_DECREF(item);
+            break;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
+        PyObject *selfItem = *iter++;
+        Py_INCREF(selfItem);
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
+        PyObject *result = nullptr;
+        const int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        if (cmpResult == 0) {
+            if (isEquality) {
+                result = PyBool_FromLong(op == Py_NE);
+            } else {
+                result = PyObject_RichCompare(selfItem, item, op);
+            }
+        }
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
     }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
+    seqSize = PySequence_Size(pyValue);
     if (seqSize < 0) {
         return nullptr;
     }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return ObjectLinkedList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return ObjectLinkedList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return ObjectLinkedList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return ObjectLinkedList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return ObjectLinkedList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return ObjectLinkedList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    Py_RETURN_RICHCOMPARE(static_cast<Py_ssize_t>(self->list.size()), seqSize, op);
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
@@ -1156,28 +1002,36 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {  // the list contains itself
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
+    PyObject *reprList = PyUnicode_FromString("[");
+
     // generate string
     auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
+    auto modCount = self->modCount;
+    for (size_t i = 0; reprList != nullptr && i < vec.size(); ++i) {
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
+        if (modCount != self->modCount) {  // a repr has changed the list
+            iter = at(self->list, i);
+            modCount = self->modCount;
         }
 
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        PyUnicode_AppendAndDel(&reprList, PyObject_Repr(item));
+        SAFE_DECREF(item);
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From ea1b00e434fb06cf9f942bab3202045777c38918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 29/60] fix: ObjectLinkedList.reverse let other threads see and
 change the list half way

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index faa417c..5f1fcf3 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -899,9 +899,7 @@ static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From cbb26c394917311497323b78c0a1623fec3db6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 30/60] fix: IntLinkedList construction truncated ints, masked
 errors and leaked; reads leaked ints

---
 pyfastutil/src/ints/IntLinkedList.cpp | 128 ++++++++++++++------------
 1 file changed, 69 insertions(+), 59 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..7d9a7a6 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -20,10 +20,58 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
+static PyObject *IntLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntLinkedList *>(PyType_GenericNew(type, args, kwargs));
+    if (self == nullptr) return nullptr;
+
+    new(&self->list) std::list<int>();
     self->modCount = 0;
+    return reinterpret_cast<PyObject *>(self);
+}
+
+/**
+ * Append all items of another list, which may be the list itself
+ */
+static __forceinline void extendFast(IntLinkedList *self, IntLinkedList *other) {
+    std::list<int> newItems = other->list;
+    self->list.splice(self->list.end(), newItems);
+    self->modCount++;
+}
+
+/**
+ * Append all items of any iterable. Reading and converting an item may run any code, which may change the list.
+ * @return false with an exception set on failure
+ */
+static bool extendIterable(IntLinkedList *self, PyObject *iterable) {
+    PyObject *iter = PyObject_GetIter(iterable);
+    if (iter == nullptr) {
+        return false;
+    }
 
+    try {
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyParse_AsInt(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return false;
+            }
+
+            self->list.push_back(value);
+            self->modCount++;
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return false;
+    }
+
+    SAFE_DECREF(iter);
+    return !PyErr_Occurred();
+}
+
+static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,60 +81,22 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
         return -1;
     }
 
-    // init list
-    try {
-        if (pyIterable != nullptr) {
-            if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
-                auto *iter = reinterpret_cast<IntLinkedList *>(pyIterable);
-                self->list = iter->list;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
-                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-                        return -1;
-                    }
-                    self->list.push_back(value);
-                }
-                SAFE_DECREF(fastKeys);
-                return 0;
-            }
+    self->list.clear();
+    self->modCount++;
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+    // init list
+    if (pyIterable != nullptr) {
+        if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
+            try {
+                extendFast(self, reinterpret_cast<IntLinkedList *>(pyIterable));
+            } catch (const std::exception &e) {
+                PyErr_SetString(PyExc_RuntimeError, e.what());
                 return -1;
             }
-
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
-                    SAFE_DECREF(iter);
-                    SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-                    return -1;
-                }
-                self->list.push_back(value);
-                SAFE_DECREF(item);
-            }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
+            return 0;
         }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
+
+        if (!extendIterable(self, pyIterable)) return -1;
     }
 
     return 0;
@@ -147,9 +157,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -164,7 +177,7 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
     try {
         copy->list = self->list;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -476,9 +489,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -511,7 +522,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
@@ -1144,7 +1154,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From a964436940fc20dacbe9b3030dc6f7f4f5d48b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 31/60] fix: IntLinkedList.from_range dropped the last element
 of negative steps, overflowed and truncated

---
 pyfastutil/src/ints/IntLinkedList.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7d9a7a6..ceda9e4 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -118,28 +118,35 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
+        size_t elements;  // unsigned: the distance may not fit in Py_ssize_t
         if (step > 0) {
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
         }
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        const auto last = static_cast<Py_ssize_t>(
+                static_cast<size_t>(start) + (elements - 1) * static_cast<size_t>(step));
+        if (std::min(start, last) < INT_MIN || std::max(start, last) > INT_MAX) {
+            SAFE_DECREF(list);
+            PyErr_SetString(PyExc_OverflowError, "range does not fit in C int");
+            return nullptr;
+        }
+
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->list.push_back(static_cast<int>(current));
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
-        list->list.~list();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From f6aba97989a5c32f047457b28076dd7801118e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 32/60] fix: IntLinkedList truncated out-of-range ints, stored
 -1 for non-ints and returned with an error set; pop(i) read a freed node

---
 pyfastutil/src/ints/IntLinkedList.cpp | 62 ++++++++++++++++-----------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index ceda9e4..2244d88 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -195,13 +195,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
+    int value = PyParse_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -263,19 +263,24 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
 static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    Py_ssize_t pyIndex = -1;
+    if (nargs == 1) {
+        pyIndex = PyNumber_AsSsize_t(args[0], PyExc_IndexError);  // may change the list
+        if (pyIndex == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+    }
+
     if (self->list.empty()) {
         PyErr_SetString(PyExc_IndexError, "pop from empty list");
         return nullptr;
     }
 
     const auto vecSize = static_cast<Py_ssize_t>(self->list.size());
-    Py_ssize_t index;
+    Py_ssize_t index = vecSize - 1;
 
     if (nargs == 1) {
-        index = PyLong_AsSsize_t(args[0]);
-        if (index == -1 && PyErr_Occurred()) {
-            return nullptr;
-        }
+        index = pyIndex;
 
         if (index < 0) {
             index += vecSize;
@@ -288,17 +293,16 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
     } else if (nargs > 1) {
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
-    } else {
-        const auto popped = self->list.back();
-        self->list.pop_back();
-        self->modCount++;
-        return PyFast_FromInt(popped);
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    PyObject *popped = PyFast_FromInt(*iter);
+    if (popped == nullptr) {
+        return nullptr;
+    }
+    self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return popped;
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -306,7 +310,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 
     int value;
     Py_ssize_t start = 0;
-    auto stop = static_cast<Py_ssize_t>(self->list.size());
+    auto stop = PY_SSIZE_T_MAX;
 
     if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
         return nullptr;
@@ -346,7 +350,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyParse_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -394,7 +398,7 @@ static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyParse_AsInt(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -541,6 +545,14 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    int value = 0;
+    if (pyValue != nullptr) {
+        value = PyParse_AsInt(pyValue);  // may change the list
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
     if (pyIndex < 0) {
@@ -555,13 +567,9 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -829,9 +837,11 @@ static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(key);
+    long long value = PyLong_AsLongLong(key);
     if (PyErr_Occurred()) {
-        return -1;
+        if (!PyErr_ExceptionMatches(PyExc_OverflowError)) return -1;
+        PyErr_Clear();  // no element can be equal to it
+        return 0;
     }
 
     try {
-- 
2.43.0


From 7756551df296e25118bcac6d717a2108cd63abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 33/60] fix: IntLinkedList: extending by itself, +, +=, *=,
 clear: wrong results, dangling iterators, errors left pending

---
 pyfastutil/src/ints/IntLinkedList.cpp | 96 +++++++++++----------------
 1 file changed, 38 insertions(+), 58 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 2244d88..9cbbf7d 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -223,39 +223,21 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
+        try {
+            extendFast(self, reinterpret_cast<IntLinkedList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
         }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        Py_RETURN_NONE;
     }
-    self->modCount++;
 
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    // python iterable extend
+    if (!extendIterable(self, iterable)) {
         return nullptr;
     }
 
-    SAFE_DECREF(iter);
     Py_RETURN_NONE;
 }
 
@@ -690,13 +672,14 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
-            return PyErr_NoMemory();
+            return nullptr;
         }
 
         try {
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            extendFast(result, reinterpret_cast<IntLinkedList *>(pySelf));
+            extendFast(result, value);
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -725,37 +708,22 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
+        try {
+            extendFast(self, reinterpret_cast<IntLinkedList *>(iterable));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
         }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    // python iterable extend
+    if (!extendIterable(self, iterable)) {
         return nullptr;
     }
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -773,10 +741,15 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
+    if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+        SAFE_DECREF(result);
+        return PyErr_NoMemory();
+    }
+
     try {
         for (Py_ssize_t i = 0; i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
@@ -814,12 +787,18 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->list.clear();
-        } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
+            self->modCount++;
+        } else if (!self->list.empty()) {
+            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            std::list<int> newItems;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+                newItems.insert(newItems.end(), self->list.begin(), self->list.end());
             }
+            self->list.splice(self->list.end(), newItems);
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
@@ -877,6 +856,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From ac31b1e4637af6b136899b5889a4e288260ceb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 34/60] fix: IntLinkedList.sort ignored failing keys and
 crashed when the key changed the list

---
 pyfastutil/src/ints/IntLinkedList.cpp | 34 ++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 9cbbf7d..2b37441 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -410,7 +410,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
@@ -433,20 +433,42 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         auto iter = self->list.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            if (pyData[i] == nullptr) {
+                while (i > 0) {
+                    Py_DECREF(pyData[--i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        const auto modCount = self->modCount;
+        PyObject *sorted = CPython_sort(pyData,
+                                        static_cast<Py_ssize_t>(vecSize),
+                                        keyFunc, reverseInt);
+        const bool success = sorted != nullptr;
+        Py_XDECREF(sorted);
 
+        // the key function may have changed the list
+        const bool modified = modCount != self->modCount;
         iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            *iter = PyFast_AsInt(pyData[i]);
+        for (size_t i = 0; i < vecSize; ++i) {
+            if (success && !modified) {
+                *iter++ = PyFast_AsInt(pyData[i]);
+            }
             Py_DECREF(pyData[i]);
         }
 
         PyMem_FREE(pyData);
         self->modCount++;
+
+        if (!success) {
+            return nullptr;
+        }
+        if (modified) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            return nullptr;
+        }
     }
 
     Py_RETURN_NONE;
-- 
2.43.0


From 282c99cf025e063d91dc0971fba92b667a7a127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 35/60] fix: slice assignment and deletion of IntLinkedList:
 crash on del and non-slices, partial assignments, no iterables

---
 pyfastutil/src/ints/IntLinkedList.cpp | 121 +++++++++++---------------
 1 file changed, 51 insertions(+), 70 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 2b37441..97ee625 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -523,6 +523,10 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
     }
@@ -595,97 +599,74 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    if (value == nullptr) {  // delete
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (sliceLength == 0) {
+            return 0;
+        }
+        if (step < 0) {
+            start += step * (sliceLength - 1);
+            step = -step;
+        }
 
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
+        auto iter = at(self->list, static_cast<size_t>(start));
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            iter = self->list.erase(iter);
+            if (i + 1 < sliceLength) {
+                std::advance(iter, step - 1);
+            }
+        }
+        self->modCount++;
+        return 0;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
-            }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+    // converting the new elements may change the list or the source
+    PyObject *items = PySequence_Fast(value, "can only assign an iterable");
+    if (items == nullptr) {
+        return -1;
+    }
 
-                ++iter;
+    PyObject *item = nullptr;
+    try {
+        std::list<int> newItems;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(items); i++) {
+            item = PySequence_Fast_GET_ITEM(items, i);
+            Py_INCREF(item);
+            newItems.push_back(PyParse_AsInt(item));
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(items);
+                return -1;
             }
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        }
+        const auto begin = at(self->list, static_cast<size_t>(start));
+        const auto end = self->list.erase(begin, std::next(begin, sliceLength));
+        self->list.splice(end, newItems);
+        self->modCount++;
     } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(items);
     return 0;
 }
 
-- 
2.43.0


From bdc691fa42035f32f857405f4218684f21214506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 36/60] fix: IntLinkedList comparisons were not lexicographic,
 truncated ints and left errors pending

---
 pyfastutil/src/ints/IntLinkedList.cpp | 189 ++++----------------------
 1 file changed, 26 insertions(+), 163 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 97ee625..3fbbfec 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -863,53 +863,16 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
-    if (PyObject_IsTrue(isEq)) {
-        SAFE_DECREF(isEq);
-        Py_RETURN_FALSE;
-    } else {
-        SAFE_DECREF(isEq);
-        Py_RETURN_TRUE;
-    }
-}
-
-static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Compare like a list does: find the first differing elements, then compare these or the sizes.
+ * Reading and converting an item may run any code, which may change the list.
+ */
+static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
+    const bool isEquality = op == Py_EQ || op == Py_NE;
 
     if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
     Py_ssize_t seqSize = PySequence_Size(pyValue);
@@ -917,140 +880,40 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
+    if (isEquality && seqSize != static_cast<Py_ssize_t>(self->list.size())) {
+        Py_RETURN_BOOL(op == Py_NE)
     }
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0; i < seqSize && i < static_cast<Py_ssize_t>(self->list.size()); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+        if (modCount != self->modCount) {  // changed by the other sequence
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
         }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+        if (i >= static_cast<Py_ssize_t>(self->list.size())) {
+            SAFE_DECREF(item);
+            break;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        const int order = PyFast_CompareInt(*iter++, item);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+        if (order == -2) {  // can't be converted to int
+            if (!isEquality || !PyErr_ExceptionMatches(PyExc_TypeError)) return nullptr;
+            PyErr_Clear();
+            Py_RETURN_BOOL(op == Py_NE)
+        }
+        if (order != 0) {
+            Py_RETURN_RICHCOMPARE(order, 0, op);
         }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
 
-    Py_RETURN_FALSE;
-}
-
-static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-    switch (op) {
-        case Py_EQ:  // ==
-            return IntLinkedList_eq(pySelf, pyValue);
-        case Py_NE:  // !=
-            return IntLinkedList_ne(pySelf, pyValue);
-        case Py_LT:  // <
-            return IntLinkedList_lt(pySelf, pyValue);
-        case Py_LE:  // <=
-            return IntLinkedList_le(pySelf, pyValue);
-        case Py_GT:  // >
-            return IntLinkedList_gt(pySelf, pyValue);
-        case Py_GE:  // >=
-            return IntLinkedList_ge(pySelf, pyValue);
-        default:
-            PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
-            return nullptr;
-    }
+    Py_RETURN_RICHCOMPARE(static_cast<Py_ssize_t>(self->list.size()), seqSize, op);
 }
 
 #ifdef IS_PYTHON_39_OR_LATER
-- 
2.43.0


From 7ddc751459b38ee3bb4fd2b24637c032b6168e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 37/60] fix: IntLinkedList.reverse let other threads see and
 change the list half way

---
 pyfastutil/src/ints/IntLinkedList.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 3fbbfec..7db0a6d 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -849,9 +849,7 @@ static PyObject *IntLinkedList_reversed(PyObject *pySelf) {
 static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 69d64563c85c4c278b94a5dac153e8a43286de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 38/60] fix: linked list iterators skipped elements, dangled
 after changes, revived, and reversed() returned the wrong last element

---
 pyfastutil/src/ints/IntLinkedListIter.cpp     | 32 +++++--------------
 .../src/objects/ObjectLinkedListIter.cpp      | 32 +++++--------------
 2 files changed, 16 insertions(+), 48 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..848b6c0 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,9 +19,9 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,49 +42,33 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        // stay exhausted, even if the container grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            int element = *(--self->container->list.end());
+            int element = *self->cacheIter;
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         int element = *self->cacheIter;
         self->index--;
         self->cacheIter--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         int element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..2b34d84 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,9 +19,9 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,51 +42,35 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        // stay exhausted, even if the container grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            PyObject *element = *(--self->container->list.end());
+            PyObject *element = *self->cacheIter;
             self->index = SIZE_MAX;
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index--;
         self->cacheIter--;
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
-- 
2.43.0


From 06ac870ed0150e55f8f5772bbc3d551dac98d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 39/60] fix: cycles through ObjectArrayList and
 ObjectLinkedList were never collected

---
 pyfastutil/src/objects/ObjectArrayList.cpp    | 23 ++++++++++++++++--
 .../src/objects/ObjectArrayListIter.cpp       | 14 ++++++++---
 pyfastutil/src/objects/ObjectLinkedList.cpp   | 24 +++++++++++++++++--
 .../src/objects/ObjectLinkedListIter.cpp      | 14 ++++++++---
 4 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 31b53fd..fac8068 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -133,12 +133,29 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     return 0;
 }
 
+static int ObjectArrayList_traverse(ObjectArrayList *self, visitproc visit, void *arg) {
+    for (PyObject *item: self->vector) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectArrayList_gcClear(ObjectArrayList *self) {
+    std::vector<PyObject *> removed;
+    removed.swap(self->vector);  // releasing the items may change the list
+    releaseItems(removed);
+    return 0;
+}
+
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectArrayList_dealloc)
     for (PyObject *item: self->vector) {
         SAFE_DECREF(item);
     }
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
@@ -1124,7 +1141,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayList";
     type.tp_basicsize = sizeof(ObjectArrayList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectArrayList_asSequence;
     type.tp_as_mapping = &ObjectArrayList_asMapping;
     type.tp_iter = ObjectArrayList_iter;
@@ -1132,8 +1149,10 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_init = (initproc) ObjectArrayList_init;
     type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
+    type.tp_traverse = (traverseproc) ObjectArrayList_traverse;
+    type.tp_clear = (inquiry) ObjectArrayList_gcClear;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectArrayList_compare;
     type.tp_repr = ObjectArrayList_repr;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 49eff10..f1816ef 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -12,7 +12,7 @@ static PyTypeObject ObjectArrayListIterType = {
 };
 
 ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectArrayListIter>(ObjectArrayListIterType);
+    auto *instance = PyObject_GC_New(ObjectArrayListIter, &ObjectArrayListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -25,10 +25,17 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
         instance->reversed = false;
     }
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectArrayListIter_traverse(ObjectArrayListIter *self, visitproc visit, void *arg) {
+    Py_VISIT(self->container);
+    return 0;
+}
+
 static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -84,13 +91,14 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayListIter";
     type.tp_basicsize = sizeof(ObjectArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectArrayListIter_iter;
     type.tp_iternext = ObjectArrayListIter_next;
     type.tp_methods = ObjectArrayListIter_methods;
     type.tp_dealloc = (destructor) ObjectArrayListIter_dealloc;
+    type.tp_traverse = (traverseproc) ObjectArrayListIter_traverse;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
 }
 
 #pragma clang diagnostic push
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 5f1fcf3..c866978 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -117,12 +117,30 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     return 0;
 }
 
+static int ObjectLinkedList_traverse(ObjectLinkedList *self, visitproc visit, void *arg) {
+    for (PyObject *item: self->list) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectLinkedList_gcClear(ObjectLinkedList *self) {
+    std::list<PyObject *> removed;
+    removed.swap(self->list);  // releasing the items may change the list
+    self->modCount++;
+    releaseItems(removed);
+    return 0;
+}
+
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectLinkedList_dealloc)
     for (PyObject *item: self->list) {
         SAFE_DECREF(item);
     }
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectLinkedList_to_list(PyObject *pySelf) {
@@ -1089,7 +1107,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedList";
     type.tp_basicsize = sizeof(ObjectLinkedList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectLinkedList_asSequence;
     type.tp_as_mapping = &ObjectLinkedList_asMapping;
     type.tp_iter = ObjectLinkedList_iter;
@@ -1097,8 +1115,10 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_init = (initproc) ObjectLinkedList_init;
     type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
+    type.tp_traverse = (traverseproc) ObjectLinkedList_traverse;
+    type.tp_clear = (inquiry) ObjectLinkedList_gcClear;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectLinkedList_compare;
     type.tp_repr = ObjectLinkedList_repr;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 2b34d84..2201da1 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -13,7 +13,7 @@ static PyTypeObject ObjectLinkedListIterType = {
 };
 
 ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectLinkedListIter>(ObjectLinkedListIterType);
+    auto *instance = PyObject_GC_New(ObjectLinkedListIter, &ObjectLinkedListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -29,10 +29,17 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     }
     instance->cacheModCount = list->modCount;
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectLinkedListIter_traverse(ObjectLinkedListIter *self, visitproc visit, void *arg) {
+    Py_VISIT(self->container);
+    return 0;
+}
+
 static void ObjectLinkedListIter_dealloc(ObjectLinkedListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -100,13 +107,14 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedListIter";
     type.tp_basicsize = sizeof(ObjectLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectLinkedListIter_iter;
     type.tp_iternext = ObjectLinkedListIter_next;
     type.tp_methods = ObjectLinkedListIter_methods;
     type.tp_dealloc = (destructor) ObjectLinkedListIter_dealloc;
+    type.tp_traverse = (traverseproc) ObjectLinkedListIter_traverse;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
 }
 
 #pragma clang diagnostic push
-- 
2.43.0


From 0b3881421b0440a4440d12871a8d93f4a14d3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 40/60] fix: Unsafe.as_object returned a borrowed reference as
 an owned one

---
 pyfastutil/src/unsafe/Unsafe.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..7cafd60 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -247,7 +247,15 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Address must not be null.");
+        }
+        return nullptr;
+    }
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
-- 
2.43.0


From 02f68e2cda209df7a79364a9ac66fb2643b42b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 41/60] fix: Unsafe.realloc to size 0 freed the block and
 failed; Unsafe.get of a negative size raised SystemError

---
 pyfastutil/src/unsafe/Unsafe.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 7cafd60..9ca211e 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -68,7 +68,8 @@ static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args)
         return nullptr;
     }
 
-    void *ptr = realloc(reinterpret_cast<void *>(address), newSize);
+    // realloc to size 0 would free the block and fail
+    void *ptr = realloc(reinterpret_cast<void *>(address), newSize == 0 ? 1 : newSize);
     if (ptr == nullptr) {
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
@@ -117,7 +118,12 @@ static PyObject *Unsafe_alignedFree([[maybe_unused]] PyObject *self, PyObject *p
 static PyObject *Unsafe_get([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     Py_ssize_t size;
-    if (!PyArg_ParseTuple(args, "KK", &address, &size)) {
+    if (!PyArg_ParseTuple(args, "Kn", &address, &size)) {
+        return nullptr;
+    }
+
+    if (size < 0) {
+        PyErr_SetString(PyExc_ValueError, "Size must not be negative.");
         return nullptr;
     }
 
-- 
2.43.0


From 8a993bbacacc351b48821db05a96b1fa7aeaa1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 42/60] fix: Unsafe.fgets leaked its buffer, raised at end of
 input and lost input; fputs stopped at a null character

---
 pyfastutil/src/unsafe/Unsafe.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 9ca211e..d14f2af 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -329,12 +329,13 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    const char *str = PyUnicode_AsUTF8(pyStr);
+    Py_ssize_t size;
+    const char *str = PyUnicode_AsUTF8AndSize(pyStr, &size);
     if (str == nullptr) {
         return nullptr;
     }
 
-    fputs(str, stdout);
+    fwrite(str, 1, static_cast<size_t>(size), stdout);
 
     Py_RETURN_NONE;
 }
@@ -351,20 +352,37 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
+    int bufferSize = PyParse_AsInt(pyBufferSize);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     if (bufferSize <= 0) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    auto *buffer = static_cast<char *>(malloc(bufferSize));
+    if (buffer == nullptr) {
+        return PyErr_NoMemory();
+    }
+
+    Py_ssize_t length = 0;
+    int c;
+    while (length < bufferSize - 1 && (c = getc(stdin)) != EOF) {
+        buffer[length++] = static_cast<char>(c);
+        if (c == '\n') break;
+    }
 
-    if (fgets(buffer, bufferSize, stdin) == nullptr) {
+    if (length == 0 && ferror(stdin)) {
+        free(buffer);
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    // the end of the buffer may be inside a character
+    PyObject *result = PyUnicode_DecodeUTF8(buffer, length, "surrogateescape");
+    free(buffer);
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From 05e741178b4dfbecf8d065aeca9bfca30983af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 43/60] fix: SIMD memcpy and reverse ran with garbage after a
 failed argument conversion

---
 pyfastutil/src/unsafe/SIMD.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..050dbbd 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -46,6 +46,11 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
 
@@ -66,6 +71,11 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
 
@@ -84,6 +94,11 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     size_t count = PyLong_AsSize_t(args[1]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdReverse(address, count);
 
-- 
2.43.0


From f89d666697f47208c031e62c35f647cdfbee81b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 44/60] fix: isAVX512Supported ignored whether the OS saves the
 AVX-512 registers

---
 pyfastutil/src/utils/simd/SIMDHelper.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/utils/simd/SIMDHelper.cpp b/pyfastutil/src/utils/simd/SIMDHelper.cpp
index 98960df..e2112ce 100644
--- a/pyfastutil/src/utils/simd/SIMDHelper.cpp
+++ b/pyfastutil/src/utils/simd/SIMDHelper.cpp
@@ -4,8 +4,12 @@
 
 #include "SIMDHelper.h"
 
+// Bits of XCR0 for the states AVX (XMM, YMM) and AVX-512 (also opmask, both parts of ZMM) need
+#define XCR0_AVX 0x6
+#define XCR0_AVX512 0xe6
+
 // Helper function to check OS support for AVX (via XGETBV)
-bool osSupportsAVX();
+bool osSupportsAVX(unsigned long long xcrFeatures = XCR0_AVX);
 
 // Function to check if AVX2 is supported
 bool isAVX2Supported();
@@ -28,7 +32,7 @@ bool isArmNeonSupported();
 
 #include <intrin.h>  // For __cpuid() and _xgetbv()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long xcrFeatures) {
     int cpuInfo[4];
     __cpuid(cpuInfo, 1);
 
@@ -41,7 +45,7 @@ bool osSupportsAVX() {
     unsigned long long xcrFeatureMask = _xgetbv(0);
 
     // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6;
+    return (xcrFeatureMask & xcrFeatures) == xcrFeatures;
 }
 
 bool isAVX2Supported() {
@@ -77,7 +81,7 @@ bool isAVX512Supported() {
     }
 
     // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
+    if (!osSupportsAVX(XCR0_AVX512)) {
         return false; // OS does not support AVX
     }
 
@@ -118,7 +122,7 @@ bool isArmNeonSupported() {
 
 #include <cpuid.h>  // For __get_cpuid() and __get_cpuid_count()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long xcrFeatures) {
     // Ensure CPU supports XGETBV (XSAVE/XRSTOR)
     unsigned int cpuid_eax, cpuid_ebx, cpuid_ecx, cpuid_edx;
     __get_cpuid(1, &cpuid_eax, &cpuid_ebx, &cpuid_ecx, &cpuid_edx);
@@ -133,7 +137,7 @@ bool osSupportsAVX() {
     // GCC 8+ has __builtin_ia32_xgetbv()
     unsigned long long xcrFeatureMask = __builtin_ia32_xgetbv(0);
     // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    return (xcrFeatureMask & xcrFeatures) == xcrFeatures; // Both XMM and YMM must be enabled
 #else
     __asm__ __volatile__(
             "xgetbv"
@@ -142,7 +146,7 @@ bool osSupportsAVX() {
         );
     unsigned long long xcrFeatureMask = ((unsigned long long)edx << 32) | eax;
     // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    return (xcrFeatureMask & xcrFeatures) == xcrFeatures; // Both XMM and YMM must be enabled
 #endif
 }
 
@@ -188,7 +192,7 @@ bool isAVX512Supported() {
     }
 
     // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
+    if (!osSupportsAVX(XCR0_AVX512)) {
         return false; // OS does not support AVX
     }
 
@@ -228,7 +232,7 @@ bool isArmNeonSupported() {
 
 #else
 // For unknown compiler, SIMD support is unknown, default is unsupported.
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long xcrFeatures) {
     return false;
 }
 
@@ -260,7 +264,7 @@ bool isArmNeonSupported() {
 #include <string>
 
 // For non-x86 architectures, AVX/SSE is not supported
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long xcrFeatures) {
     return false;
 }
 
-- 
2.43.0


From 7ed406916fcb8aaa96ae495ee8fa5334b1918f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 45/60] fix: index() of every list refused search bounds beyond
 Py_ssize_t instead of clamping them

---
 pyfastutil/src/ints/BigIntArrayList.cpp     |  3 ++-
 pyfastutil/src/ints/IntArrayList.cpp        |  3 ++-
 pyfastutil/src/ints/IntLinkedList.cpp       |  3 ++-
 pyfastutil/src/objects/ObjectArrayList.cpp  |  3 ++-
 pyfastutil/src/objects/ObjectLinkedList.cpp |  3 ++-
 pyfastutil/src/utils/PythonUtils.h          | 16 ++++++++++++++++
 6 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e98b3b1..8a95000 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -396,7 +396,8 @@ static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
     Py_ssize_t start = 0;
     auto stop = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (!PyArg_ParseTuple(args, "L|nn", &value, &start, &stop)) {
+    if (!PyArg_ParseTuple(args, "L|O&O&", &value, PyParse_SearchBound, &start,
+                          PyParse_SearchBound, &stop)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index e521282..caa5c27 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -407,7 +407,8 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
     Py_ssize_t start = 0;
     auto stop = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
+    if (!PyArg_ParseTuple(args, "i|O&O&", &value, PyParse_SearchBound, &start,
+                          PyParse_SearchBound, &stop)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7db0a6d..b807551 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -294,7 +294,8 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
     Py_ssize_t start = 0;
     auto stop = PY_SSIZE_T_MAX;
 
-    if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
+    if (!PyArg_ParseTuple(args, "i|O&O&", &value, PyParse_SearchBound, &start,
+                          PyParse_SearchBound, &stop)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index fac8068..2f4da62 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -416,7 +416,8 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     Py_ssize_t start = 0;
     auto stop = PY_SSIZE_T_MAX;
 
-    if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
+    if (!PyArg_ParseTuple(args, "O|O&O&", &value, PyParse_SearchBound, &start,
+                          PyParse_SearchBound, &stop)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c866978..6d72c20 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -339,7 +339,8 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     Py_ssize_t start = 0;
     auto stop = PY_SSIZE_T_MAX;
 
-    if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
+    if (!PyArg_ParseTuple(args, "O|O&O&", &value, PyParse_SearchBound, &start,
+                          PyParse_SearchBound, &stop)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index d726017..b9651c3 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -133,6 +133,22 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
     return static_cast<int>(value);
 }
 
+/**
+ * "O&" converter for a bound of a search: any int-like object, clamped to the range of Py_ssize_t as list.index does.
+ */
+[[maybe_unused]] static int PyParse_SearchBound(PyObject *object, void *result) noexcept {
+    if (UNLIKELY(!PyIndex_Check(object))) {
+        PyErr_SetString(PyExc_TypeError, "slice indices must be integers or have an __index__ method");
+        return 0;
+    }
+    const Py_ssize_t value = PyNumber_AsSsize_t(object, nullptr);
+    if (UNLIKELY(value == -1 && PyErr_Occurred())) {
+        return 0;
+    }
+    *static_cast<Py_ssize_t *>(result) = value;
+    return 1;
+}
+
 /**
  * Compare a C integer with any int-like object, of any magnitude.
  * @return -1, 0 or 1 if value is smaller, equal or greater; -2 with an exception set if object is not int-like.
-- 
2.43.0


From 96f9a66ebba303d2772c3cc6a2f996102bb66c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 46/60] fix: deleting an empty slice with a negative step wrote
 before the start of an ObjectArrayList

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 2f4da62..1745859 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -685,7 +685,10 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     if (value == nullptr) {  // delete
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-        if (step < 0 && sliceLength > 0) {
+        if (sliceLength == 0) {
+            return 0;
+        }
+        if (step < 0) {
             start += step * (sliceLength - 1);
             step = -step;
         }
-- 
2.43.0


From 9979dc1b66f5ffe72aa4c67783bdda5b8fdfe2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 47/60] fix: attributes were missing from a type until
 something made it ready; ready every type at import

---
 pyfastutil/src/ints/BigIntArrayList.cpp         | 2 ++
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp            | 2 ++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 2 ++
 pyfastutil/src/ints/IntIntHashMap.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedList.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 2 ++
 pyfastutil/src/objects/ObjectArrayList.cpp      | 2 ++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 2 ++
 pyfastutil/src/objects/ObjectLinkedList.cpp     | 2 ++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 2 ++
 pyfastutil/src/unsafe/ASM.cpp                   | 2 ++
 pyfastutil/src/unsafe/SIMD.cpp                  | 2 ++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp         | 2 ++
 pyfastutil/src/unsafe/Unsafe.cpp                | 2 ++
 scripts/GenerateAVX512Bindings.py               | 2 ++
 16 files changed, 32 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 8a95000..e651abe 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1407,6 +1407,8 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
+    if (PyType_Ready(&BigIntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 736766e..e2a3758 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -94,6 +94,8 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
+    if (PyType_Ready(&BigIntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index caa5c27..c12fe64 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1413,6 +1413,8 @@ void initializeIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
+    if (PyType_Ready(&IntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 62e8ec8..9bffd7e 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -94,6 +94,8 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
+    if (PyType_Ready(&IntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntIntHashMap.cpp b/pyfastutil/src/ints/IntIntHashMap.cpp
index 0780596..96439ef 100644
--- a/pyfastutil/src/ints/IntIntHashMap.cpp
+++ b/pyfastutil/src/ints/IntIntHashMap.cpp
@@ -308,6 +308,8 @@ void initializeIntIntHashMapType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntIntHashMap() {
     initializeIntIntHashMapType(IntIntHashMapType);
+    if (PyType_Ready(&IntIntHashMapType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntIntHashMap_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b807551..3985b33 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1030,6 +1030,8 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
+    if (PyType_Ready(&IntLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index 848b6c0..2408a8c 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -110,6 +110,8 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
+    if (PyType_Ready(&IntLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 1745859..46db22d 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1167,6 +1167,8 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
+    if (PyType_Ready(&ObjectArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index f1816ef..ccccd4a 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -105,6 +105,8 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
+    if (PyType_Ready(&ObjectArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 6d72c20..4fbcd9e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1130,6 +1130,8 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
+    if (PyType_Ready(&ObjectLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 2201da1..b0d7709 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -121,6 +121,8 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..98cfa86 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -356,6 +356,8 @@ static struct PyModuleDef ASM_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
+    if (PyType_Ready(&ASMType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 050dbbd..de5d711 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -417,6 +417,8 @@ static struct PyModuleDef SIMD_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
+    if (PyType_Ready(&SIMDType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..ff7cad1 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35663,6 +35663,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index d14f2af..aea2a83 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -439,6 +439,8 @@ static struct PyModuleDef Unsafe_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
+    if (PyType_Ready(&UnsafeType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index 47d4869..ce26139 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -242,6 +242,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
-- 
2.43.0


From eab684489aaf472123070fbb5526b267d182cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 48/60] fix: adding an instance of a subclass of a container to
 a container raised TypeError

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 2 +-
 pyfastutil/src/ints/IntArrayList.cpp        | 2 +-
 pyfastutil/src/ints/IntLinkedList.cpp       | 2 +-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 2 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e651abe..3889f71 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -786,7 +786,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &BigIntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &BigIntArrayListType)) {
         // fast add -> BigIntArrayList
         auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index c12fe64..ac38cb4 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -792,7 +792,7 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 }
 
 static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &IntArrayListType)) {
         // fast add -> IntArrayList
         auto *self = reinterpret_cast<IntArrayList *>(pySelf);
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 3985b33..1449b4b 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -672,7 +672,7 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 }
 
 static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &IntLinkedListType)) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 46db22d..afb56c4 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -763,7 +763,7 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectArrayListType)) {
         // fast add -> ObjectArrayList
         auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4fbcd9e..4882014 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -728,7 +728,7 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 }
 
 static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectLinkedListType)) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-- 
2.43.0


From 642f64d693b9f88034ac38de0e6e00f570186c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 49/60] fix: re-initialising an ObjectArrayList took references
 it did not store when freeing the old elements stored new ones

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index afb56c4..2ba8c2e 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -85,8 +85,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
                 auto *other = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
-                for (const auto &newItem: self->vector) {
+                const std::vector<PyObject *> newItems(other->vector);
+                self->vector.insert(self->vector.end(), newItems.begin(), newItems.end());
+                for (const auto &newItem: newItems) {
                     Py_INCREF(newItem);
                 }
                 return 0;
-- 
2.43.0


From c76b0eb30a66a6038c4af5cbfdeca909eaf08262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 50/60] fix: running out of memory in repr() of an int list
 ended the process

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 37 +++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 37 +++++++++++++----------
 pyfastutil/src/ints/IntLinkedList.cpp   | 39 ++++++++++++++-----------
 3 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 3889f71..7ba46de 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1272,26 +1272,31 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index ac38cb4..572f16f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1278,26 +1278,31 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 1449b4b..883a806 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -930,27 +930,32 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        auto iter = vec.begin();
+        for (size_t i = 0; i < lastIdx; ++i, ++iter) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    auto iter = vec.begin();
-    for (size_t i = 0; i < lastIdx; ++i, ++iter) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+        int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
-- 
2.43.0


From b26856b7e7a621b633588aa188534931022b325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 51/60] fix: Unsafe.memset refused values beyond C long instead
 of truncating them to a byte

---
 pyfastutil/src/unsafe/Unsafe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index aea2a83..0cc9c93 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -296,7 +296,7 @@ static PyObject *Unsafe_memset([[maybe_unused]] PyObject *self, PyObject *const
 
     // Extract arguments
     void *address = PyLong_AsVoidPtr(args[0]);
-    int val = PyLong_AsLong(args[1]);
+    const int val = static_cast<unsigned char>(PyLong_AsUnsignedLongMask(args[1]));
     size_t size = PyLong_AsSize_t(args[2]);
 
     // Check for conversion errors
-- 
2.43.0


From 0e51a3af2b7dc99579a830d740704bf399b4ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 52/60] fix: Unsafe.fputs and fflush reported text as written
 that could not be delivered

---
 pyfastutil/src/unsafe/Unsafe.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 0cc9c93..342dbe9 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -335,13 +335,17 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    fwrite(str, 1, static_cast<size_t>(size), stdout);
+    if (fwrite(str, 1, static_cast<size_t>(size), stdout) != static_cast<size_t>(size)) {
+        return PyErr_SetFromErrno(PyExc_OSError);
+    }
 
     Py_RETURN_NONE;
 }
 
 static PyObject *Unsafe_fflush([[maybe_unused]] PyObject *pySelf) {
-    fflush(stdout);
+    if (fflush(stdout) != 0) {
+        return PyErr_SetFromErrno(PyExc_OSError);
+    }
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From c1fdfd7e94a4acb2ca0ea4b7305c86849a3520fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 53/60] fix: reversing 16-byte elements with AVX2 exchanged the
 halves of each element

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From 8442d89185a831692a19a74c5b280f987eb29266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 54/60] fix: SIMD vector setters stored garbage and returned
 with an exception set for arguments that do not convert

---
 pyfastutil/src/unsafe/SIMD.cpp | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index de5d711..6dd421d 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -158,12 +158,17 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
             PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
             PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -180,7 +185,8 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
@@ -190,6 +196,10 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
             PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
             PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -206,7 +216,8 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -224,6 +235,10 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
             PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -240,10 +255,15 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -260,12 +280,17 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
             PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -282,7 +307,8 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -292,6 +318,10 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
             PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
-- 
2.43.0


From 25576e86b0015d073330c97511c3fe7775aa4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 55/60] fix: AVX-512 bindings read int arguments for
 floating-point operands as garbage

---
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp | 68 ++++++++++++-------------
 scripts/GenerateAVX512Bindings.py       |  4 +-
 scripts/SIMDLowAVX512.cpp               | 68 ++++++++++++-------------
 3 files changed, 70 insertions(+), 70 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ff7cad1..76e464c 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -239,14 +239,14 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +264,22 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +384,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +402,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +451,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +472,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index ce26139..1433d46 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -508,9 +508,9 @@ def getArgParseData(argType: str, argId: int) -> tuple[str, bool]:
         case "unsigned":
             convert = f"(unsigned int) PyLong_AsUnsignedLong(*(((PyObject **) args) + {argId}))"
         case "float":
-            convert = f"(float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"(float) PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "double":
-            convert = f"PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "long":
             convert = f"PyLong_AsLong(*(((PyObject **) args) + {argId}))"
         case "long long":
diff --git a/scripts/SIMDLowAVX512.cpp b/scripts/SIMDLowAVX512.cpp
index ecbc2a6..6b7b726 100644
--- a/scripts/SIMDLowAVX512.cpp
+++ b/scripts/SIMDLowAVX512.cpp
@@ -239,14 +239,14 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +264,22 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +384,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +402,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +451,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +472,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
-- 
2.43.0


From b5a43d4821e4f63dadddd314456ec47f68b3cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 56/60] fix: ASM.freeFunction kept its lock after refusing a
 function, so that every later call waited for ever

---
 pyfastutil/src/unsafe/ASM.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index 98cfa86..4c486e4 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -267,7 +267,7 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     void *target = PyLong_AsVoidPtr(args[0]);
     std::pair<size_t, DWORD> metadata;
 
-    lock.lock();
+    const std::lock_guard<std::mutex> guard(lock);
 
     try {
         metadata = map.at(target);
@@ -289,7 +289,6 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     alignedFree(target);
     map.erase(target);
 
-    lock.unlock();
     Py_RETURN_NONE;
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
-- 
2.43.0


From 4fdea517856116d9bedfa6d11e7393529dc99621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 57/60] fix: freeing one ASM function made other functions on
 the same page non-executable

---
 pyfastutil/src/unsafe/ASM.cpp | 61 +++++++++++------------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index 4c486e4..bef2a81 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -12,7 +12,7 @@
 
 #include "windows.h"
 
-static auto map = ankerl::unordered_dense::map<void *, std::pair<size_t, DWORD>>();
+static auto map = ankerl::unordered_dense::map<void *, size_t>();
 static auto lock = std::mutex();
 
 #endif
@@ -195,27 +195,19 @@ static PyObject *ASM_makeFunction([[maybe_unused]] PyObject *__restrict self,
         return nullptr;
     }
 
-    unsigned char *__restrict target;
-    try {
-        target = (unsigned char *) alignedAlloc(size, 16);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_MemoryError, e.what());
+    // protection applies to whole pages, so every function has pages of its own
+    auto *__restrict target = (unsigned char *) VirtualAlloc(nullptr, size, MEM_COMMIT | MEM_RESERVE,
+                                                             PAGE_EXECUTE_READWRITE);
+    if (target == nullptr) {
+        PyErr_SetString(PyExc_MemoryError, "Failed to allocate executable memory.");
         return nullptr;
     }
     fast_memcpy(target, code, size);
 
-    DWORD oldProtect;
-    if (!VirtualProtect((LPVOID) target, size,
-                        PAGE_EXECUTE_READWRITE, &oldProtect)) {
-        PyErr_SetString(PyExc_OSError, "Failed to make ASM executable.");
-        alignedFree(target);
-        return nullptr;
-    }
-
     lock.lock();
 
     assert(map.find(target) == map.end());
-    map[target] = std::pair(size, oldProtect);
+    map[target] = size;
 
     lock.unlock();
     return PyLong_FromVoidPtr(target);
@@ -231,24 +223,16 @@ static PyObject *ASM_makeFunctionFast([[maybe_unused]] PyObject *__restrict self
     const auto *__restrict code = (const unsigned char *) PyBytes_AS_STRING(args[0]);
     const auto size = (size_t) PyBytes_GET_SIZE(args[0]) * sizeof(unsigned char);
 
-    unsigned char *__restrict target;
-    try {
-        target = (unsigned char *) alignedAlloc(size, 16);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_MemoryError, e.what());
+    // protection applies to whole pages, so every function has pages of its own
+    auto *__restrict target = (unsigned char *) VirtualAlloc(nullptr, size, MEM_COMMIT | MEM_RESERVE,
+                                                             PAGE_EXECUTE_READWRITE);
+    if (target == nullptr) {
+        PyErr_SetString(PyExc_MemoryError, "Failed to allocate executable memory.");
         return nullptr;
     }
     fast_memcpy(target, code, size);
 
-    DWORD oldProtect;
-    if (!VirtualProtect((LPVOID) target, size,
-                        PAGE_EXECUTE_READWRITE, &oldProtect)) {
-        PyErr_SetString(PyExc_OSError, "Failed to make ASM executable.");
-        alignedFree(target);
-        return nullptr;
-    }
-
-    map[target] = std::pair(size, oldProtect);
+    map[target] = size;
     return PyLong_FromVoidPtr(target);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
@@ -265,12 +249,10 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     }
 
     void *target = PyLong_AsVoidPtr(args[0]);
-    std::pair<size_t, DWORD> metadata;
-
     const std::lock_guard<std::mutex> guard(lock);
 
     try {
-        metadata = map.at(target);
+        (void) map.at(target);
     } catch (const std::out_of_range& e) {
         PyErr_SetString(
                 PyExc_ValueError,
@@ -278,15 +260,11 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
         return nullptr;
     }
 
-    size_t size = metadata.first;
-    DWORD oldProtect = metadata.second;
-
-    if (!VirtualProtect((LPVOID) target, size, oldProtect, &oldProtect)) {
-        PyErr_SetString(PyExc_OSError, "Failed to restore memory protection.");
+    if (!VirtualFree((LPVOID) target, 0, MEM_RELEASE)) {
+        PyErr_SetString(PyExc_OSError, "Failed to release the function's memory.");
         return nullptr;
     }
 
-    alignedFree(target);
     map.erase(target);
 
     Py_RETURN_NONE;
@@ -300,15 +278,12 @@ static PyObject *ASM_freeFunctionFast([[maybe_unused]] PyObject *__restrict self
                               PyObject *const *__restrict args, [[maybe_unused]] Py_ssize_t nargs) noexcept {
 #ifdef WINDOWS
     void *__restrict target = PyLong_AsVoidPtr(*args);
-    const std::pair<size_t, DWORD> metadata = map[(void *) target];
 
-    if (!VirtualProtect((LPVOID) target, metadata.first,
-                        metadata.second, (DWORD *) &(metadata.second))) {
-        PyErr_SetString(PyExc_OSError, "Failed to restore memory protection.");
+    if (!VirtualFree((LPVOID) target, 0, MEM_RELEASE)) {
+        PyErr_SetString(PyExc_OSError, "Failed to release the function's memory.");
         return nullptr;
     }
 
-    alignedFree(target);
     map.erase((void *) target);
 
     Py_RETURN_NONE;
-- 
2.43.0


From ab8a05fc6681efe63b39d7a7395efc756a1570b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 58/60] fix: an iterator made while ObjectLinkedList.__init__
 releases the old elements followed a stale position

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4882014..046afbf 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -89,6 +89,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                     PyObject *value = items[i];
                     self->list.push_back(value);
                     Py_INCREF(value);
+                    self->modCount++;
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
-- 
2.43.0


From 19a67012cb5f2bd5f1e828cb00796c7e60231c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 59/60] fix: Unsafe calloc, realloc, aligned_malloc, get and
 set truncated sizes and addresses beyond 64 bits

---
 pyfastutil/src/unsafe/Unsafe.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 342dbe9..aade7b9 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -23,6 +23,18 @@ static void Unsafe_dealloc(Unsafe *self) {
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
+/**
+ * Converter for PyArg_ParseTuple: an address or a size, refused (not truncated) if it does not fit.
+ */
+static int parseSize(PyObject *object, void *result) {
+    const size_t value = PyLong_AsSize_t(object);
+    if (value == static_cast<size_t>(-1) && PyErr_Occurred()) {
+        return 0;
+    }
+    *static_cast<size_t *>(result) = value;
+    return 1;
+}
+
 static PyObject *Unsafe_enter(PyObject *self, [[maybe_unused]] PyObject *args) {
     Py_INCREF(self);
     return self;
@@ -49,7 +61,7 @@ static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize
 
 static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t num, size;
-    if (!PyArg_ParseTuple(args, "KK", &num, &size)) {
+    if (!PyArg_ParseTuple(args, "O&O&", parseSize, &num, parseSize, &size)) {
         return nullptr;
     }
 
@@ -64,7 +76,7 @@ static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args)
 static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     size_t newSize;
-    if (!PyArg_ParseTuple(args, "KK", &address, &newSize)) {
+    if (!PyArg_ParseTuple(args, "O&O&", parseSize, &address, parseSize, &newSize)) {
         return nullptr;
     }
 
@@ -90,7 +102,7 @@ static PyObject *Unsafe_free([[maybe_unused]] PyObject *self, PyObject *pyAddres
 static PyObject *Unsafe_alignedMalloc([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t size;
     size_t alignment;
-    if (!PyArg_ParseTuple(args, "KK", &size, &alignment)) {
+    if (!PyArg_ParseTuple(args, "O&O&", parseSize, &size, parseSize, &alignment)) {
         return nullptr;
     }
     if (PyErr_Occurred()) {
@@ -118,7 +130,7 @@ static PyObject *Unsafe_alignedFree([[maybe_unused]] PyObject *self, PyObject *p
 static PyObject *Unsafe_get([[maybe_unused]] PyObject *self, PyObject *args) {
     uintptr_t address;
     Py_ssize_t size;
-    if (!PyArg_ParseTuple(args, "Kn", &address, &size)) {
+    if (!PyArg_ParseTuple(args, "O&n", parseSize, &address, &size)) {
         return nullptr;
     }
 
@@ -135,7 +147,7 @@ static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
     size_t address;
     PyObject *pyBytes;
 
-    if (!PyArg_ParseTuple(args, "KO", &address, &pyBytes)) {
+    if (!PyArg_ParseTuple(args, "O&O", parseSize, &address, &pyBytes)) {
         return nullptr;
     }
 
-- 
2.43.0


From 5f5d82d21b3ea58ada00535742035d9d67b12181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 60/60] fix: sequence slots of the lists take a negative index
 as out of range

PySequence_GetItem, PySequence_SetItem and PySequence_DelItem have added the
length already; adding it again made an index below -len reach an element.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 21 +++++++++++++++++++--
 pyfastutil/src/ints/IntArrayList.cpp        | 21 +++++++++++++++++++--
 pyfastutil/src/ints/IntLinkedList.cpp       | 21 +++++++++++++++++++--
 pyfastutil/src/objects/ObjectArrayList.cpp  | 21 +++++++++++++++++++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 21 +++++++++++++++++++--
 5 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7ba46de..0fddae9 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1363,13 +1363,30 @@ static struct PyModuleDef BigIntArrayList_module = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+// PySequence_GetItem and the like have added the length to a negative index already
+static PyObject *BigIntArrayList_sequence_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return nullptr;
+    }
+    return BigIntArrayList_getitem(pySelf, pyIndex);
+}
+
+static int BigIntArrayList_sequence_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return -1;
+    }
+    return BigIntArrayList_setitem(pySelf, pyIndex, pyValue);
+}
+
 static PySequenceMethods BigIntArrayList_asSequence = {
         BigIntArrayList_len,
         BigIntArrayList_add,
         BigIntArrayList_mul,
-        BigIntArrayList_getitem,
+        BigIntArrayList_sequence_getitem,
         nullptr,
-        BigIntArrayList_setitem,
+        BigIntArrayList_sequence_setitem,
         nullptr,
         BigIntArrayList_contains,
         BigIntArrayList_iadd,
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 572f16f..24adbe8 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1369,13 +1369,30 @@ static struct PyModuleDef IntArrayList_module = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+// PySequence_GetItem and the like have added the length to a negative index already
+static PyObject *IntArrayList_sequence_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return nullptr;
+    }
+    return IntArrayList_getitem(pySelf, pyIndex);
+}
+
+static int IntArrayList_sequence_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return -1;
+    }
+    return IntArrayList_setitem(pySelf, pyIndex, pyValue);
+}
+
 static PySequenceMethods IntArrayList_asSequence = {
         IntArrayList_len,
         IntArrayList_add,
         IntArrayList_mul,
-        IntArrayList_getitem,
+        IntArrayList_sequence_getitem,
         nullptr,
-        IntArrayList_setitem,
+        IntArrayList_sequence_setitem,
         nullptr,
         IntArrayList_contains,
         IntArrayList_iadd,
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 883a806..4345646 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -992,13 +992,30 @@ static struct PyModuleDef IntLinkedList_module = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+// PySequence_GetItem and the like have added the length to a negative index already
+static PyObject *IntLinkedList_sequence_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return nullptr;
+    }
+    return IntLinkedList_getitem(pySelf, pyIndex);
+}
+
+static int IntLinkedList_sequence_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return -1;
+    }
+    return IntLinkedList_setitem(pySelf, pyIndex, pyValue);
+}
+
 static PySequenceMethods IntLinkedList_asSequence = {
         IntLinkedList_len,
         IntLinkedList_add,
         IntLinkedList_mul,
-        IntLinkedList_getitem,
+        IntLinkedList_sequence_getitem,
         nullptr,
-        IntLinkedList_setitem,
+        IntLinkedList_sequence_setitem,
         nullptr,
         IntLinkedList_contains,
         IntLinkedList_iadd,
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 2ba8c2e..0093197 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1123,13 +1123,30 @@ static struct PyModuleDef ObjectArrayList_module = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+// PySequence_GetItem and the like have added the length to a negative index already
+static PyObject *ObjectArrayList_sequence_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return nullptr;
+    }
+    return ObjectArrayList_getitem(pySelf, pyIndex);
+}
+
+static int ObjectArrayList_sequence_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return -1;
+    }
+    return ObjectArrayList_setitem(pySelf, pyIndex, pyValue);
+}
+
 static PySequenceMethods ObjectArrayList_asSequence = {
         ObjectArrayList_len,
         ObjectArrayList_add,
         ObjectArrayList_mul,
-        ObjectArrayList_getitem,
+        ObjectArrayList_sequence_getitem,
         nullptr,
-        ObjectArrayList_setitem,
+        ObjectArrayList_sequence_setitem,
         nullptr,
         ObjectArrayList_contains,
         ObjectArrayList_iadd,
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 046afbf..f3e100b 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1086,13 +1086,30 @@ static struct PyModuleDef ObjectLinkedList_module = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+// PySequence_GetItem and the like have added the length to a negative index already
+static PyObject *ObjectLinkedList_sequence_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return nullptr;
+    }
+    return ObjectLinkedList_getitem(pySelf, pyIndex);
+}
+
+static int ObjectLinkedList_sequence_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
+    if (pyIndex < 0) {
+        PyErr_SetString(PyExc_IndexError, "index out of range.");
+        return -1;
+    }
+    return ObjectLinkedList_setitem(pySelf, pyIndex, pyValue);
+}
+
 static PySequenceMethods ObjectLinkedList_asSequence = {
         ObjectLinkedList_len,
         ObjectLinkedList_add,
         ObjectLinkedList_mul,
-        ObjectLinkedList_getitem,
+        ObjectLinkedList_sequence_getitem,
         nullptr,
-        ObjectLinkedList_setitem,
+        ObjectLinkedList_sequence_setitem,
         nullptr,
         ObjectLinkedList_contains,
         ObjectLinkedList_iadd,
-- 
2.43.0

