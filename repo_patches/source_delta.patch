From fae41254d522b613dd5906fae6169f0289d96498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/45] fix: TopK keeps the lower index when values tie in the
 partial selection

---
 src/Runtime/OMTopK.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..41b1544 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,24 +53,27 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // The heap keeps the "worst" element at the root: check if the left child is
+    // "worse" than the root. Comparing in the output order, rather than in the
+    // opposite direction, also ranks equal values: the one with the larger index
+    // is the worse one.
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-    comparison = compare(data, &heap[swap_idx], &heap[child]);
+    comparison = compare(data, &heap[child], &heap[swap_idx]);
 #else
-    comparison = compare(&heap[swap_idx], &heap[child], data);
+    comparison = compare(&heap[child], &heap[swap_idx], data);
 #endif
     if (comparison > 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-      comparison = compare(data, &heap[swap_idx], &heap[child + 1]);
+      comparison = compare(data, &heap[child + 1], &heap[swap_idx]);
 #else
-      comparison = compare(&heap[swap_idx], &heap[child + 1], data);
+      comparison = compare(&heap[child + 1], &heap[swap_idx], data);
 #endif
       if (comparison > 0) {
         swap_idx = child + 1;
@@ -145,19 +148,15 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
     return;
   }
 
-  // 1. Get the heap comparator.
-  // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
-  // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
+  // 1. Get the comparator of the output order ("better" elements first).
+  // The heap uses it to keep the "worst" of the K elements at its root.
+  compareFunctionType *heapCompare = getCompareFunction(ascending, dataType);
   if (!heapCompare)
     return; // Unsupported data type
 
   // 2. Get the loop comparator.
   // This checks if a new element is "better" than the heap root.
-  // This uses the correct ascending direction.
-  compareFunctionType *loopCompare = getCompareFunction(ascending, dataType);
+  compareFunctionType *loopCompare = heapCompare;
 
   // 3. Get the final sort comparator (same as loop).
   compareFunctionType *sortCompare = loopCompare;
-- 
2.43.0


From fec9f0e4d0688d8b3e386dffed0ad8d1f1f74963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 02/45] fix: Unique along an axis works when Y is wanted but
 indices are not

---
 src/Runtime/OMUnique.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..10b7822 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -265,8 +265,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -274,11 +274,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -406,7 +401,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 6bb71fcda68cc2fdcc8718a895f42519b96ae0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/45] fix: Unique sorts slices lexicographically in row-major
 order, as ONNX does

---
 src/Runtime/OMUnique.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 10b7822..3b5f9f4 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -164,16 +164,17 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
     shapeInUniqueAxis[i] = (i == sliceAxis) ? 1 : inputShape[i];
     strides[i] = inputStrides[i];
   }
-  // Gather all data in the slice
+  // Gather all data in the slice, in row-major order: slices are sorted
+  // lexicographically by their elements in that order.
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From 9f3312dc007aa752396230191f1dc7f99865fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 04/45] fix: Unique treats positive and negative floating point
 zeros as one value

---
 src/Runtime/OMUnique.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 3b5f9f4..e426680 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,6 +119,36 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
+// Check if two numbers have the same value. Numbers are the same when their bits
+// are; floating point zeros are also the same value whatever their sign.
+static int isEqualNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
+  switch (dataType) {
+  case ONNX_TYPE_FLOAT:
+    if (*((float *)arg1) == *((float *)arg2))
+      return 1;
+    break;
+  case ONNX_TYPE_DOUBLE:
+    if (*((double *)arg1) == *((double *)arg2))
+      return 1;
+    break;
+  default:
+    break;
+  }
+  return !memcmp(arg1, arg2, getDataTypeSize(dataType));
+}
+
+// Check if all the numbers of two slices have the same values
+static int isEqualSlice(
+    void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  assert(dataSize > 0); // Test for unsupported types.
+  for (uint64_t i = 0; i < elemSize; i += dataSize) {
+    if (!isEqualNum(((char *)elem1) + i, ((char *)elem2) + i, dataType))
+      return 0;
+  }
+  return 1;
+}
+
 // Check if
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
@@ -128,7 +158,7 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isEqualNum(num1, num2, dataType)) // if num1 != num2
       return isLessNum(num1, num2, dataType);
   }
   return 0;
@@ -218,7 +248,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isEqualSlice(
+            sliceInTable, slice, sliceSizeInBytes, table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From f0664d01a3617beca867a4763b5f45df2ff19e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 05/45] fix: look up int64 categories of 19 digits with a sign
 without truncating them

---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..61cbba0 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[21]; // Longest value: sign, 19 digits and terminating null.
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From b0ff581a760b83fdfdf27073447737e459a0ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 06/45] fix: building the category table terminates when seeds
 alone cannot separate keys

---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 11 ++++++++++-
 src/Runtime/OMIndexLookup.c               |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..9c51cb1 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -29,15 +29,24 @@ namespace onnx_mlir {
 
 class Utilities {
 public:
-  // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
+  // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string. The low bits
+  // of FNV only depend on the low bits of the seed and of the characters, so that
+  // some keys (e.g. any two in the same bucket of a table of size 2) collide for
+  // every seed: from a seed on, finish by mixing all the bits (murmur3).
   static inline uint32_t hash(uint32_t hval, llvm::StringRef str) {
     constexpr uint32_t prime = 0x01000193;
+    const bool mix = hval > 64;
     hval = (hval == 0) ? prime : hval;
 
     for (const char c : str) {
       hval *= prime;
       hval ^= c;
     }
+    if (mix) {
+      hval = (hval ^ (hval >> 16)) * 0x85ebca6b;
+      hval = (hval ^ (hval >> 13)) * 0xc2b2ae35;
+      hval ^= hval >> 16;
+    }
     return hval;
   }
 
diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 61cbba0..7b4a4c9 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -17,9 +17,11 @@
 #include <stdio.h>
 #include <string.h>
 
-// Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
+// Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string. Must agree
+// with the hash in PerfectHash.cpp, see there about mixing.
 static inline uint32_t hash_string(uint32_t hval, const char *str) {
   uint32_t prime = 0x01000193;
+  int mix = hval > 64;
   hval = (hval == 0) ? prime : hval;
 
   int32_t len = strlen(str);
@@ -28,6 +30,11 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
     hval *= prime;
     hval ^= c;
   }
+  if (mix) {
+    hval = (hval ^ (hval >> 16)) * 0x85ebca6b;
+    hval = (hval ^ (hval >> 13)) * 0xc2b2ae35;
+    hval ^= hval >> 16;
+  }
   return hval;
 }
 
-- 
2.43.0


From ae23c700ef3b15189eb82c3b5683eac33e78b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:00 +0000
Subject: [PATCH 07/45] fix: converting double to half rounds once

---
 src/Runtime/OMTensor.inc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..a1a4e8e 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -67,7 +67,20 @@ float __extendhfsf2(uint16_t a) { return om_f16_to_f32(a); }
 float __gnu_h2f_ieee(uint16_t a) { return om_f16_to_f32(a); }
 uint16_t __gnu_f2h_ieee(float a) { return om_f32_to_f16(a); }
 uint16_t __truncsfhf2(float a) { return om_f32_to_f16(a); }
-uint16_t __truncdfhf2(double a) { return om_f32_to_f16(a); }
+uint16_t __truncdfhf2(double a) {
+  // Narrowing to float first and then to f16 would round twice. Round the
+  // float to odd instead: then the second rounding gives the correct result.
+  float f = (float)a;
+  if (a == a && (double)f != a) {
+    uint32_t bits;
+    memcpy(&bits, &f, sizeof(bits));
+    if (a < 0 ? (double)f < a : (double)f > a)
+      --bits; // rounded away from zero
+    bits |= 1;
+    memcpy(&f, &bits, sizeof(f));
+  }
+  return om_f32_to_f16(f);
+}
 
 struct OMTensor {
 #ifdef __cplusplus
-- 
2.43.0


From faf4269cb981121d386cddf25c0737f27e4f4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 08/45] fix: Resize in the run-time library handles tensors of
 any rank

---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From 57e2094fa6bb47739c7553f56bb683eba49cc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 09/45] fix: RandomNormal in double precision honours its seed

---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From 4ce4b3a8fc5412f81f54eceb6a3a57cceb619020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 10/45] fix: instrumentation reports after-only points and no
 bogus after for before-only ones

---
 src/Runtime/OMInstrument.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..adc2b89 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
-- 
2.43.0


From 5c152c4d82a5f1372c107056dcb5c1f8db31da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 11/45] fix: instrumentation keeps every point when the same
 operation runs repeatedly

---
 src/Runtime/OMInstrument.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index adc2b89..08a0b68 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -262,8 +262,11 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag) &&
+      !IS_INSTRUMENT_BEFORE_OP(tag)) {
+    // An after point following its before point: can reuse entry, or the tags
+    // so we have bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From 8e156632f36833c15ad8652f0c5a2b4ba5c9eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 12/45] fix: unloading external constants forgets their address

---
 src/Runtime/OMExternalConstant.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..2efa7cf 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,7 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From b29b31e9786ac62d7f9a129b804eb23ad1acf4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 13/45] fix: a failed read of external constants leaves no
 freed buffer behind

---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 2efa7cf..e917df4 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -229,6 +229,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -236,6 +237,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From 62e4c316e1e6145a3307dc09d1d29557378b17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 14/45] fix: loading external constants fails if the file is
 too short

---
 src/Runtime/OMExternalConstant.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index e917df4..8c34dee 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -262,6 +262,14 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Pages past the end of the file would only fail when accessed.
+  struct stat st;
+  if (fstat(fd, &st) < 0 || st.st_size < fileSize) {
+    fprintf(stderr, "Constant file is shorter than %lld bytes\n",
+        (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From f96bb6a050d498a055d047ffb72d3525cb1568ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 15/45] fix: number the runtime data types as ONNX does
 (FLOAT8E5M2FNUZ was missing)

---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..be4e24f 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -38,10 +38,11 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_BFLOAT16,       16, 2,                "bfloat16",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FN,   17, 1,                "FLOAT8E4M3FN",    "f8e4m3fn",   "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FNUZ, 18, 1,                "FLOAT8E4M3FNUZ",  "f8e4m3fnuz", "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2,     19, 1,                "FLOAT8E5M2",      "f8e5m2",     "")           /* No C/C++ name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          20, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           21, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2FNUZ, 20, 1,                "FLOAT8E5M2FNUZ",  "f8e5m2fnuz", "")           /* No C/C++ name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          21, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           22, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
 
-OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           21, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           22, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
 // clang-format on
 #else
 #error "Must define OM_TYPE_METADATA_DEF macro."
-- 
2.43.0


From abb145d104c1f8b8a596d30f68740b15b6480664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 16/45] fix: widen a dense bool to 0 or 1, not to -1

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 5 +++--
 src/Dialect/ONNX/Transforms/ConstProp.cpp            | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..c7912e8 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -29,7 +29,8 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(elms.getSplatValue<APInt>(),
+        isSignedIntBType(btypeOfMlirType(itype)));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +45,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isSignedIntBType(btypeOfMlirType(itype));
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index dfa51dc..b4e08d4 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -196,7 +196,7 @@ WideNum getScalarNum(Value constValue) {
     return WideNum::fromAPFloat(f);
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
     APInt i = *elements.value_begin<APInt>();
-    return WideNum::fromAPInt(i, !itype.isUnsigned());
+    return WideNum::fromAPInt(i, isSignedIntBType(btypeOfMlirType(itype)));
   } else {
     llvm_unreachable("Only integer and float types are supported");
   }
-- 
2.43.0


From 394c188dc1e4bb61e77d2cc598fc3c448d834ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 17/45] fix: constant folding of ScatterND accepts negative
 indices

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..82fd0c1 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -823,8 +823,12 @@ ElementsAttr ElementsAttrBuilder::scatterND(
     ArrayBuffer<int64_t> indicesBuffer = getElementsArray<int64_t>(indices);
     const int64_t *indicesIter = indicesBuffer.get().begin();
     for (int64_t i = 0; i < n_slices; ++i) {
-      ArrayRef<uint64_t> idxs =
-          castArrayRef<uint64_t>(ArrayRef(indicesIter, indices_nd));
+      // Negative indices count from the end of the axis.
+      SmallVector<uint64_t, 4> idxs;
+      for (int64_t axis = 0; axis < indices_nd; ++axis) {
+        int64_t idx = indicesIter[axis];
+        idxs.push_back(idx < 0 ? idx + inputShape[axis] : idx);
+      }
       int64_t pos = getStridesPosition(idxs, sliceStrides);
       for (int64_t j = 0; j < slice_size; ++j) {
         dst[pos] = updatesData.get()[updatesIter->at(0)];
-- 
2.43.0


From 1d79da47e1cb434eccb44b6b66f165ac959275c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 18/45] fix: constant folding of NonZero on a scalar divides by
 zero

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp  | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 82fd0c1..9aa02ca 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1092,29 +1092,33 @@ namespace {
 // Returns indices with non-zero values. The indices are placed back to back,
 // lexicographically sorted. Can be viewed as a [count, rank] shaped matrix
 // linearized in row-major order, where rank is the rank of elms' shape and
-// count is the number of non-zero values. AP_TYPE should be APFloat or APInt.
+// count is the number of non-zero values, also for a scalar whose rank is
+// zero. AP_TYPE should be APFloat or APInt.
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
+SmallVector<int64_t> nonZeroIndices(ElementsAttr elms, int64_t &count) {
   SmallVector<int64_t> indices;
+  count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count;
+    }
   }
   return indices;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
+  int64_t count;
   SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+                                     ? nonZeroIndices<APFloat>(elms, count)
+                                     : nonZeroIndices<APInt>(elms, count);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
+  assert(static_cast<int64_t>(indices.size()) == count * rank);
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From 6422f504420f2a86e2e1a79c5f08be338ff30f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 19/45] fix: constant folding of Split along an empty axis
 divides by zero

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 9aa02ca..377fb32 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -569,8 +569,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
   auto type = elms.getShapedType();
   auto shape = type.getShape();
   assert(axis < shape.size());
-  auto axisSize = shape[axis];
-  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == axisSize);
+  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == shape[axis]);
   if (sizes.empty()) {
     return {};
   }
@@ -583,7 +582,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
-- 
2.43.0


From e1c627e6395be761357e8182b3f6603af16d4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 20/45] fix: a cast of a bool constant to a signed integer
 needs a transformation

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 377fb32..c4a9b2e 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,7 +404,9 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    bool wasUnsigned =
+        oldElementType.isUnsignedInteger() || oldElementType.isInteger(1);
+    if (newElementType.isUnsigned() != wasUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From 316cb4e2a4bcd54f147d49dfc138607c56714032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 21/45] fix: elements of an unsigned 16-bit constant can be
 iterated

---
 src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
index cabfe58..3200d39 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
+++ b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
@@ -191,7 +191,7 @@ public:
   // because of strides and the possibility that bufferBType != btype.
   using NonContiguousIterableTypesT =
       std::tuple<Attribute, IntegerAttr, FloatAttr, APInt, APFloat, WideNum,
-          bool, int8_t, uint8_t, int16_t, int8_t, int32_t, uint32_t, int64_t,
+          bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t,
           uint64_t, onnx_mlir::float_16, onnx_mlir::bfloat_16, float, double>;
 
   // An underlying iota_range sequence iterator returns size_t flat indices
-- 
2.43.0


From 06559e5c2bc3c9e6378f75417ebceba749ffc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 22/45] fix: only -o, not every option starting with -o, names
 the output

getOutputBasenameFromFlags took the word after options such as
-onnx-op-stats=TXT or -ops-for-call=Conv for the output name.
---
 src/Compiler/CommandUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..1dd400e 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -90,7 +90,7 @@ static std::string getOutputBasenameFromFlags(
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
-- 
2.43.0


From c8aa2dcf962c89c2285c5d73168441f107333418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:41 +0000
Subject: [PATCH 23/45] fix: a child that cannot execute its command must not
 run the parent's exit handlers

With exit, buffered output of the parent (such as the verbose line printed just
before the fork) was written twice, and handlers ran in the child.
---
 src/Compiler/Command.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..d6efcad 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -246,14 +246,15 @@ int Command::exec(const std::string &wdir) {
     // This is most likely due to the fact that either the onnx-mlir library was
     // not installed a the default place, or that the PATH environment variable
     // does not include a path to the desired onnx-mlir bin directory.
+    // Use _exit: the exit handlers and the buffered output belong to the parent.
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
-- 
2.43.0


From 62ad3e6f4ae8469b1b7f0ea2d5418555d90512bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:41 +0000
Subject: [PATCH 24/45] fix: wait for a command again when interrupted and
 report failures

The status of an interrupted or failed waitpid was read uninitialised.
---
 src/Compiler/Command.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index d6efcad..8fbc8c9 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -259,8 +259,11 @@ int Command::exec(const std::string &wdir) {
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -271,6 +274,9 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  if (waited == -1)
+    throw CommandException("Failed to wait for command '" + path + "'");
+
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From e774ce1795f20268f2661e62e716b871a413b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 25/45] fix: look for the constant file next to the output of
 the compiler

It was looked up in the current directory, and its name was not absolute.
---
 src/Compiler/OMCompile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..d2b1e55 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -676,8 +676,9 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  // Same directory and name as the output, as an absolute path.
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 947ab190f3a367d4a0d4433782e3b7dc3bd00b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 26/45] fix: quote the words of the command line run by the
 container's shell

Spaces, quotes and other special characters in flags and model names were
interpreted by the shell, so the compiler got other words than in local mode.
---
 src/Compiler/OMCompile.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index d2b1e55..5dbd403 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -503,22 +503,26 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   std::ostringstream cmdStream;
   cmdStream << compilerPathInContainer;
 
-  // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
+  // Quote a word such that the shell takes it literally.
+  auto quote = [](const std::string &word) {
+    std::string quoted = "'";
+    for (char c : word) {
+      if (c == '\'')
+        quoted += "'\\''";
+      else
+        quoted += c;
     }
-    cmdStream << " " << escapedFlag;
-  }
+    return quoted + "'";
+  };
+
+  // Add flags.
+  for (const auto &flag : flagVect)
+    cmdStream << " " << quote(flag);
 
   // Add input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+  cmdStream << " " << quote(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
-- 
2.43.0


From 2c9f089bcec57c877146e0ce935ccb2e10b555e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 27/45] fix: predict the output name of a model named in the
 flags

With an output path, predictOutputFilename ignored an input file given in the
flags and predicted a file without a name.
---
 src/Compiler/OMCompile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 5dbd403..83221de 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -769,8 +769,9 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &modelPath, const std::string &flags,
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
-  // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  // Apply the output path as needed, as compile() does.
+  onnx_mlir::applyOutputPath(flagVect, outputPath,
+      onnx_mlir::getInputFilename(modelPath, flagVect));
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From bb086af374e880b2c1160aeca7c5cb8898978d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 28/45] fix: resolve relative paths in a container from the
 current directory

Without a working directory, a relative output name was written inside the
container's image and the compilation was reported as failed.
---
 src/Compiler/OMCompile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 83221de..c1d0d37 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -556,6 +556,10 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
     cmd->appendStr(hostOutputDir + ":" + outputDir + ":rw");
   }
 
+  // Relative paths in the flags are relative to the current directory.
+  cmd->appendStr("-w");
+  cmd->appendStr(fs::current_path().string());
+
   // Specify the image.
   cmd->appendStr(containerImage);
 
-- 
2.43.0


From 49fc6daaef7872a8288063bc5d91762f2fe56b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:29 +0000
Subject: [PATCH 29/45] fix: pass a model named in the flags to the container's
 compiler only once

---
 src/Compiler/OMCompile.cpp | 13 ++++++++-----
 src/Compiler/OMCompile.hpp |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index c1d0d37..417f9a0 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -479,8 +479,9 @@ std::unique_ptr<Command> OMCompile::createLocalCompileCommand(
 }
 
 std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
-    const std::vector<std::string> &flagVect, const std::string &inputFilename,
-    const std::string &modelDir, const std::string &outputDir) {
+    const std::string &modelPath, const std::vector<std::string> &flagVect,
+    const std::string &inputFilename, const std::string &modelDir,
+    const std::string &outputDir) {
 
   // Container Mode: Docker/Podman run with volume mounts.
   // Note: When running in Docker-in-Docker (DinD), paths are automatically
@@ -519,10 +520,12 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   for (const auto &flag : flagVect)
     cmdStream << " " << quote(flag);
 
-  // Add input file (using container path - same as modelDir).
+  // Add input file (using container path - same as modelDir), unless it is
+  // already among the flags.
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << quote(containerInputPath);
+  if (!modelPath.empty())
+    cmdStream << " " << quote(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
@@ -639,7 +642,7 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
     cmd = std::move(localCmd);
   } else {
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        modelPath, flagVect, inputFilename, modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
diff --git a/src/Compiler/OMCompile.hpp b/src/Compiler/OMCompile.hpp
index c1ae2c7..bea1b1f 100644
--- a/src/Compiler/OMCompile.hpp
+++ b/src/Compiler/OMCompile.hpp
@@ -402,7 +402,7 @@ private:
       const std::string &inputFilename);
 
   std::unique_ptr<Command> createContainerCompileCommand(
-      const std::vector<std::string> &flagVect,
+      const std::string &modelPath, const std::vector<std::string> &flagVect,
       const std::string &inputFilename, const std::string &modelDir,
       const std::string &outputDir);
 };
-- 
2.43.0


From e84f23ac79bd655cd04b4e5d90a4ede35b69380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 30/45] fix: an execution session without a model has no
 library to close

The handle was left uninitialized by the default constructor, and the
destructor closed it.
---
 src/Runtime/ExecutionSession.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..cd2c988 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
-- 
2.43.0


From 5608c3b1e89a6dd242a55038f412d9d9c4bd5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 31/45] fix: a session knows the path of the model it loaded
 after construction

---
 src/Runtime/ExecutionSession.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..9ce385a 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -211,6 +211,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   }
 
   // Successful completion of initialization.
+  this->sharedLibPath = sharedLibPath;
   isInitialized = true;
 
   // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-- 
2.43.0


From 6a14791b818bc1390b0d914b14871312e3b2398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 32/45] fix: entry point names are C strings

The model returns a null-terminated array of C strings, which was cast to an
array of std::string: using any element was undefined.
---
 src/Runtime/ExecutionSession.cpp | 5 ++---
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 9ce385a..0df7a5b 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -243,13 +243,12 @@ ExecutionSession::~ExecutionSession() {
 // =============================================================================
 // Setter and getter.
 
-const std::string *ExecutionSession::queryEntryPoints(
+const char **ExecutionSession::queryEntryPoints(
     int64_t *numOfEntryPoints) const {
   if (!isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once.");
-  return reinterpret_cast<const std::string *>(
-      _queryEntryPointsFunc(numOfEntryPoints));
+  return _queryEntryPointsFunc(numOfEntryPoints);
 }
 
 void ExecutionSession::setEntryPoint(const std::string &entryPointName) {
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index cd2c988..d528b94 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -85,7 +85,7 @@ public:
   // For example {"run_addition, "run_subtraction", NULL}
   // In order to get the number of entry points, pass an integer pointer to the
   // function.
-  const std::string *queryEntryPoints(int64_t *numOfEntryPoints) const;
+  const char **queryEntryPoints(int64_t *numOfEntryPoints) const;
 
   // Set entry point for this session.
   // Call this before running the session or querying signatures if
-- 
2.43.0


From af5f707f5fa9e12628f29885d4ba5b42e37f68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 33/45] fix: restore each signal handler after a guarded run

The old action of SIGABRT overwrote the one of SIGILL, so SIGILL got the
handler of SIGABRT, and SIGABRT was not restored after a signal.
---
 src/Runtime/ExecutionSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 0df7a5b..b0759c8 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -435,7 +435,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -448,7 +448,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -469,7 +469,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -483,6 +483,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
-- 
2.43.0


From f18349c97ea118b1df3d7f7f0bc7e8478ce48de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 34/45] fix: a caught signal does not stay blocked

longjmp left the signal blocked, so that the next crash in a guarded run
terminated the process.
---
 src/Runtime/ExecutionSession.cpp | 9 +++++----
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index b0759c8..39b7a9f 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -456,8 +456,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
 
   OMTensorList *output = nullptr;
 
-  // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  // Set up the jump point for signal handler. Save the signal mask because the
+  // signal is blocked while it is handled.
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask=*/1);
 
   if (signum == 0) {
     // First time through - run the inference
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index d528b94..a43c25b 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 176a86073788cfd9558c4c0e8aab110cdb9d70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:30 +0000
Subject: [PATCH 35/45] fix: a failed load leaves neither the library open nor
 OM_CONSTANT_PATH set

A model loaded next then looked for its constants in the wrong directory, and a
session whose default entry point is missing could not load another model.
---
 src/Runtime/ExecutionSession.cpp | 37 +++++++++++++++++++++-----------
 src/Runtime/ExecutionSession.hpp |  3 +++
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 39b7a9f..3cdc660 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -78,7 +78,24 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
   // this before dlopen since OM_CONSTANT_PATH is used by constructors.
-  bool setOMConstantPath = false;
+  // Unset it on every exit to avoid conflict with the load of another model. On
+  // failure, close the library too.
+  struct Cleanup {
+    ExecutionSession &session;
+    bool setOMConstantPath = false;
+    bool loaded = false;
+    ~Cleanup() {
+      if (setOMConstantPath) {
+#if defined(_WIN32)
+        _putenv_s("OM_CONSTANT_PATH", "");
+#else
+        unsetenv("OM_CONSTANT_PATH");
+#endif
+      }
+      if (!loaded)
+        session.unloadModel();
+    }
+  } cleanup{*this};
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
     if (found != std::string::npos) {
@@ -88,7 +105,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 #else
       setenv("OM_CONSTANT_PATH", basePath.c_str(), /*overwrite=*/0);
 #endif
-      setOMConstantPath = true;
+      cleanup.setOMConstantPath = true;
     }
   }
 
@@ -214,23 +231,16 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   this->sharedLibPath = sharedLibPath;
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
+  cleanup.loaded = true;
   errno = 0; // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+void ExecutionSession::unloadModel() {
+  isInitialized = false;
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
@@ -238,8 +248,11 @@ ExecutionSession::~ExecutionSession() {
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
 #endif
+  _sharedLibraryHandle = DynamicLibraryHandleType{};
 }
 
+ExecutionSession::~ExecutionSession() { unloadModel(); }
+
 // =============================================================================
 // Setter and getter.
 
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index a43c25b..27397e0 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -186,6 +186,9 @@ protected:
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
 private:
+  // Close the library, if any. The session can then load another model.
+  void unloadModel();
+
   // Run with without signal handler.
   OMTensorList *runWithoutSignalHandler(OMTensorList *input);
 
-- 
2.43.0


From 9ab2d40833d87205f0e6fdc897f9bfd7b08e6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:42 +0000
Subject: [PATCH 36/45] fix: do not run a model without its list of inputs

When the list could not be allocated, the model was called with a null
pointer.
---
 src/Runtime/ExecutionSession.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 3cdc660..5fb8a99 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -361,6 +361,8 @@ std::vector<OMTensorUniquePtr> ExecutionSession::run(
     omts.emplace_back(inOmt.get());
   auto *wrappedInput =
       omTensorListCreate(omts.data(), static_cast<int64_t>(omts.size()));
+  if (!wrappedInput)
+    throw ExecutionSessionException(reportErrnoError());
 
   // Run inference.
   errno = 0; // Clear errno.
-- 
2.43.0


From 1e664de876babbaed3b8e067533837825150267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 37/45] fix: random values of unsigned types with bounds above
 the signed range

The bounds of uint32 and uint64 were converted to int32 and int64, giving
bounds in the wrong order.
---
 src/Runtime/OMTensorHelper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..95bb06a 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -61,14 +61,15 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
     return;
   }
   if constexpr (std::is_integral<T>::value) {
+    // Distributions are not defined for bool and 8-bit integers.
     if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
+      using D = std::conditional_t<std::is_signed<T>::value, int32_t, uint32_t>;
+      std::uniform_int_distribution<D> dis(
+          static_cast<D>(lbound), static_cast<D>(ubound));
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
+      std::uniform_int_distribution<T> dis(lbound, ubound);
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     }
-- 
2.43.0


From 92887ab61fb4987f2044e3e4acc58b60aafd188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 38/45] fix: a random number of ones does not exceed an empty
 row

One element was written into each row of size 0.
---
 src/Runtime/OMTensorHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 95bb06a..f7e79b4 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -247,7 +247,9 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0)
+                    ? std::min(dist(omRandomGenerator), innerDim)
+                    : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 8f79a71d95d8aa42f3c81b46d84abc3990530f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 39/45] fix: refuse random inputs whose lower bound exceeds the
 upper bound

For example min20 alone, with the default upper bound of 10, gave values out of
both bounds or overflowed the stack.
---
 src/Runtime/OMTensorListHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..a898155 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -534,6 +534,12 @@ OMTensorList *omTensorListCreateFromInputSignature(
     }
     double lo = vspec.hasMin ? vspec.minVal : lb[entry.type];
     double hi = vspec.hasMax ? vspec.maxVal : ub[entry.type];
+    if (!vspec.hasSoz && !(lo <= hi)) {
+      reportFailure("Lower bound " + std::to_string(lo) +
+                    " exceeds upper bound " + std::to_string(hi) +
+                    " for input " + std::to_string(i));
+      return abortWithCleanup(i);
+    }
     if (vspec.hasSoz)
       tensor = omTensorCreateSozData(entry.dims, entry.type, vspec.sozCount);
     else
-- 
2.43.0


From be8061c5ec17f9b22c76d1a704a9a570188a23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 40/45] fix: a signature entry without a type is an error

Its type was uninitialized.
---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index a898155..d87445e 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -272,7 +272,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
@@ -349,6 +349,8 @@ static bool parseSignatureInfo(
         parseJsonStr(s, tmp);
       }
     }
+    if (entry.type == ONNX_TYPE_UNDEFINED)
+      return false;
     entries.push_back(std::move(entry));
   }
   return !entries.empty();
-- 
2.43.0


From e74643e156e730b318ebd612cb50060f03db0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 41/45] fix: release the tensors when their list cannot be
 created

---
 src/Runtime/OMTensorListHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index d87445e..afe2e45 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -568,6 +568,8 @@ OMTensorList *omTensorListCreateFromInputSignature(
   }
 
   OMTensorList *list = omTensorListCreate(inputTensors, inputNum);
+  if (!list)
+    return abortWithCleanup(inputNum);
   free(inputTensors);
   return list;
 }
-- 
2.43.0


From 1e9d0e8dac93e8b10d6a4bb73e8a75f56325ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 42/45] fix: outputs that share a buffer free it only once

---
 src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
index c517820..2e7981d 100644
--- a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
+++ b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
@@ -124,6 +124,13 @@ static bool shouldOwn(Value v) {
   return result;
 }
 
+// Return the value whose storage is seen through the views leading to v.
+static Value getViewedStorage(Value v) {
+  while (auto viewOp = v.getDefiningOp<ViewLikeOpInterface>())
+    v = viewOp.getViewSource();
+  return v;
+}
+
 void determineOwnershipForOutputOMTensors(
     ModuleOp &module, SmallVectorImpl<bool> &outputOMTensorOwnerships) {
   Operation *entryPointOp;
@@ -169,9 +176,12 @@ void determineOwnershipForOutputOMTensors(
   });
 
   // Check, for each output, if it was transitively produced by a constant or
-  // a block argument.
+  // a block argument. When several outputs share the same storage, only the
+  // first one owns it, so that the storage is freed only once.
+  llvm::SmallPtrSet<Value, 4> ownedStorages;
   for (Value v : returnOp->getOperands()) {
-    bool shouldOwnResult = shouldOwn(v);
+    bool shouldOwnResult =
+        shouldOwn(v) && ownedStorages.insert(getViewedStorage(v)).second;
     outputOMTensorOwnerships.emplace_back(shouldOwnResult);
     LLVM_DEBUG(llvm::dbgs()
                << "Should the OMTensor own the entry function output? "
-- 
2.43.0


From 107de2d149cc18240fbe733a14c0aea479d5a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:18 +0000
Subject: [PATCH 43/45] fix: dilated pooling reads the right elements

---
 src/Conversion/ONNXToKrnl/NN/Pooling.cpp | 20 +++++---------------
 src/Dialect/ONNX/ONNXOps/OpHelper.cpp    | 13 +++++++++----
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/NN/Pooling.cpp b/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
index 9e02a2b..b0f2da4 100644
--- a/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
+++ b/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
@@ -350,7 +350,7 @@ struct ONNXPoolOpLowering : public OpConversionPattern<PoolOp> {
           //   firstValidH = ceil(float(ptH / dH)) * dH - ptH
           //   startH = max(firstValidH, ho * sH - ptH)
           //   endH = min(H, ho * sH + (kH - 1) * dH  + 1 - pbH)
-          //   hDim = round(float(endH - startH) / float(dH))
+          //   hDim = ceil(float(endH - startH) / float(dH))
 
           // Prepare induction variables.
           SmallVector<SmallVector<IndexExpr, 4>, 4> IVExprs;
@@ -385,25 +385,15 @@ struct ONNXPoolOpLowering : public OpConversionPattern<PoolOp> {
           }
 
           // Compute the size of the full conv window.
-          //   hDim = round(float(endH - startH) / float(dH))
-          //   wDim = round(float(endW - startW) / float(dW))
+          //   hDim = ceil(float(endH - startH) / float(dH))
+          //   wDim = ceil(float(endW - startW) / float(dW))
           SmallVector<Value, 4> fullWindowSize;
           for (int i = 0; i < kernelShapeSize; ++i) {
             Value dim = create.math.sub(
                 windowEndExprs[i].getValue(), windowStartExprs[i].getValue());
             if (isDilated) {
-              Value one = create.math.constantIndex(1);
-              Value numerator = create.math.add(dim, one);
-              Value denominator = IVExprs[i][5].getValue(); // dilations[i]
-              dim = create.math.div(numerator, denominator);
-              if (ceilMode) {
-                auto remainder = arith::RemSIOp::create(
-                    rewriter, loc, numerator, denominator);
-                Value zero = create.math.constantIndex(0);
-                Value isZero = create.math.eq(remainder, zero);
-                Value dimPlusOne = create.math.add(dim, one);
-                dim = create.math.select(isZero, dim, dimPlusOne);
-              }
+              Value dilation = IVExprs[i][5].getValue(); // dilations[i]
+              dim = create.math.ceilDiv(dim, dilation);
             }
             fullWindowSize.emplace_back(dim);
           }
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
index 1a2ce9d..ef19f99 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
@@ -302,6 +302,11 @@ std::vector<IndexExpr> getIndexExprsForConvWindow(
 
   IndexExpr start1 = (padTopDim).ceilDiv(dilationDim) * dilationDim - padTopDim;
   IndexExpr start2 = outputIndex * strideDim - padTopDim;
+  if (isDilated) {
+    // The first valid pixel depends on where the window starts.
+    IndexExpr zero = LitIE(0);
+    start1 = start2 + (zero - start2).ceilDiv(dilationDim) * dilationDim;
+  }
   IndexExpr end1 = inputDim;
   IndexExpr end2 =
       outputIndex * strideDim + (kernelDim - 1) * dilationDim + 1 - padTopDim;
@@ -335,6 +340,8 @@ AffineMap getWindowAffineMap(Builder &builder, bool ceilMode, bool isDilated) {
   AffineExpr start1 =
       (padTopDim).ceilDiv(dilationDim) * dilationDim - padTopDim;
   AffineExpr start2 = outputIndex * strideDim - padTopDim;
+  if (isDilated)
+    start1 = start2 + (-start2).ceilDiv(dilationDim) * dilationDim;
   AffineExpr end1 = inputDim;
   AffineExpr end2 =
       outputIndex * strideDim + (kernelDim - 1) * dilationDim + 1 - padTopDim;
@@ -352,10 +359,8 @@ AffineMap getWindowAffineMap(Builder &builder, bool ceilMode, bool isDilated) {
   AffineExpr dimExpr3 = end2 - start1;
   AffineExpr dimExpr4 = end2 - start2;
   for (AffineExpr de : {dimExpr1, dimExpr2, dimExpr3, dimExpr4}) {
-    if (isDilated) {
-      de = de + 1;
-      de = (ceilMode) ? de.ceilDiv(dilationDim) : de.floorDiv(dilationDim);
-    }
+    if (isDilated)
+      de = de.ceilDiv(dilationDim);
     dimExpr.emplace_back(de);
   }
   windowDimMap = AffineMap::get(1, 5, dimExpr, builder.getContext());
-- 
2.43.0


From 7caaa5035dc4d3a840f7247133c4bd6d52428bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:18 +0000
Subject: [PATCH 44/45] fix: keep the element type of a cast moved before a
 transpose

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 52f0225..367641a 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -592,25 +592,29 @@ def FuseTransposePattern:  Pat<
   // Transpose with combined pattern.
   (ONNXTransposeOp $v, (CreateCombinedTransposedPattern $p1, $p2))>;
 
+// Type with the shape of the first value and the element type of the second.
+def GetTypeWithShapeAndElementTypeOf: NativeCodeCall<
+  "mlir::cast<ShapedType>($0.getType()).clone(getElementType($1.getType()))">;
+
 class FuseTransposeAndElementwiseUnaryOpPattern<Op elmOp>:  Pat<
   // Transpose of elmOp on a transpose.
-  (ONNXTransposeOp (elmOp (ONNXTransposeOp $v, $p1)), $p2),
+  (ONNXTransposeOp (elmOp:$res (ONNXTransposeOp $v, $p1)), $p2),
   // elmOp on Transpose with combined pattern.
-  (ONNXTransposeOp (elmOp $v, (returnType $v)),
+  (ONNXTransposeOp (elmOp $v, (returnType (GetTypeWithShapeAndElementTypeOf $v, $res))),
                    (CreateCombinedTransposedPattern $p1, $p2))>;
 
 class FuseTransposeAndElementwiseUnaryWithOneArgOpPattern<Op elmOp>:  Pat<
   // Transpose of elmOp on a transpose.
-  (ONNXTransposeOp (elmOp (ONNXTransposeOp $v, $p1), $arg1), $p2),
+  (ONNXTransposeOp (elmOp:$res (ONNXTransposeOp $v, $p1), $arg1), $p2),
   // elmOp on Transpose with combined pattern.
-  (ONNXTransposeOp (elmOp $v, $arg1, (returnType $v)),
+  (ONNXTransposeOp (elmOp $v, $arg1, (returnType (GetTypeWithShapeAndElementTypeOf $v, $res))),
                    (CreateCombinedTransposedPattern $p1, $p2))>;
 
 class FuseTransposeAndElementwiseUnaryWithTwoArgOpPattern<Op elmOp>:  Pat<
   // Transpose of elmOp on a transpose.
-  (ONNXTransposeOp (elmOp (ONNXTransposeOp $v, $p1), $arg1, $arg2), $p2),
+  (ONNXTransposeOp (elmOp:$res (ONNXTransposeOp $v, $p1), $arg1, $arg2), $p2),
   // elmOp on Transpose with combined pattern.
-  (ONNXTransposeOp (elmOp $v, $arg1, $arg2, (returnType $v)),
+  (ONNXTransposeOp (elmOp $v, $arg1, $arg2, (returnType (GetTypeWithShapeAndElementTypeOf $v, $res))),
                    (CreateCombinedTransposedPattern $p1, $p2))>;
 
 def FuseTransposeAndAtanPattern :
-- 
2.43.0


From 9e6c19102a58277fe9dae7191f04ee29fbf8751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:18 +0000
Subject: [PATCH 45/45] fix: do not turn an addition that broadcasts a matrix
 product into a Gemm bias

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 26 +++++++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  |  7 ++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 824da49..115da1a 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -77,6 +77,32 @@ Type getReturnTypeForMatMulOpND2D(Value A, Value B) {
       resShape, mlir::cast<ShapedType>(A.getType()).getElementType());
 }
 
+// Whether adding the bias to a product (MatMul or Gemm) of two matrices keeps
+// the shape of the product, as the bias of Gemm does: a bias that has more
+// dimensions, or broadcasts a dimension of the product, cannot become one.
+bool isBiasOfMatrixProduct(Value product, Value bias) {
+  auto biasType = mlir::dyn_cast<RankedTensorType>(bias.getType());
+  if (!biasType)
+    return true;
+  int64_t biasRank = biasType.getRank();
+  if (biasRank > 2)
+    return false;
+  bool transA = false, transB = false;
+  if (auto gemmOp = product.getDefiningOp<ONNXGemmOp>()) {
+    transA = gemmOp.getTransA() != 0;
+    transB = gemmOp.getTransB() != 0;
+  }
+  auto broadcasts = [&](Value operand, int64_t axis, int64_t fromEnd) {
+    auto type = mlir::dyn_cast<RankedTensorType>(operand.getType());
+    return type && type.getRank() == 2 && fromEnd <= biasRank &&
+           type.getDimSize(axis) == 1 &&
+           biasType.getDimSize(biasRank - fromEnd) != 1;
+  };
+  Operation *op = product.getDefiningOp();
+  return !broadcasts(op->getOperand(0), transA ? 1 : 0, 2) &&
+         !broadcasts(op->getOperand(1), transB ? 0 : 1, 1);
+}
+
 // Get return type for a MaxPoolOp assuming input is 4D NCHW.
 Type getReturnTypeForMaxPool2D(Value input) {
   auto inputType = mlir::cast<RankedTensorType>(input.getType());
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 367641a..cc80766 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -302,15 +302,18 @@ def GemmTransB : NativeCodeCall<"IntegerAttr::get($_builder.getIntegerType(64, /
 // Canonicalization for ONNXAddOp
 //===----------------------------------------------------------------------===//
 
+def IsBiasOfMatrixProduct : Constraint<
+  CPred<"onnx_mlir::isBiasOfMatrixProduct($0, $1)">>;
+
 // onnx.add(onnx.matmul(%X, %Y), %Z) = onnx.Gemm(%X, %Y, %Z)
 def MulAddToGemmOptPattern : Pat<(ONNXAddOp (ONNXMatMulOp:$res $m1, $m2), $m3),
                                  (ONNXGemmOp $m1, $m2, $m3, (GemmAlpha), (GemmBeta), (GemmTransA), (GemmTransB)),
-                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2)]>;
+                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2), (IsBiasOfMatrixProduct $res, $m3)]>;
 
 // onnx.add(onnx.Gemm(%X, %Y, None), %Z) = onnx.Gemm(%X, %Y, %Z) {beta=1.0}
 def FuseGemmFollowedByAddition : Pat<(ONNXAddOp (ONNXGemmOp:$res $m1, $m2, $none, $alpha, $beta, $transA, $transB), $bias),
                                      (ONNXGemmOp $m1, $m2, $bias, $alpha, (GemmBeta), $transA, $transB),
-                                     [(HasOneUse $res), (HasNoneType $none)]>;
+                                     [(HasOneUse $res), (HasNoneType $none), (IsBiasOfMatrixProduct $res, $bias)]>;
 
 //===----------------------------------------------------------------------===//
 // This is to fuse the composition: 'Add o Conv' into 'Conv' if the other input
-- 
2.43.0

