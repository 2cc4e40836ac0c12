From fc5d8ada8b0aefae67a3cd2516fc0e0e6d2c7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:27 +0000
Subject: [PATCH 01/25] fix: reduce the result of addRational also when the
 denominators are equal

---
 include/VSHelper.h  | 4 ++--
 include/VSHelper4.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/VSHelper.h b/include/VSHelper.h
index c344577..d1503ee 100644
--- a/include/VSHelper.h
+++ b/include/VSHelper.h
@@ -129,9 +129,9 @@ static inline void vs_addRational(int64_t *num, int64_t *den, int64_t addnum, in
         *den *= temp;
 
         *num += addnum;
-
-        vs_normalizeRational(num, den);
     }
+
+    vs_normalizeRational(num, den);
 }
 
 /* converts an int64 to int with saturation, useful to silence warnings when reading int properties among other things */
diff --git a/include/VSHelper4.h b/include/VSHelper4.h
index 0061a2d..1619324 100644
--- a/include/VSHelper4.h
+++ b/include/VSHelper4.h
@@ -163,9 +163,9 @@ static inline void VSH4_MANGLE_FUNCTION_NAME(addRational)(int64_t *num, int64_t
         *den *= temp;
 
         *num += addnum;
-
-        VSH4_MANGLE_FUNCTION_NAME(reduceRational)(num, den);
     }
+
+    VSH4_MANGLE_FUNCTION_NAME(reduceRational)(num, den);
 }
 
 /* converts an int64 to int with saturation, useful to silence warnings when reading int properties among other things */
-- 
2.43.0


From 746256159a2a970e1cea01ce69979785d91d9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:28 +0000
Subject: [PATCH 02/25] fix: refuse fill colors above the maximum of 32 bit
 integer formats instead of clamping them

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..404b652 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -58,7 +58,7 @@ static inline uint32_t doubleToIntPixelValue(double v, int bits, int *err) {
     }
 
     uint32_t i = doubleToUInt32S(v);
-    if (i >= ((uint64_t)1 << bits)) {
+    if (i >= ((uint64_t)1 << bits) || v >= UINT32_MAX + 0.5) {
         *err = 1;
         return 0;
     }
-- 
2.43.0


From 92e27b886969b8348f2ab33c9413174a1dbf66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 03/25] fix: avoid an integer overflow when Interleave derives
 the request pattern of its clips from a clip length near the maximum

---
 src/core/reorderfilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reorderfilters.cpp b/src/core/reorderfilters.cpp
index d3b5760..f997ebb 100644
--- a/src/core/reorderfilters.cpp
+++ b/src/core/reorderfilters.cpp
@@ -262,7 +262,7 @@ static void VS_CC interleaveCreate(const VSMap *in, VSMap *out, void *userData,
             muldivRational(&d->vi.fpsNum, &d->vi.fpsDen, d->numclips, 1);
 
         // frames requested per input clip, only clips at least this long never get a repeated clamped request
-        int maxNumFrames = (d->vi.numFrames + d->numclips - 1) / d->numclips;
+        int maxNumFrames = (d->vi.numFrames - 1) / d->numclips + 1;
 
         std::vector<VSFilterDependency> deps;
         for (int i = 0; i < d->numclips; i++)
-- 
2.43.0


From dbebf63f634305584bdb9df4522a3dc93d7500e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 04/25] fix: do not let large offsets overflow the bounds check
 of Crop and CropAbs

---
 src/core/simplefilters.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 404b652..903251d 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -119,7 +119,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -228,8 +228,14 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    int64_t height = static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
+    int64_t width = static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+
+    if (height > INT_MAX || width > INT_MAX)
+        RETERROR("Crop: cropped area extends beyond frame dimensions");
+
+    d->height = static_cast<int>(std::max<int64_t>(height, 0));
+    d->width = static_cast<int>(std::max<int64_t>(width, 0));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From 73ebd1a08b56bcdd9aae1620bec1c1b669ffa17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:07 +0000
Subject: [PATCH 05/25] fix: refuse border sizes that overflow the frame
 dimensions in AddBorders

---
 src/core/simplefilters.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 903251d..d1042a7 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -287,6 +287,10 @@ static int addBordersVerify(int left, int right, int top, int bottom, const VSVi
     return !!msg[0];
 }
 
+static bool addBordersSizeOk(int size, int before, int after) {
+    return static_cast<int64_t>(size) + before + after <= INT_MAX;
+}
+
 static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void *instanceData, void **frameData, VSFrameContext *frameCtx, VSCore *core, const VSAPI *vsapi) {
     AddBordersData *d = reinterpret_cast<AddBordersData *>(instanceData);
     char msg[150];
@@ -304,6 +308,12 @@ static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void
             return nullptr;
         }
 
+        if (!addBordersSizeOk(vsapi->getFrameWidth(src, 0), d->left, d->right) || !addBordersSizeOk(vsapi->getFrameHeight(src, 0), d->top, d->bottom)) {
+            vsapi->freeFrame(src);
+            vsapi->setFilterError("AddBorders: resulting frame is too large", frameCtx);
+            return nullptr;
+        }
+
         dst = vsapi->newVideoFrame(fi, vsapi->getFrameWidth(src, 0) + d->left + d->right, vsapi->getFrameHeight(src, 0) + d->top + d->bottom, src, core);
 
         int bytesPerSample = fi->bytesPerSample;
@@ -412,6 +422,9 @@ static void VS_CC addBordersCreate(const VSMap *in, VSMap *out, void *userData,
     if (vi.format.colorFamily == cfUndefined)
         RETERROR("AddBorders: input needs to be constant format");
 
+    if (!addBordersSizeOk(vi.width, d->left, d->right) || !addBordersSizeOk(vi.height, d->top, d->bottom))
+        RETERROR("AddBorders: resulting frame is too large");
+
     if (addBordersVerify(d->left, d->right, d->top, d->bottom, &vi.format, msg, sizeof(msg)))
         RETERROR(msg);
 
-- 
2.43.0


From 9014ea7e13de81cfcf977ba6e333e15fdec7ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:08 +0000
Subject: [PATCH 06/25] fix: refuse stacked clips whose combined size overflows
 the frame dimensions

---
 src/core/simplefilters.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index d1042a7..e144b0c 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1110,10 +1110,11 @@ static void VS_CC stackCreate(const VSMap *in, VSMap *out, void *userData, VSCor
                 }
             }
 
-            if (d->vertical)
-                d->vi.height += vi->height;
-            else
-                d->vi.width += vi->width;
+            int &stacked = d->vertical ? d->vi.height : d->vi.width;
+            int added = d->vertical ? vi->height : vi->width;
+            if (stacked > INT_MAX - added)
+                RETERROR(d->vertical ? "StackVertical: resulting frame is too large" : "StackHorizontal: resulting frame is too large");
+            stacked += added;
         }
 
         std::vector<VSFilterDependency> deps;
-- 
2.43.0


From 706b8d20aac1b15567dee0503e1ef34190fbf7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:30 +0000
Subject: [PATCH 07/25] fix: only accept subsampling that formats can have in
 ShufflePlanes, instead of returning a clip in the wrong format

---
 src/core/simplefilters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index e144b0c..46a10d4 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -523,8 +523,8 @@ static const VSFrame *VS_CC shufflePlanesGetframe(int n, int activationReason, v
 }
 
 static int findSubSampling(int s1, int s2) {
-    for (int i = 0; i < 6; i++)
-        if (s1 - (s2 << i) == 0)
+    for (int i = 0; i < 5; i++)
+        if (s1 == static_cast<int64_t>(s2) << i)
             return i;
     return -1;
 }
-- 
2.43.0


From c47620b22797dccf16d7352bf582483538c36def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:21 +0000
Subject: [PATCH 08/25] fix: check the number of weights passed to Merge before
 storing them

---
 src/core/mergefilters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..499dfce 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -389,6 +389,9 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     std::unique_ptr<MergeData> d(new MergeData(vsapi));
 
     int nweight = vsapi->mapNumElements(in, "weight");
+    if (nweight > 3)
+        RETERROR("Merge: more weights given than the number of planes to merge");
+
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
     for (int i = 0; i < nweight; i++)
-- 
2.43.0


From 21656c1b3a351954d4e4a52f2cdd481433fb82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:21 +0000
Subject: [PATCH 09/25] fix: refuse masks of another sample type in MaskedMerge
 instead of reinterpreting their values

---
 src/core/mergefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index 499dfce..114f88a 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -612,7 +612,7 @@ static void VS_CC maskedMergeCreate(const VSMap *in, VSMap *out, void *userData,
     if (!isConstantVideoFormat(d->vi) || !isSameVideoInfo(d->vi, vsapi->getVideoInfo(d->nodes[1])))
         RETERROR(("MaskedMerge: both clips must have the same constant format and dimensions, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(vsapi->getVideoInfo(d->nodes[1]), vsapi)).c_str());
 
-    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
+    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.sampleType != d->vi->format.sampleType || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
         || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
         RETERROR(("MaskedMerge: mask clip must have same dimensions as main clip and be the same format or grayscale, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(maskvi, vsapi)).c_str());
 
-- 
2.43.0


From c88fe4626d49386d5b9a1082bc5ebba03f573bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 10/25] fix: refuse Lut and Lut2 arguments that would pass on
 planes of another sample size or read planes the second clip lacks

---
 src/core/lutfilters.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..436ef16 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,12 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        /* planes that aren't processed are passed on as they are, which needs samples of the same size */
+        for (int i = 0; i < d->vi_out.format.numPlanes; i++) {
+            if (!d->process[i] && d->vi_out.format.bytesPerSample != d->vi->format.bytesPerSample)
+                RETERROR("Lut: all planes must be processed when the output format has a different sample size");
+        }
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +598,14 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int i = 0; i < d->vi_out.format.numPlanes; i++) {
+            /* planes that aren't processed are passed on as they are, which needs samples of the same size */
+            if (!d->process[i] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
+                RETERROR("Lut2: all planes must be processed when the output format has a different sample size");
+            if (d->process[i] && i >= d->vi[1]->format.numPlanes)
+                RETERROR("Lut2: the second clip must have all processed planes");
+        }
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 91d2a2162ae9634869ac714bd57d5e236d5b3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 11/25] fix: round negative sample values of Limiter and
 Binarize arguments down so that values below the format's range are refused

---
 src/core/genericfilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/genericfilters.cpp b/src/core/genericfilters.cpp
index c08f242..7f85b2d 100644
--- a/src/core/genericfilters.cpp
+++ b/src/core/genericfilters.cpp
@@ -76,7 +76,7 @@ static inline void getPlanePixelRangeArgs(const VSVideoFormat &fi, const VSMap *
             }
         } else {
             if (fi.sampleType == stInteger) {
-                int64_t temp2 = static_cast<int64_t>(temp + .5);
+                int64_t temp2 = static_cast<int64_t>(std::floor(temp + .5));
                 if ((temp2 < 0) || (temp2 > (1 << fi.bitsPerSample) - 1))
                     throw std::runtime_error(std::string(propName) + " out of range");
                 ival[plane] = static_cast<uint16_t>(temp2);
-- 
2.43.0


From 815effd029ae27d880aab51349876de419c76699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 12/25] fix: make the intermediate row of separable
 convolutions long enough for AVX-512 vectors

---
 src/core/kernel/x86/convolution_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/kernel/x86/convolution_impl.h b/src/core/kernel/x86/convolution_impl.h
index 71cdf45..44dc172 100644
--- a/src/core/kernel/x86/convolution_impl.h
+++ b/src/core/kernel/x86/convolution_impl.h
@@ -702,7 +702,8 @@ void conv_plane_x(const void *src, ptrdiff_t src_stride, void *dst, ptrdiff_t ds
     // Multi-pass threshold = 9 (v), 13 (h).
     auto kernel_v = select_conv_scanline_v_for<ISA>(T{})(params.matrixsize);
     auto kernel_h = select_conv_scanline_h_for<ISA>(T{})(params.matrixsize);
-    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64) * sizeof(T), ISA::ALIGN);
+    // 32 before; the last vector may start at pixel width-1 and its taps reach another 12 beyond.
+    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 96) * sizeof(T), ISA::ALIGN);
     void *tmp2 = (params.matrixsize > 9 && std::is_integral<T>::value) ? vsh::vsh_aligned_malloc((width + ISA::TMP_PAD) * sizeof(int32_t), ISA::ALIGN) : nullptr;
 
     for (unsigned i = 0; i < height; ++i) {
-- 
2.43.0


From 4b5483986d9b7a9e22874e94812d4fb57e9f7631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 13/25] fix: let floatToIntS saturate at 2^31, so that
 AverageFrames does not refuse a scale of exactly that

---
 src/core/filtershared.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filtershared.h b/src/core/filtershared.h
index a7a0938..c6364cd 100644
--- a/src/core/filtershared.h
+++ b/src/core/filtershared.h
@@ -49,7 +49,7 @@ static inline void setBlack(uint32_t color[3], const VSVideoFormat *format) {
 }
 
 static inline int floatToIntS(float f) {
-    if (f > static_cast<float>(std::numeric_limits<int>::max()))
+    if (f >= static_cast<float>(std::numeric_limits<int>::max()))
         return std::numeric_limits<int>::max();
     else if (f < static_cast<float>(std::numeric_limits<int>::min()))
         return std::numeric_limits<int>::min();
-- 
2.43.0


From 6fa529f030cd4496c891eee9f2014e90e7a8654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 14/25] fix: pass the only plane of a clip on when it is not
 among the planes BoxBlur is to process

---
 src/core/boxblurfilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boxblurfilter.cpp b/src/core/boxblurfilter.cpp
index fb0f0b2..816692f 100644
--- a/src/core/boxblurfilter.cpp
+++ b/src/core/boxblurfilter.cpp
@@ -626,7 +626,7 @@ static void VS_CC boxBlurCreate(const VSMap *in, VSMap *out, void *userData, VSC
         VSPlugin *stdplugin = vsapi->getPluginByID(VSH_STD_PLUGIN_ID, core);
 
         if (vi->format.numPlanes == 1) {
-            VSNode *tmpnode = applyBoxBlurPlaneFiltering(stdplugin, node, hradius, hpasses, vradius, vpasses, core, vsapi);
+            VSNode *tmpnode = process[0] ? applyBoxBlurPlaneFiltering(stdplugin, node, hradius, hpasses, vradius, vpasses, core, vsapi) : node;
             node = nullptr;
             vsapi->mapSetNode(out, "clip", tmpnode, maAppend);
             vsapi->freeNode(tmpnode);
-- 
2.43.0


From 98513784f882e267af47f982082fa36aa6901427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 15/25] fix: do not read a deleted key in mapDeleteKey when it
 was obtained from the map itself (RemoveFrameProps)

---
 src/core/vsapi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 8df20d0..eae84b2 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -496,8 +496,10 @@ static const VSFrame *VS_CC mapGetFrame(const VSMap *map, const char *key, int i
 
 static int VS_CC mapDeleteKey(VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
+    // key may point into the map and then stops being valid when it's erased
+    bool isColorRange = !strcmp(key, "_ColorRange");
     bool result = map->erase(key);
-    if (!strcmp(key, "_ColorRange"))
+    if (isColorRange)
         result = map->erase("_Range") || result;
     return result;
 }
-- 
2.43.0


From 0a14f1f9744da8540c29aa7bb96818ab07a92b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 16/25] fix: do not overflow when BlankClip computes the
 default length from a huge frame rate

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 46a10d4..521a3c5 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1260,7 +1260,7 @@ static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, V
     if (err) {
         if (!hasvi) {
             if (d->vi.fpsNum > 0 && d->vi.fpsDen > 0)
-                d->vi.numFrames = int64ToIntS((d->vi.fpsNum * 10) / d->vi.fpsDen);
+                d->vi.numFrames = (d->vi.fpsNum <= INT64_MAX / 10) ? int64ToIntS((d->vi.fpsNum * 10) / d->vi.fpsDen) : static_cast<int>(std::min<double>(d->vi.fpsNum * 10.0 / d->vi.fpsDen, INT_MAX));
             else
                 d->vi.numFrames = 300;
         }
-- 
2.43.0


From 2a23e5c7566a5b1c9ab181a68eef5d19e7491be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 17/25] fix: refuse audio clips and frames returned by the
 functions given to FrameEval and ModifyFrame

---
 src/core/simplefilters.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 521a3c5..d2184a9 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1425,7 +1425,8 @@ static const VSFrame *VS_CC frameEvalGetFrameWithProps(int n, int activationReas
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
@@ -1480,7 +1481,8 @@ static const VSFrame *VS_CC frameEvalGetFrameNoProps(int n, int activationReason
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
@@ -1602,7 +1604,7 @@ static const VSFrame *VS_CC modifyFrameGetFrame(int n, int activationReason, voi
 
         const VSFrame *f = vsapi->mapGetFrame(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
-        if (err) {
+        if (err || vsapi->getFrameType(f) != mtVideo) {
             vsapi->freeFrame(f);
             vsapi->setFilterError("ModifyFrame: Returned value not a frame", frameCtx);
             return nullptr;
-- 
2.43.0


From 7d6b9951b5ff232833b75291d686b1dc316da934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/25] fix: keep the constant when all other terms of a sum in
 Expr cancel out ("x x 1 - -" and "x sqrt x *" were compiled to a wrong
 constant)

---
 src/core/expr/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 4b5e282..07a94da 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -801,7 +801,7 @@ public:
                 head = addNode;
             }
         } else {
-            head = tree.makeNode({ ExprOpType::CONSTANT, 0.0f });
+            head = tree.makeNode({ ExprOpType::CONSTANT, scalarTerm });
         }
 
         return head;
-- 
2.43.0


From 85eda17998b658ed120d1fa9968de1a69799fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:25 +0000
Subject: [PATCH 19/25] fix: BlankAudio with keep returned its kept frame for
 frames of another length

The kept frame has the length of the first frame requested, which isn't the
length of the last one when the number of samples isn't a multiple of the
frame size, and the core ends the process over it.
---
 src/core/audiofilters.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..db4676e 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1246,16 +1246,16 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
             return frame;
         }
 
-        VSFrame *frame = nullptr;
-        if (!d->f) {
-            frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
-            for (int channel = 0; channel < d->ai.format.numChannels; channel++)
-                memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
-        }
+        // the last frame may be shorter than the others so the kept one doesn't always fit
+        if (d->f && vsapi->getFrameLength(d->f) == samples)
+            return vsapi->addFrameRef(d->f);
+
+        VSFrame *frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
+        for (int channel = 0; channel < d->ai.format.numChannels; channel++)
+            memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
 
-        if (d->keep) {
-            if (frame)
-                d->f = frame;
+        if (d->keep && !d->f) {
+            d->f = frame;
             return vsapi->addFrameRef(d->f);
         } else {
             return frame;
-- 
2.43.0


From 0ce7cbd89f66ef98c097491d1ed1e9064c916ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:11 +0000
Subject: [PATCH 20/25] fix: ShuffleChannels declared a shorter first clip as
 strictly spatial

The number of frames compared with was still the one of the first clip and not
the one of the longest clip, which is the length of the output.
---
 src/core/audiofilters.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index db4676e..18fe6c6 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1048,6 +1048,11 @@ static void VS_CC shuffleChannelsCreate(const VSMap *in, VSMap *out, void *userD
     for (const auto &iter : nodeSet)
         d->reqNodes.push_back(iter);
 
+    // the output is as long as the longest clip
+    d->ai.numFrames = 0;
+    for (const auto &iter : d->reqNodes)
+        d->ai.numFrames = std::max(d->ai.numFrames, vsapi->getAudioInfo(iter)->numFrames);
+
     std::vector<VSFilterDependency> deps;
     for (const auto &iter : d->reqNodes)
         deps.push_back({iter, (d->ai.numFrames <= vsapi->getAudioInfo(iter)->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly });
-- 
2.43.0


From 7129ffd873cadb1c23f594b5c8b6bf552169496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 21/25] fix: vspipe wrote invalid JSON for large, infinite and
 NaN numbers, text with NUL and properties that are nodes, frames or functions

---
 src/vspipe/vsjson.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..8a7f781 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -20,6 +20,7 @@
 
 #include "vsjson.h"
 #include <charconv>
+#include <cmath>
 
 static bool isAsciiPrintable(const std::string &s) {
     for (const auto c : s)
@@ -29,7 +30,11 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    // JSON has no representation of infinity and NaN
+    if (!std::isfinite(v))
+        return "null";
+    // the longest fixed notation is that of the smallest denormals
+    char buffer[400];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
 }
@@ -95,11 +100,15 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                     int typeHint = vsapi->mapGetDataTypeHint(map, key, j, nullptr);
                     jsonStr += (j ? ", " : "");
                     if (typeHint == dtUtf8 || (typeHint == dtUnknown && vsapi->mapGetDataSize(map, key, j, nullptr) < 200 && isAsciiPrintable(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)))))
-                        jsonStr += escapeJSONString(vsapi->mapGetData(map, key, j, nullptr));
+                        jsonStr += escapeJSONString(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)));
                     else
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
                 break;
+            default:
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", null" : "null");
+                break;
             }
 
             if (numElems > 1)
-- 
2.43.0


From 3a69be75090b22f21ca4e3d10108ee50e1652ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 22/25] fix: vspipe took empty and out of range numbers for
 zero

---
 src/vspipe/vspipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..cf493c6 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -628,12 +628,12 @@ static const char *colorFamilyToString(int colorFamily) {
 
 static bool svToInt64(const std::string_view &s, int64_t &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool svToInt(const std::string_view &s, int &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool printVersion(const VSAPI *vsapi) {
-- 
2.43.0


From 2b8df9cbf68fc4ef7df0b60875389e4922c91555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 23/25] fix: vspipe freed the result map twice when the range
 was refused

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index cf493c6..46a7c74 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1199,7 +1199,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 81a60c1e5b24e37b4afe0278a988671f80efb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 24/25] fix: vspipe leaked the alpha node when a range was
 given

---
 src/vspipe/vspipe.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 46a7c74..0ded8d6 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1208,8 +1208,10 @@ int main(int argc, char **argv) {
             } else {
                 vsapi->freeNode(node);
                 node = vsapi->mapGetNode(result, "clip", 0, nullptr);
-                if (alphaResult)
+                if (alphaResult) {
+                    vsapi->freeNode(alphaNode);
                     alphaNode = vsapi->mapGetNode(alphaResult, "clip", 0, nullptr);
+                }
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
             }
-- 
2.43.0


From 51e843109c0e4fded755f6182bd34a250328a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:47 +0000
Subject: [PATCH 25/25] fix: ShufflePlanes declared a shorter first clip as
 strictly spatial

Like the other clips its last frame is requested again for the rest of the output.
---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index d2184a9..5d628dc 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -638,7 +638,7 @@ static void VS_CC shufflePlanesCreate(const VSMap *in, VSMap *out, void *userDat
         VSFilterDependency deps1[] = {{ d->nodes[0], rpStrictSpatial }, { d->nodes[3], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[3])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }};
         vsapi->createVideoFilter(out, "ShufflePlanes", &d->vi, shufflePlanesGetframe, filterFree<ShufflePlanesData>, fmParallel, deps1, 2, d.get(), core);
     } else {
-        VSFilterDependency deps3[] = {{ d->nodes[0], rpStrictSpatial}, { d->nodes[1], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[1])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }, { d->nodes[2], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[2])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }, { d->nodes[3], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[3])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly } };
+        VSFilterDependency deps3[] = {{ d->nodes[0], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[0])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }, { d->nodes[1], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[1])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }, { d->nodes[2], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[2])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly }, { d->nodes[3], (d->vi.numFrames <= vsapi->getVideoInfo(d->nodes[3])->numFrames) ? rpStrictSpatial : rpFrameReuseLastOnly } };
         vsapi->createVideoFilter(out, "ShufflePlanes", &d->vi, shufflePlanesGetframe, filterFree<ShufflePlanesData>, fmParallel, deps3, 4, d.get(), core);
     }
 
-- 
2.43.0

