// Filters that combine two clips pixel by pixel: Merge, MaskedMerge, PreMultiply and the difference filters.
#include "drive.h"
#include "float16_helper.h"
#include <immintrin.h>
__attribute__((target("f16c"))) static float hToF(uint16_t h) { return _cvtsh_ss(h); }
__attribute__((target("f16c"))) static uint16_t fToH(float f) { return _cvtss_sh(f, 0); }
static int param(const char *n, int d) { return (int)vsx_param(n, d); }
static const VSVideoInfo *vi(VSNode *n) { return api->getVideoInfo(n); }
static bool refused(VSNode *t) { if (!t) { vsx_assert(lastError.size() > 0, "a reason is given"); vsx_cover("refused"); } return !t; }
static const VSFrame *frameOf(Drive &d, VSNode *n) { const VSFrame *f = nullptr; for (auto &r : d.reqs) if (r.node == n) f = r.f; vsx_assert(f != nullptr, "every clip takes part"); return f; }
static bool isInt(const VSVideoFormat &f) { return f.sampleType == stInteger; }
static int maxOf(const VSVideoFormat &f) { return (1 << f.bitsPerSample) - 1; }
static int64_t fdiv(int64_t a, int s) { return a >> s; } // floor(a / 2^s)
static bool divEq(int64_t q, int64_t num, int64_t den) { int64_t r = num - q * den; return r >= 0 && r < den; } // q == floor(num / den)
static int64_t clampI(int64_t v, int64_t m) { return v < 0 ? 0 : v > m ? m : v; }
static bool okFormat(const VSVideoFormat &f) { return f.colorFamily != cfUndefined && (isInt(f) ? f.bitsPerSample <= 16 : f.bitsPerSample == 32 || f.bitsPerSample == 16); }
static bool sameFmt(const VSVideoFormat &a, const VSVideoFormat &b) { return a.colorFamily == b.colorFamily && a.sampleType == b.sampleType && a.bitsPerSample == b.bitsPerSample && a.subSamplingW == b.subSamplingW && a.subSamplingH == b.subSamplingH; }
// which clips are accepted: clip a of format fmt; the others with formats chosen from a list, of several dimensions and any length
static VSNode *anyDims(const VSVideoFormat &f, const char *name) {
    int k = (int)vsx_choice(4, name), n = vsx_any<int>("len"); vsx_assume(n > 0); // variable, or one of three sizes (sizes end up in error messages, so they are kept concrete)
    return mkInput(f, k ? k == 2 ? 16 : 8 : 0, k ? k == 3 ? 16 : 8 : 0, n);
}
static const int pool[] = { 0, 1, 9, 5, 6, 7, 10, 14, 16, 17 };
static VSVideoFormat pick(const char *name) { int k = (int)vsx_choice(11, name); if (k == 10) { VSVideoFormat u; memset(&u, 0, sizeof u); return u; } return fmtNo(pool[k]); }
// planes=...: one or two arbitrary entries
static bool planesArg(Args &a, bool p[3]) {
    int k = (int)vsx_choice(3, "numPlanes"); bool ok = true; for (int i = 0; i < 3; i++) p[i] = !k;
    for (int i = 0; i < k; i++) { int64_t v = vsx_any<int64_t>("plane"); a.i("planes", v); if (v < 0 || v > 2) ok = false; else if (v == 0) { ok = ok && !p[0]; p[0] = true; } else if (v == 1) { ok = ok && !p[1]; p[1] = true; } else { ok = ok && !p[2]; p[2] = true; } }
    return ok;
}
static void deps(VSNode *o, VSNode *c, int i) {
    const VSFilterDependency *d = o->getDependency(i);
    vsx_assert(d->source == c && d->requestPattern == (vi(c)->numFrames < vi(o)->numFrames ? rpFrameReuseLastOnly : rpStrictSpatial), "dependencies are declared truthfully");
}
// mode 0 Merge 1 MakeDiff 2 MergeDiff 3 MakeFullDiff 4 MergeFullDiff
static const char *const fnName[] = { "Merge", "MakeDiff", "MergeDiff", "MakeFullDiff", "MergeFullDiff" };
HARNESS(h_merge_args) {
    startF(); int m = param("mode", 0); VSVideoFormat f = pick("formatA"), g = pick("formatB"); if (m == 4 && vsx_choice(2, "wider")) { g = f; g.bitsPerSample++; g.bytesPerSample = g.bitsPerSample > 16 ? 4 : 2; vsx_assume(isInt(f) && f.bitsPerSample > 0 && f.bitsPerSample < 32); }
    VSNode *a = anyDims(f, "varA"), *b = anyDims(g, "varB"); Args ar; ar.clip("clipa", a).clip("clipb", b);
    bool same = vi(a)->width == vi(b)->width && vi(a)->height == vi(b)->height;
    VSVideoFormat want = f; if (m == 4 && isInt(f)) want.bitsPerSample++;
    bool ok = okFormat(f) && vi(a)->width > 0 && same && sameFmt(want, g), pl[3];
    if ((m == 1 || m == 2) && !planesArg(ar, pl)) ok = false;
    VSNode *o = callNode(fnName[m], ar);
    vsx_assert((o != nullptr) == ok, "exactly matching clips are accepted"); if (refused(o)) return;
    VSVideoFormat res = f; if (m == 3 && isInt(f)) res.bitsPerSample++;
    vsx_assert(vi(o)->width == vi(a)->width && vi(o)->height == vi(a)->height && vi(o)->numFrames == vi(a)->numFrames && vi(o)->fpsNum == vi(a)->fpsNum && vi(o)->fpsDen == vi(a)->fpsDen && sameFmt(vi(o)->format, res), "the result is like the first clip");
    vsx_assert(vi(o)->format.bytesPerSample == (res.bitsPerSample <= 8 ? 1 : res.bitsPerSample <= 16 ? 2 : 4), "sample size");
    deps(o, a, 0); deps(o, b, 1); vsx_cover("accepted");
}
// any number of weights with any values
HARNESS(h_weights) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *a = mkInput(f, 4, 4, 3), *b = mkInput(f, 4, 4, 3); Args ar; ar.clip("clipa", a).clip("clipb", b); int k = (int)vsx_choice(6, "numWeights"); bool ok = k <= f.numPlanes;
    for (int i = 0; i < k; i++) { double w = vsx_any<double>("weight"); ar.f("weight", w); float s = (float)w; ok = ok && s >= 0.0f && s <= 1.0f; }
    VSNode *o = callNode("Merge", ar); vsx_assert((o != nullptr) == ok, "at most one weight per plane, each between 0 and 1"); if (!refused(o)) vsx_cover("accepted");
}
static VSNode *pinned[2];
static const VSFrame *mergeFrame(VSNode *node, int n, void *) {
    VSFrame *f = const_cast<VSFrame *>(anyFrame(node, n, nullptr)); const VSVideoFormat *vf = api->getVideoFrameFormat(f);
    if (param("exact", 0)) for (int p = 0; p < vf->numPlanes; p++) for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) { int8_t v = vsx_any<int8_t>("grid"); uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p); if (vf->bytesPerSample == 4) ((float *)d)[x] = v * 0.03125f; else ((uint16_t *)d)[x] = fToH((v >> 3) * 0.125f); } // values for which all ways to compute the result are exact
    if (node == pinned[0] || node == pinned[1]) { // one of several constant values, so that products stay linear
        int max = maxOf(*vf), k = (int)vsx_choice(6, node == pinned[0] ? "pin0" : "pin1"); const int val[] = { 0, 1, max / 3, max / 2, max / 2 + 1, max };
        for (int p = 0; p < vf->numPlanes; p++) for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) { uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p); if (vf->bytesPerSample == 1) d[x] = (uint8_t)val[k]; else ((uint16_t *)d)[x] = (uint16_t)val[k]; }
    }
    VSMap *m = api->getFramePropertiesRW(f);
    int rg = param("range", 0) ? (int)vsx_choice(4, "range") : 0; if (rg) api->mapSetInt(m, "_Range", rg - 1, maReplace);
    if (param("cloc", 0) && vsx_choice(2, "hasLoc")) api->mapSetInt(m, "_ChromaLocation", vsx_any<int64_t>("loc"), maReplace);
    return f;
}
template <class F> static void eachPixel(const VSFrame *f, int p, F fn) { for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) fn(x, y); }
static float fpx(const VSFrame *f, int p, int x, int y) { return api->getVideoFrameFormat(f)->bytesPerSample == 4 ? px<float>(f, p, x, y) : param("exact", 0) ? hToF(px<uint16_t>(f, p, x, y)) : halfToFloat(px<uint16_t>(f, p, x, y)); }
static bool sameF(const VSFrame *f, int p, int x, int y, float v) { if (api->getVideoFrameFormat(f)->bytesPerSample == 2) return px<uint16_t>(f, p, x, y) == (param("exact", 0) ? fToH(v) : floatToHalf(v)); float r = px<float>(f, p, x, y); return r == v || (r != r && v != v); }
// weights are given as multiples of 1/4 with quarter=1 (exact for floats), otherwise any
HARNESS(h_merge) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *a = mkInput(f, param("w", 8), param("h", 2), vsx_any<int>("lenA") & 0xffff | 1), *b = mkInput(f, param("w", 8), param("h", 2), vsx_any<int>("lenB") & 0xffff | 1);
    if (param("pin", 0)) pinned[0] = b;
    Args ar; ar.clip("clipa", a).clip("clipb", b); int k = (int)vsx_choice(f.numPlanes + 1, "numWeights"); float w[3] = { .5f, .5f, .5f };
    if (param("fixed", 0)) k = f.numPlanes;
    for (int i = 0; i < k; i++) {
        if (param("quarter", 0)) w[i] = vsx_choice(5, "quarter") * .25f;
        else if (param("anyw", 0) == 0) { static const float ws[] = { 0, 1e-6f, 1.0f / 32768, 0.2f, 0.25f, 1.0f / 3, 0.5f, 0.7f, 0.9999f, 0.99999f, 1 }; w[i] = ws[vsx_choice(11, "weightNo")]; }
        else { uint16_t q = vsx_any<uint16_t>("weight"); vsx_assume(q <= 32768); w[i] = q * (1.0f / 32768); } // every value that can matter to integer clips
        ar.f("weight", w[i]);
    }
    if (k == 1) w[1] = w[2] = w[0]; else if (k == 2) w[2] = w[1];
    VSNode *o = callNode("Merge", ar); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *r = d.run(o, frameNo(o), mergeFrame); vsx_assert(r != nullptr, "produced"); const VSFrame *s = frameOf(d, a), *t = frameOf(d, b);
    vsx_assert(propI(r, "idx") == propI(s, "idx"), "properties come from the first clip");
    for (int p = 0; p < f.numPlanes; p++) {
        if (w[p] == 0 || (isInt(f) && w[p] < 1.0f / 65536)) { eqPlane(r, p, s, p, "weight 0 is the first clip"); continue; }
        if (w[p] == 1) { eqPlane(r, p, t, p, "weight 1 is the second clip"); continue; }
        int W = (int)(w[p] * 32768.0f + 0.5f); if (W > 32767) W = 32767;
        eachPixel(r, p, [&](int x, int y) {
            if (isInt(f)) { int64_t v1 = ipx(s, p, x, y), v2 = ipx(t, p, x, y); vsx_assert((int64_t)ipx(r, p, x, y) == v1 + fdiv((v2 - v1) * W + 16384, 15), "the weighted average, rounded"); }
            else { float v1 = fpx(s, p, x, y), v2 = fpx(t, p, x, y); vsx_assert(sameF(r, p, x, y, v1 + (v2 - v1) * w[p]), "the weighted average"); }
        });
    }
    vsx_cover("pixels");
}
static int rangeOffset(const VSFrame *f, const VSVideoFormat &vf) {
    int e; int64_t r = api->mapGetInt(api->getFramePropertiesRO(f), "_Range", 0, &e);
    bool limited = e ? vf.colorFamily != cfRGB : r == 0; return limited ? 16 << (vf.bitsPerSample - 8) : 0;
}
static int locOf(const VSFrame *f) { int e; int64_t r = api->mapGetInt(api->getFramePropertiesRO(f), "_ChromaLocation", 0, &e); return e || r < 0 || r > 5 ? 0 : (int)r; }
// (x-off)*m/max, rounded to nearest, symmetric around 0
static bool premulEq(int64_t q, int64_t x, int64_t m, int64_t off, int64_t max) { int64_t t = x - off; return t < 0 ? divEq(-q, -t * m + max / 2, max) : divEq(q, t * m + max / 2, max); }
static int64_t premul(int64_t x, int64_t m, int64_t off, int64_t max) { int64_t t = x - off; return t < 0 ? -((-t * m + max / 2) / max) : (t * m + max / 2) / max; }
HARNESS(h_masked) {
    startF(); VSVideoFormat f = fmtParam(), mf = fmtParam("mfmt"); bool pre = param("premultiplied", 0), first = param("first", 0); int W = param("w", 8), H = param("h", 2);
    VSNode *a = mkInput(f, W, H, 10), *b = mkInput(f, W, H, vsx_any<int>("lenB") & 0xffff | 1), *m = mkInput(mf, W, H, vsx_any<int>("lenM") & 0xffff | 1);
    if (param("pin", 0)) { pinned[0] = b; pinned[1] = m; }
    Args ar; ar.clip("clipa", a).clip("clipb", b).clip("mask", m); if (pre) ar.i("premultiplied", 1); if (first) ar.i("first_plane", 1);
    bool pl[3] = { true, true, true }; if (param("planes", 0)) { int k = (int)vsx_choice(8, "planes"); for (int i = 0; i < 3; i++) if ((pl[i] = k >> i & 1)) ar.i("planes", i); if (!k) for (int i = 0; i < 3; i++) pl[i] = true; }
    VSNode *o = callNode("MaskedMerge", ar); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *r = d.run(o, frameNo(o), mergeFrame); const VSFrame *s = frameOf(d, a), *t = frameOf(d, b), *g = frameOf(d, m);
    int off1 = isInt(f) ? rangeOffset(s, f) : 0, off2 = isInt(f) ? rangeOffset(t, f) : 0; bool any = pl[0] || (f.numPlanes > 1 && (pl[1] || pl[2]));
    bool bad = (pre && isInt(f) && off1 != off2 && any) || ((pl[1] || pl[2]) && (f.subSamplingW || f.subSamplingH) && locOf(s) != locOf(t));
    vsx_assert((r == nullptr) == bad, "frames of different range or chroma location cannot be merged"); if (!r) { vsx_cover("mismatch"); return; }
    vsx_assert(propI(r, "idx") == propI(s, "idx"), "properties come from the first clip");
    for (int p = 0; p < f.numPlanes; p++) {
        if (!pl[p]) { eqPlane(r, p, s, p, "planes not listed are those of the first clip"); continue; }
        int mp = first || mf.numPlanes == 1 ? 0 : p, off = p && f.colorFamily == cfYUV ? 1 << (f.bitsPerSample - 1) : off1; int64_t max = maxOf(f);
        eachPixel(r, p, [&](int x, int y) {
            if (isInt(f)) { int64_t v1 = ipx(s, p, x, y), v2 = ipx(t, p, x, y), k = ipx(g, mp, x, y), q = ipx(r, p, x, y);
                if (!pre) vsx_assert(q == ((max - k) * v1 + k * v2 + max / 2) / max, "the average weighted by the mask, rounded");
                else vsx_assert(q == clampI(premul(v1, max - k, off, max) + v2, max), "the first clip is weighted and the second added"); }
            else { float v1 = fpx(s, p, x, y), v2 = fpx(t, p, x, y), k = fpx(g, mp, x, y); vsx_assume(k == k); if (k < 0) k = 0; if (k > 1) k = 1;
                vsx_assert(sameF(r, p, x, y, pre ? (1.0f - k) * v1 + v2 : v1 + (v2 - v1) * k), "the weighted average"); }
        });
    }
    vsx_cover("pixels");
}
HARNESS(h_masked_args) {
    startF(); VSVideoFormat f = fmtParam(), g = pick("formatB"), mf = pick("formatM"); VSNode *a = anyDims(f, "varA"), *b = anyDims(g, "varB"), *m = anyDims(mf, "varM");
    Args ar; ar.clip("clipa", a).clip("clipb", b).clip("mask", m); bool first = vsx_choice(2, "first"); if (first) ar.i("first_plane", 1); bool pl[3];
    bool ok = okFormat(f) && vi(a)->width > 0 && vi(a)->width == vi(b)->width && vi(a)->height == vi(b)->height && vi(a)->width == vi(m)->width && vi(a)->height == vi(m)->height && sameFmt(f, g) && mf.colorFamily != cfUndefined && mf.sampleType == f.sampleType && mf.bitsPerSample == f.bitsPerSample && (sameFmt(f, mf) || mf.colorFamily == cfGray || first);
    if (!planesArg(ar, pl)) ok = false;
    if ((first || mf.numPlanes == 1) && (f.subSamplingW || f.subSamplingH) && (pl[1] || pl[2])) ok = false; // there is no resize plugin in this build
    VSNode *o = callNode("MaskedMerge", ar); vsx_assert((o != nullptr) == ok, "exactly matching clips are accepted"); if (refused(o)) return;
    deps(o, a, 0); deps(o, b, 1); deps(o, m, 2); vsx_cover("accepted");
}
HARNESS(h_premul) {
    startF(); VSVideoFormat f = fmtParam(), mf = f; mf.colorFamily = cfGray; mf.numPlanes = 1; mf.subSamplingW = mf.subSamplingH = 0; int W = param("w", 8), H = param("h", 2);
    VSNode *a = mkInput(f, W, H, 10), *m = mkInput(mf, W, H, vsx_any<int>("lenM") & 0xffff | 1); Args ar; ar.clip("clip", a).clip("alpha", m); if (param("pin", 0)) pinned[1] = m;
    VSNode *o = callNode("PreMultiply", ar); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *r = d.run(o, frameNo(o), mergeFrame); vsx_assert(r != nullptr, "produced"); const VSFrame *s = frameOf(d, a), *g = frameOf(d, m);
    int off1 = isInt(f) ? rangeOffset(s, f) : 0; vsx_assert(propI(r, "idx") == propI(s, "idx"), "properties come from the first clip");
    for (int p = 0; p < f.numPlanes; p++) { int off = p && f.colorFamily == cfYUV ? 1 << (f.bitsPerSample - 1) : off1; int64_t max = maxOf(f);
        eachPixel(r, p, [&](int x, int y) {
            if (isInt(f)) vsx_assert((int64_t)ipx(r, p, x, y) == off + premul(ipx(s, p, x, y), ipx(g, 0, x, y), off, max), "the value is multiplied, rounded");
            else vsx_assert(sameF(r, p, x, y, fpx(s, p, x, y) * fpx(g, 0, x, y)), "the value is multiplied"); }); }
    vsx_cover("pixels");
}
HARNESS(h_premul_args) {
    startF(); VSVideoFormat f = pick("formatA"), mf = pick("formatM"); VSNode *a = anyDims(f, "varA"), *m = anyDims(mf, "varM"); Args ar; ar.clip("clip", a).clip("alpha", m);
    bool ok = okFormat(f) && mf.colorFamily == cfGray && mf.sampleType == f.sampleType && mf.bitsPerSample == f.bitsPerSample && vi(a)->width > 0 && vi(a)->width == vi(m)->width && vi(a)->height == vi(m)->height && !f.subSamplingW && !f.subSamplingH;
    VSNode *o = callNode("PreMultiply", ar); vsx_assert((o != nullptr) == ok, "exactly matching clips are accepted"); if (refused(o)) return;
    deps(o, a, 0); deps(o, m, 1); vsx_cover("accepted");
}
// differences
HARNESS(h_diff) {
    startF(); VSVideoFormat f = fmtParam(), g = f; int m = param("mode", 1), W = param("w", 8), H = param("h", 2); if (m == 4 && isInt(f)) { g.bitsPerSample++; g.bytesPerSample = g.bitsPerSample > 16 ? 4 : 2; }
    VSNode *a = mkInput(f, W, H, 10), *b = mkInput(g, W, H, vsx_any<int>("lenB") & 0xffff | 1); Args ar; ar.clip("clipa", a).clip("clipb", b);
    bool pl[3] = { true, true, true }; if (m < 3 && param("planes", 0)) { int k = 1 + (int)vsx_choice(7, "planes"); for (int i = 0; i < 3; i++) if ((pl[i] = k >> i & 1)) ar.i("planes", i); }
    VSNode *o = callNode(fnName[m], ar); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *r = d.run(o, frameNo(o), mergeFrame); vsx_assert(r != nullptr, "produced"); const VSFrame *s = frameOf(d, a), *t = frameOf(d, b);
    vsx_assert(propI(r, "idx") == propI(s, "idx"), "properties come from the first clip");
    int64_t half = 1 << (f.bitsPerSample - 1), full = 1ll << f.bitsPerSample, max = full - 1;
    for (int p = 0; p < f.numPlanes; p++) {
        if (!pl[p]) { eqPlane(r, p, s, p, "planes not listed are those of the first clip"); continue; }
        eachPixel(r, p, [&](int x, int y) {
            if (isInt(f)) { int64_t v1 = ipx(s, p, x, y), v2 = ipx(t, p, x, y), q = ipx(r, p, x, y);
                vsx_assert(q == (m == 1 ? clampI(v1 - v2 + half, max) : m == 2 ? clampI(v1 + v2 - half, max) : m == 3 ? v1 - v2 + full : clampI(v1 + v2 - full, max)), "the difference is taken or added, clamped to the format"); }
            else { float v1 = fpx(s, p, x, y), v2 = fpx(t, p, x, y); vsx_assert(sameF(r, p, x, y, m == 1 || m == 3 ? v1 - v2 : v1 + v2), "the difference is taken or added"); }
        });
    }
    vsx_cover("pixels");
}
// a full difference added to the second clip gives back the first clip, and so does a clamped one whenever it is not clamped
static VSNode *mid; static const VSFrame *midFrame, *baseFrame;
static const VSFrame *tripFrame(VSNode *node, int n, void *) { return api->addFrameRef(node == mid ? midFrame : baseFrame); }
HARNESS(h_roundtrip) {
    startF(); VSVideoFormat f = fmtParam(); int W = param("w", 8), full = param("full", 1); VSNode *a = mkInput(f, W, 2, 10), *b = mkInput(f, W, 2, 10); Args ar; ar.clip("clipa", a).clip("clipb", b);
    mid = callNode(full ? "MakeFullDiff" : "MakeDiff", ar); Args ar2; ar2.clip("clipa", b).clip("clipb", mid); VSNode *o = callNode(full ? "MergeFullDiff" : "MergeDiff", ar2); vsx_assert(o != nullptr, "accepted");
    int n = frameNo(o); Drive d; midFrame = d.run(mid, n, anyFrame); const VSFrame *s = frameOf(d, a); baseFrame = frameOf(d, b); Drive e; const VSFrame *r = e.run(o, n, tripFrame);
    for (int p = 0; p < f.numPlanes; p++) eachPixel(r, p, [&](int x, int y) { int64_t v = ipx(s, p, x, y), w = ipx(baseFrame, p, x, y), df = v - w, half = 1 << (f.bitsPerSample - 1); if (full || (df >= -half && df < half)) vsx_assert(ipx(r, p, x, y) == v, "the first clip comes back"); });
    vsx_cover("pixels");
}
// half precision conversion: exact to float, nearest back (either neighbour for ties)
static float refHalf(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; uint32_t s = (uint32_t)(h & 0x8000) << 16; 
    if (e == 31) return std::bit_cast<float>(s | 0x7f800000u | (uint32_t)m << 13);
    if (!e) { if (!m) return std::bit_cast<float>(s); int k = 0; while (!(m & 1024)) { m <<= 1; k++; } return std::bit_cast<float>(s | (uint32_t)(113 - k) << 23 | (uint32_t)(m & 1023) << 13); }
    return std::bit_cast<float>(s | (uint32_t)(e + 112) << 23 | (uint32_t)m << 13); }
HARNESS(h_halftofloat) { uint16_t h = vsx_any<uint16_t>("half"); uint32_t a = std::bit_cast<uint32_t>(halfToFloat(h)), b = std::bit_cast<uint32_t>(refHalf(h)); vsx_assert(a == b, "the same value"); vsx_cover("checked"); }
HARNESS(h_floattohalf) {
    uint32_t b = vsx_any<uint32_t>("float"); uint16_t h = floatToHalf(std::bit_cast<float>(b)); uint32_t m = b & 0x7fffffff; vsx_assert((h >> 15) == (b >> 31), "sign"); uint32_t r = h & 0x7fff;
    if (m > 0x7f800000u) { vsx_assert(r > 0x7c00, "NaN"); return; }
    if (m == 0x7f800000u) { vsx_assert(r == 0x7c00, "infinity"); return; }
    if (m >= 0x38800000u) { uint32_t q = (m - 0x38000000u), lo = q >> 13, rem = q & 8191; if (q >= 0x0f800000u) { lo = 0x7c00; rem = 0; } vsx_assert(rem < 4096 ? r == lo : rem > 4096 ? r == lo + 1 : r == lo || r == lo + 1, "the nearest value"); vsx_cover("normal"); return; }
    uint32_t e = m >> 23; if (e < 102) { vsx_assert(r == 0, "too small"); return; }
    uint32_t sh = 126 - e; uint64_t mant = (m & 0x7fffff) | 0x800000, lo = mant >> sh, rem = mant & ((1ull << sh) - 1), hf = 1ull << (sh - 1);
    vsx_assert(rem < hf ? r == lo : rem > hf ? r == lo + 1 : r == lo || r == lo + 1, "the nearest subnormal value"); vsx_cover("subnormal");
}
