// Shared by the pixel filter harnesses.
#pragma once
#include "drive.h"
#include "float16_helper.h"
#include <immintrin.h>
__attribute__((target("f16c"))) static inline float hToF(uint16_t h) { return _cvtsh_ss(h); }
__attribute__((target("f16c"))) static inline uint16_t fToH(float f) { return _cvtss_sh(f, 0); }
static inline int param(const char *n, int d) { return (int)vsx_param(n, d); }
static inline const VSVideoInfo *vi(VSNode *n) { return api->getVideoInfo(n); }
static inline bool refused(VSNode *t) { if (!t) { vsx_assert(lastError.size() > 0, "a reason is given"); vsx_cover("refused"); } return !t; }
static inline const VSFrame *frameOf(Drive &d, VSNode *n) { const VSFrame *f = nullptr; for (auto &r : d.reqs) if (r.node == n) f = r.f; vsx_assert(f != nullptr, "every clip takes part"); return f; }
static inline bool isInt(const VSVideoFormat &f) { return f.sampleType == stInteger; }
static inline int64_t maxOf(const VSVideoFormat &f) { return (int64_t)((1ull << f.bitsPerSample) - 1); }
static inline int64_t clampI(int64_t v, int64_t m) { return v < 0 ? 0 : v > m ? m : v; }
static inline bool sameFmt(const VSVideoFormat &a, const VSVideoFormat &b) { return a.colorFamily == b.colorFamily && a.sampleType == b.sampleType && a.bitsPerSample == b.bitsPerSample && a.subSamplingW == b.subSamplingW && a.subSamplingH == b.subSamplingH; }
// integers to 16 bits, half and single precision
static inline bool okFormat(const VSVideoFormat &f) { return f.colorFamily != cfUndefined && (isInt(f) ? f.bitsPerSample <= 16 : f.bitsPerSample == 32 || f.bitsPerSample == 16); }
// an input of variable size (0) or one of three sizes (sizes end up in error messages, so they are kept concrete) and any length
static inline VSNode *anyDims(const VSVideoFormat &f, const char *name) { int k = (int)vsx_choice(4, name), n = vsx_any<int>("len"); vsx_assume(n > 0); return mkInput(f, k ? k == 2 ? 16 : 8 : 0, k ? k == 3 ? 16 : 8 : 0, n); }
static const int pool[] = { 0, 1, 9, 5, 6, 7, 10, 14, 16, 17 };
static inline VSVideoFormat pick(const char *name) { int k = (int)vsx_choice(11, name); if (k == 10) { VSVideoFormat u; memset(&u, 0, sizeof u); return u; } return fmtNo(pool[k]); }
// planes=...: up to two arbitrary entries
static inline bool planesArg(Args &a, bool p[3]) {
    int k = (int)vsx_choice(3, "numPlanes"); bool ok = true; for (int i = 0; i < 3; i++) p[i] = !k;
    for (int i = 0; i < k; i++) { int64_t v = vsx_any<int64_t>("plane"); a.i("planes", v); if (v < 0 || v > 2) ok = false; else if (v == 0) { ok = ok && !p[0]; p[0] = true; } else if (v == 1) { ok = ok && !p[1]; p[1] = true; } else { ok = ok && !p[2]; p[2] = true; } }
    return ok;
}
// one of the eight sets of planes
static inline void somePlanes(Args &a, bool p[3]) { int k = (int)vsx_choice(8, "planes"); for (int i = 0; i < 3; i++) if ((p[i] = k >> i & 1)) a.i("planes", i); if (!k) for (int i = 0; i < 3; i++) p[i] = true; }
static inline void deps(VSNode *o, VSNode *c, int i) {
    const VSFilterDependency *d = o->getDependency(i);
    vsx_assert(d->source == c && (d->requestPattern == rpGeneral || d->requestPattern == (vi(c)->numFrames < vi(o)->numFrames ? rpFrameReuseLastOnly : rpStrictSpatial)), "dependencies are declared truthfully");
}
template <class F> static inline void eachPixel(const VSFrame *f, int p, F fn) { for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) fn(x, y); }
static inline float fpx(const VSFrame *f, int p, int x, int y) { return api->getVideoFrameFormat(f)->bytesPerSample == 4 ? px<float>(f, p, x, y) : param("exact", 0) ? hToF(px<uint16_t>(f, p, x, y)) : halfToFloat(px<uint16_t>(f, p, x, y)); }
static inline bool sameF(const VSFrame *f, int p, int x, int y, float v) { if (api->getVideoFrameFormat(f)->bytesPerSample == 2) { uint16_t q = px<uint16_t>(f, p, x, y), w = param("exact", 0) ? fToH(v) : floatToHalf(v); return (q == w) | (((q | w) & 0x7fff) == 0); } float r = px<float>(f, p, x, y); return r == v || (r != r && v != v); }
// a frame with arbitrary contents; with exact=1 floats are small multiples of 1/16, so that computations that only differ in rounding agree
static inline const VSFrame *pixFrame(VSNode *node, int n, void *ud) {
    VSFrame *f = const_cast<VSFrame *>(anyFrame(node, n, ud)); const VSVideoFormat *vf = api->getVideoFrameFormat(f);
    if (vf->sampleType == stFloat && param("exact", 0)) for (int p = 0; p < vf->numPlanes; p++) for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) {
        int8_t q = vsx_any<int8_t>("grid"); float v = q * (1.0f / 16); uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p); if (vf->bytesPerSample == 4) ((float *)d)[x] = v; else ((uint16_t *)d)[x] = fToH(v);
    }
    return f;
}
// lat=BITS: every sample (spot=1: two samples among fixed ones) is one of 2^BITS equidistant values, at the bottom, at the top or across the range (chosen once per frame)
static inline const VSFrame *latFrame(VSNode *node, int n, void *ud) {
    int bits = param("lat", 0); if (!bits) return pixFrame(node, n, ud);
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); const VSVideoFormat *vf = &v->format; int m = (1 << bits) - 1, k = isInt(*vf) ? (int)vsx_choice(3, "part of the range") : 0, M = isInt(*vf) ? (int)maxOf(*vf) : 0;
    for (int p = 0; p < vf->numPlanes; p++) { memset(api->getWritePtr(f, p), 0, api->getStride(f, p) * ph(f, p)); for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) {
        int q = !param("spot", 0) || (x == 1 && y == 1) || (x == 2 && y == 2) ? vsx_range<uint8_t>(0, (uint8_t)m, "level") : (x * 5 + y * 3) & m; uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p);
        if (!isInt(*vf)) { float w = (float)(q - 1) * .25f; if (vf->bytesPerSample == 4) ((float *)d)[x] = w; else ((uint16_t *)d)[x] = fToH(w); }
        else { q = k == 2 ? q * (M / m) : k ? M - m + q : q; if (vf->bytesPerSample == 1) d[x] = (uint8_t)q; else ((uint16_t *)d)[x] = (uint16_t)q; }
    } }
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
static inline const VSFrame *numFrame(VSNode *node, int n, void *ud) { // arbitrary finite floats (single precision: below 1e30)
    const VSFrame *f = anyFrame(node, n, ud); const VSVideoFormat *vf = api->getVideoFrameFormat(f); if (vf->sampleType == stFloat) for (int p = 0; p < vf->numPlanes; p++) eachPixel(f, p, [&](int x, int y) { if (vf->bytesPerSample == 4) { float v = px<float>(f, p, x, y); vsx_assume(v > -1e30f && v < 1e30f); } else vsx_assume((px<uint16_t>(f, p, x, y) & 0x7fff) < 0x7c00); }); return f;
}

// video info, properties and format of the first clip are kept
static inline void common(VSNode *o, VSNode *c, const VSFrame *g, const VSFrame *s) {
    vsx_assert(g != nullptr, "produced"); vsx_assert(propI(g, "idx") == propI(s, "idx"), "properties are kept"); vsx_assert(sameFmt(*api->getVideoFrameFormat(g), *api->getVideoFrameFormat(s)) && pw(g, 0) == pw(s, 0) && ph(g, 0) == ph(s, 0), "the format is kept");
    vsx_assert(sameFmt(vi(o)->format, vi(c)->format) && vi(o)->width == vi(c)->width && vi(o)->height == vi(c)->height && vi(o)->numFrames == vi(c)->numFrames && vi(o)->fpsNum == vi(c)->fpsNum && vi(o)->fpsDen == vi(c)->fpsDen, "video info is kept"); deps(o, c, 0);
}
static inline void put(VSFrame *f, int p, int x, int y, int v) { const VSVideoFormat *vf = api->getVideoFrameFormat(f); uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p); if (!isInt(*vf)) { float w = (float)(v - 100) * .0625f; if (vf->bytesPerSample == 4) ((float *)d)[x] = w; else ((uint16_t *)d)[x] = fToH(w); } else if (vf->bytesPerSample == 1) d[x] = (uint8_t)v; else ((uint16_t *)d)[x] = (uint16_t)v; }
// one arbitrary sample in every px x py rectangle, the others fixed; sb=BITS: only that many bits of it, but in the clip ud points to, if any
static inline const VSFrame *spotFrame(VSNode *node, int n, void *ud) {
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); const VSVideoFormat *vf = &v->format; int M = isInt(*vf) ? (int)maxOf(*vf) : 255, bg = (int)vsx_choice(param("bg", 1), "background"), X = param("px", 3), Y = param("py", 3), sx = (int)vsx_choice(param("ox", 1), "column"), sy = (int)vsx_choice(param("oy", 1), "row"), sb = (1 << param("sb", 0)) - 1; if (ud && node == *(VSNode **)ud) sb = 0;
    for (int p = 0; p < vf->numPlanes; p++) { memset(api->getWritePtr(f, p), 0, api->getStride(f, p) * ph(f, p));
        for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) put(f, p, x, y, x % X == sx && y % Y == sy ? (sb ? vsx_range<uint8_t>(0, (uint8_t)sb, "sample") * (M / sb) : M > 255 ? (int)vsx_range<uint16_t>(0, (uint16_t)M, "sample") : (int)vsx_any<uint8_t>("sample")) : bg == 1 ? M : bg == 2 ? 0 : (x * 37 + y * 91 + x * y * 5 + p * 11) * (M / 255) % (M + 1)); }
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
