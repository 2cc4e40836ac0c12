// Filters that map each sample on its own: Invert, InvertMask, Limiter, Binarize, BinarizeMask, Levels
#include "pix.h"
static const VSVideoFormat *frameFmt;
static const VSFrame *wideFrame(VSNode *node, int n, void *) { // arbitrary bits, also above the range of the format
    const VSVideoInfo *v = vi(node); const VSVideoFormat &f = v->format.colorFamily == cfUndefined ? *frameFmt : v->format; VSFrame *r = api->newVideoFrame(&f, v->width ? v->width : param("w", 4), v->height ? v->height : param("h", 1), nullptr, core); fillAny(r, "pixel"); api->mapSetInt(api->getFramePropertiesRW(r), "idx", n, maReplace); return r;
}
static bool chroma(const VSVideoFormat &f, int p) { return f.colorFamily == cfYUV && p > 0; }
static float sample(const VSFrame *f, int p, int x, int y) { return api->getVideoFrameFormat(f)->bytesPerSample == 4 ? px<float>(f, p, x, y) : halfToFloat(px<uint16_t>(f, p, x, y)); }
static bool same(const VSFrame *f, int p, int x, int y, float v) { if (api->getVideoFrameFormat(f)->bytesPerSample == 2) { float r = halfToFloat(px<uint16_t>(f, p, x, y)), w = halfToFloat(floatToHalf(v)); return r == w || (r != r && v != v); } float r = px<float>(f, p, x, y); return r == v || (r != r && v != v); }
HARNESS(h_invert) {
    startF(); VSVideoFormat f = fmtParam(), u; memset(&u, 0, sizeof u); bool mask = param("mask", 0), var = param("var", 0); frameFmt = &f; VSNode *c = var ? mkInput(u, 0, 0, 10) : mkInput(f, param("w", 4), param("h", 1), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    VSNode *o = callNode(mask ? "InvertMask" : "Invert", a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), wideFrame), *s = frameOf(d, c);
    if (var && !okFormat(f)) { vsx_assert(!g, "unsupported frames are errors"); vsx_cover("unsupported"); return; }
    common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        eachPixel(g, p, [&](int x, int y) { if (isInt(f)) vsx_assert((int64_t)ipx(g, p, x, y) == maxOf(f) - clampI(ipx(s, p, x, y), maxOf(f)), "inverted"); else { float v = sample(s, p, x, y); vsx_assert(same(g, p, x, y, chroma(f, p) && !mask ? -v : 1 - v), "inverted"); } }); }
    vsx_cover("pixels");
}
HARNESS(h_point_args) { // formats and planes
    static const char *const fn[] = { "Invert", "InvertMask", "Limiter", "Binarize", "BinarizeMask", "Levels" }; int k = param("fn", 0); startF(); VSVideoFormat f = pick("format"); VSNode *c = anyDims(f, "size"); Args a; a.clip("clip", c); bool pl[3], ok = true; if (k == 5) somePlanes(a, pl); else ok = planesArg(a, pl); ok = ok && ((f.colorFamily == cfUndefined && k < 2) || okFormat(f));
    VSNode *o = callNode(fn[k], a); vsx_assert((o != nullptr) == ok, "exactly the documented arguments are accepted"); if (refused(o)) return; vsx_assert(sameFmt(vi(o)->format, vi(c)->format) && vi(o)->width == vi(c)->width && vi(o)->numFrames == vi(c)->numFrames, "video info is kept"); vsx_cover("accepted");
}
// a per-plane list of values: up to one per plane, the last one is repeated
struct Vals { double v[3]; bool ok = true; };
static Vals values(Args &a, const char *key, const VSVideoFormat &f, const double *list, int n, double d0, double d1) {
    Vals r; r.v[0] = d0; r.v[1] = r.v[2] = d1; int k = (int)vsx_choice(f.numPlanes + (param("more", 0) ? 2 : 1), key);
    for (int i = 0; i < k; i++) { double x = list[vsx_choice(n, "value")]; a.f(key, x); if (i > 2) break; r.v[i] = x; for (int j = i + 1; j < 3; j++) r.v[j] = x; }
    if (k > f.numPlanes) r.ok = false;
    return r;
}
static bool inRange(double v, const VSVideoFormat &f) { return !isInt(f) || (v >= -.5 && v < maxOf(f) + .5); }
static int64_t rnd(double v) { return (int64_t)std::floor(v + .5); }
HARNESS(h_limiter) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 4), param("h", 1), 10); Args a; a.clip("clip", c); bool fl = !isInt(f); double M = fl ? 1 : (double)maxOf(f); const double lo[] = { 0, fl ? -.25 : 16, M / 2 + .5 }, hi[] = { M, fl ? .75 : M - 20.4, M / 4 }; double c0 = fl && f.colorFamily == cfYUV ? -.5 : 0, c1 = fl && f.colorFamily == cfYUV ? .5 : M;
    Vals mn = values(a, "min", f, lo, 3, 0, c0), mx = values(a, "max", f, hi, 3, M, c1); bool ok = mn.ok && mx.ok; for (int i = 0; i < f.numPlanes; i++) if (fl ? (float)mn.v[i] > (float)mx.v[i] : rnd(mn.v[i]) > rnd(mx.v[i])) ok = false;
    VSNode *o = callNode("Limiter", a); if (f.numPlanes < 3 && !ok) { vsx_assert(!o, "refused"); vsx_cover("refused"); return; } vsx_assert((o != nullptr) == ok, "exactly consistent limits are accepted"); if (refused(o)) return;
    Drive d; const VSFrame *g = d.run(o, frameNo(o), wideFrame), *s = frameOf(d, c); common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) eachPixel(g, p, [&](int x, int y) {
        if (!fl) { int64_t v = ipx(s, p, x, y), q = ipx(g, p, x, y), l = rnd(mn.v[p]), h = rnd(mx.v[p]); vsx_assert(q == (v < l ? l : v > h ? h : v), "limited"); }
        else { float v = sample(s, p, x, y), l = (float)mn.v[p], h = (float)mx.v[p]; if (v == v) vsx_assert(same(g, p, x, y, v < l ? l : v > h ? h : v), "limited"); } });
    vsx_cover("pixels");
}
HARNESS(h_binarize) {
    startF(); VSVideoFormat f = fmtParam(); bool mask = param("mask", 0); VSNode *c = mkInput(f, param("w", 4), param("h", 1), 10); Args a; a.clip("clip", c); bool fl = !isInt(f), uv = fl && f.colorFamily == cfYUV && !mask; double M = fl ? 1 : (double)maxOf(f), mid = fl ? .5 : (double)(1 << (f.bitsPerSample - 1));
    const double l0[] = { fl ? .125 : 3 }, l1[] = { fl ? -.5 : M - 2.5 }, lt[] = { fl ? .25 : 99.5, fl ? -.125 : 0 };
    Vals v0 = values(a, "v0", f, l0, 1, 0, uv ? -.5 : 0), v1 = values(a, "v1", f, l1, 1, M, uv ? .5 : M), t = values(a, "threshold", f, lt, 2, mid, uv ? 0 : mid); bool ok = v0.ok && v1.ok && t.ok;
    VSNode *o = callNode(mask ? "BinarizeMask" : "Binarize", a); vsx_assert((o != nullptr) == ok, "at most one value per plane"); if (refused(o)) return;
    Drive d; const VSFrame *g = d.run(o, frameNo(o), wideFrame), *s = frameOf(d, c); common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) eachPixel(g, p, [&](int x, int y) {
        if (!fl) vsx_assert((int64_t)ipx(g, p, x, y) == ((int64_t)ipx(s, p, x, y) < rnd(t.v[p]) ? rnd(v0.v[p]) : rnd(v1.v[p])), "one of two values"); else { float v = sample(s, p, x, y); if (v == v) vsx_assert(same(g, p, x, y, v < (float)t.v[p] ? (float)v0.v[p] : (float)v1.v[p]), "one of two values"); } });
    vsx_cover("pixels");
}
// any double as the first value of an argument
HARNESS(h_point_values) {
    static const char *const fn[] = { "Limiter", "Limiter", "Binarize", "Binarize", "BinarizeMask" }, *const key[] = { "min", "max", "v0", "threshold", "v1" }; int k = param("arg", 0); startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 4, 1, 10); Args a; a.clip("clip", c); double v = vsx_any<double>("value"); a.f(key[k], v);
    bool ok = inRange(v, f); if (!isInt(f) && f.colorFamily == cfGray) { if (k == 0) ok = !((float)v > 1); if (k == 1) ok = !((float)v < 0); }
    VSNode *o = callNode(fn[k], a); vsx_assert((o != nullptr) == ok, "exactly values in range are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
HARNESS(h_levels) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 4), param("h", 1), 10); Args a; a.clip("clip", c); bool fl = !isInt(f); double M = fl ? 1 : (double)maxOf(f); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    const double li[] = { 0, fl ? .25 : 16.4 }, hi[] = { M, fl ? .75 : M * 3 / 4 }, lo[] = { 0, fl ? .5 : M / 2, fl ? -2. : -300. }, ho[] = { M, fl ? .25 : M / 16, fl ? 8 : M * 4 }, gm[] = { 1, 2, .5, 1.7 };
    double i0 = li[vsx_choice(2, "min_in")], i1 = hi[vsx_choice(2, "max_in")], o0 = lo[vsx_choice(3, "min_out")], o1 = ho[vsx_choice(3, "max_out")], gam = gm[param("gamma", 0)]; a.f("min_in", i0).f("max_in", i1).f("min_out", o0).f("max_out", o1).f("gamma", gam);
    VSNode *o = callNode("Levels", a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), param("exact", 0) ? pixFrame : wideFrame), *s = frameOf(d, c); common(o, c, g, s);
    static int32_t lowT[65536], highT[65536]; int n = fl ? 0 : 1 << f.bitsPerSample; double R0 = std::round(i0), R1 = std::round(i1), S0 = std::round(o0), S1 = std::round(o1);
    for (int v = 0; v < n; v++) { double q = (v > R1 ? R1 : v) - R0; if (q < 0) q = 0; q = std::pow(q / (R1 - R0), 1 / gam) * (S1 - S0) + S0; q = q < 0 ? 0 : q > M ? M : q; double tol = 1e-5 * (M + (S0 < 0 ? -S0 : S0) + (S1 < 0 ? -S1 : S1)); lowT[v] = (int)std::ceil(q - .5 - tol); highT[v] = (int)std::floor(q + .5 + tol); }
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        eachPixel(g, p, [&](int x, int y) {
            if (!fl) { int v = (int)ipx(s, p, x, y), q = (int)ipx(g, p, x, y); if (v >= n) v = n - 1; vsx_assert(q >= lowT[v] && q <= highT[v], "the mapped value, rounded"); }
            else { float v = fpx(s, p, x, y); float q = (v > (float)i1 ? (float)i1 : v) - (float)i0; if (!(q > 0)) q = 0; vsx_assert(sameF(g, p, x, y, q * (float)((o1 - o0) / (i1 - i0)) + (float)o0), "the mapped value"); } }); }
    vsx_cover("pixels");
}
static double dbl(const char *name) { return vsx_any<double>(name); }
HARNESS(h_levels_args) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 4, 1, 10); Args a; a.clip("clip", c); static const char *const key[] = { "min_in", "max_in", "min_out", "max_out", "gamma" }; double v[5] = { 0, isInt(f) ? (double)maxOf(f) : 1, 0, 1, 1 }; int k = param("arg", 0); v[k] = dbl("value"); a.f(key[k], v[k]);
    if (param("both", 0)) { v[1 - k] = dbl("value2"); a.f(key[1 - k], v[1 - k]); }
    bool ok = true; for (int i = 0; i < 5; i++) { float x = (float)v[i]; if (!(x - x == 0)) ok = false; } if (!((float)v[1] > (float)v[0]) || !((float)v[4] > 0)) ok = false;
    if (ok && isInt(f)) { double r0 = std::round((float)v[0]), r1 = std::round((float)v[1]); if (r0 == r1) ok = false; }
    VSNode *o = callNode("Levels", a); vsx_assert((o != nullptr) == ok, "exactly the documented values are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
