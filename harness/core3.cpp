// Numeric conversions and rational arithmetic every filter relies on.
#include "flt.h"
using namespace vsh;
HARNESS(h_satint) {
    int64_t v = vsx_any<int64_t>("v");
    int r = int64ToIntS(v);
    vsx_assert(r == (v > 2147483647ll ? 2147483647 : v < -2147483648ll ? (int)-2147483648ll : (int)v), "nearest representable integer");
    int64_t w = vsx_any<int64_t>("w");
    vsx_assert(v > w || int64ToIntS(v) <= int64ToIntS(w), "order preserving");
    vsx_cover("done");
}
HARNESS(h_satmap) {
    setup();
    VSMap *m = api->createMap(); int e;
    int64_t v = vsx_any<int64_t>("v"); api->mapSetInt(m, "k", v, maReplace);
    int r = api->mapGetIntSaturated(m, "k", 0, &e);
    vsx_assert(e == 0 && r == (v > 2147483647ll ? 2147483647 : v < -2147483648ll ? (int)-2147483648ll : (int)v), "saturated integer read");
    double d = vsx_any<double>("d"); api->mapSetFloat(m, "f", d, maReplace);
    float f = api->mapGetFloatSaturated(m, "f", 0, &e);
    vsx_assert(e == 0, "float read");
    vsx_assert((f != f) == (d != d), "not a number exactly when the stored value is not");
    if (d == d) {
        float want = (float)d;
        vsx_assert(!memcmp(&want, &f, 4), "nearest single precision value");
        vsx_assert(!(d >= 0) | (f >= 0), "sign kept"); vsx_assert(!(d <= 0) | (f <= 0), "sign kept");
    }
    vsx_cover("done");
}
// all rationals with components in the bound
static void checkReduced(int64_t n, int64_t d, int64_t wn, int64_t wd, int64_t bound) {
    vsx_assert(n * wd == wn * d, "the value is exact");
    int64_t k = vsx_range<int64_t>(2, bound, "k");
    vsx_assert(!((n % k == 0) & (d % k == 0)), "the result is in lowest terms");
    vsx_assert((d > 0) == (wd > 0), "the sign of the denominator is kept");
}
HARNESS(h_reduce) {
    int64_t b = vsx_param("b", 40);
    int64_t n = vsx_range<int64_t>(1, b, "num"), d = vsx_range<int64_t>(1, b, "den"), n0 = n, d0 = d;
    if (vsx_choice(2, "neg")) n0 = n = -n;
    reduceRational(&n, &d);
    checkReduced(n, d, n0, d0, b);
    vsx_cover("done");
}
HARNESS(h_muldiv) {
    int64_t b = vsx_param("b", 8);
    int64_t n = vsx_range<int64_t>(1, b, "num"), d = vsx_range<int64_t>(1, b, "den"), n0 = n, d0 = d;
    int64_t mu = vsx_range<int64_t>(1, b, "mul"), di = vsx_range<int64_t>(1, b, "div");
    muldivRational(&n, &d, mu, di);
    checkReduced(n, d, n0 * mu, d0 * di, b * b);
    vsx_cover("done");
}
HARNESS(h_addrat) {
    int64_t b = vsx_param("b", 6);
    int64_t n = vsx_range<int64_t>(0, b, "num"), d = vsx_range<int64_t>(1, b, "den"), n0 = n, d0 = d;
    int64_t an = vsx_range<int64_t>(1, b, "addnum"), ad = vsx_range<int64_t>(1, b, "addden");
    addRational(&n, &d, an, ad);
    checkReduced(n, d, n0 * ad + an * d0, d0 * ad, 2 * b * b);
    vsx_cover("done");
}
HARNESS(h_ratinvalid) {
    int64_t n = vsx_any<int64_t>("num"), d = 0, n0 = n, m = vsx_any<int64_t>("mul"), v = vsx_any<int64_t>("div"); vsx_assume(v != 0);
    if (vsx_choice(2, "op")) muldivRational(&n, &d, m, v); else addRational(&n, &d, m, v);
    vsx_assert(n == n0 && d == 0, "an invalid rational is left alone");
    vsx_cover("done");
}
// huge components: the common factor is removed without overflow
HARNESS(h_reducebig) {
    int64_t k = vsx_range<int64_t>(1, INT64_MAX / 7, "k"), n = k * 5, d = k * 7;
    if (vsx_choice(2, "swap")) { n = k * 3; d = k; }
    int64_t wn = n == k * 5 ? 5 : 3, wd = d == k ? 1 : 7;
    if (wd == 1) { n = k * 3; wn = 3; }
    reduceRational(&n, &d);
    vsx_assert(n == wn && d == wd, "common factor removed");
    vsx_cover("done");
}
// bitblt copies exactly the visible rectangle
HARNESS(h_bitblt) {
    uint8_t src[40], dst[40], old[40];
    vsx_symbolic(src, 40, 1, "src"); vsx_symbolic(dst, 40, 1, "dst"); memcpy(old, dst, 40);
    int w = vsx_choice(5, "w"), h = vsx_choice(4, "h"), ss = w + vsx_choice(4, "sp"), ds = w + vsx_choice(4, "dp");
    bitblt(dst + 2, ds, src + 1, ss, w, h);
    for (int i = 0; i < 40; i++) {
        int o = i - 2, y = ds ? o / ds : 0, x = ds ? o % ds : 0; bool in = o >= 0 && w > 0 && y < h && x < w;
        vsx_assert(dst[i] == (in ? src[1 + y * ss + x] : old[i]), "exactly the rectangle is copied");
    }
    vsx_cover("done");
}
HARNESS(h_dims) {
    setup();
    VSVideoFormat f = fmtOf(vsx_choice(2, "f") ? pfYUV420P8 : pfYUV410P8);
    int w = vsx_range<int>(1, INT32_MAX, "w"), h = vsx_range<int>(1, INT32_MAX, "h");
    bool ok = areValidDimensions(&f, w, h);
    vsx_assert(ok == ((w & ((1 << f.subSamplingW) - 1)) == 0 && (h & ((1 << f.subSamplingH) - 1)) == 0), "dimensions are multiples of the subsampling");
    vsx_cover("done");
}
// colours: any double given as a fill colour is either refused or becomes the nearest sample value
HARNESS(h_color) {
    setup();
    static const uint32_t ids[] = { pfGray8, pfGray10, pfGray16, pfGray32, pfGrayS };
    int fi = vsx_param("fmt", -1); if (fi < 0) fi = vsx_choice(4, "fmt");
    VSVideoFormat f = fmtOf(ids[fi]);
    double c = vsx_any<double>("color");
    Args a; a.i("format", ids[fi]).i("width", 1).i("height", 1).i("length", 1).f("color", c);
    VSNode *n = callNode("BlankClip", a);
    if (f.sampleType == stInteger) {
        double maxv = f.bitsPerSample == 32 ? 4294967295.0 : (double)((1ull << f.bitsPerSample) - 1);
        bool ok = c >= 0 && c < maxv + 0.5;
        vsx_assert((n != nullptr) == ok, "exactly the representable colours are accepted");
        if (n) {
            const VSFrame *fr = get(n, 0);
            uint32_t p = ipx(fr, 0, 0, 0);
            vsx_assert(p <= maxv, "in range");
            double e = (double)p - c;
            vsx_assert((e <= 0.5) & (e >= -0.5), "nearest sample value");
            vsx_cover("accepted");
        } else vsx_cover("refused");
    } else {
        float w = (float)c; bool ok = w - w == 0;
        vsx_assert((n != nullptr) == ok, "exactly the finite colours are accepted");
        if (n) { float p = px<float>(get(n, 0), 0, 0, 0); vsx_assert(!memcmp(&p, &w, 4), "colour is exact"); vsx_cover("accepted"); }
        else vsx_cover("refused");
    }
}
