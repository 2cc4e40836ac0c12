// Filters that compute a sample from its neighbourhood: Minimum, Maximum, Median, Deflate, Inflate, Prewitt, Sobel
#include "pix.h"
static const char *const names[] = { "Minimum", "Maximum", "Median", "Deflate", "Inflate", "Prewitt", "Sobel" };
enum { Minimum, Maximum, Median, Deflate, Inflate, Prewitt, Sobel };
static int edge(int i, int len) { return i < 0 ? 0 : i >= len ? len - 1 : i; }
template <class T> static T low(T a, T b) { return b < a ? b : a; }
template <class T> static T high(T a, T b) { return a < b ? b : a; }
template <class T, class Get> static T expect(int op, const T a[9], const bool en[8], T th, Get) { // everything but Median and the gradients
    T m = a[4];
    if (op == Minimum || op == Maximum) { for (int i = 0; i < 8; i++) { T v = a[i < 4 ? i : i + 1]; if (en[i]) m = op == Minimum ? low(m, v) : high(m, v); } }
    else { T s = 0; for (int i = 0; i < 9; i++) if (i != 4) s += a[i]; s = std::is_integral<T>::value ? (s + 4) / 8 : s / 8; m = op == Deflate ? low(s, m) : high(s, m); }
    return m;
}
HARNESS(h_spatial) {
    int op = param("op", 0); startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 4), param("h", 4), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }, fl = !isInt(f); if (param("planes", 0)) somePlanes(a, pl);
    double th = -1; bool en[8]; for (int i = 0; i < 8; i++) en[i] = true;
    if (op != Median && param("th", 0)) { if (fl) { const double l[] = { 0, .25, 100 }; th = l[vsx_choice(3, "threshold")]; } else { const double l[] = { 0, 1.49, (double)maxOf(f) / 4, (double)maxOf(f) }; th = l[vsx_choice(4, "threshold")]; } a.f("threshold", th); }
    if (op <= Maximum && param("co", 0)) { static const uint8_t pat[] = { 0x00, 0x5a, 0xa5, 0x01, 0x80, 0x1e, 0x68, 0x17 }; int k = (int)vsx_choice(8, "coordinates"); for (int i = 0; i < 8; i++) { en[i] = pat[k] >> i & 1; a.i("coordinates", en[i] ? i + 1 : 0); } }
    VSNode *o = callNode(names[op], a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), param("num", 0) ? numFrame : latFrame), *s = frameOf(d, c); common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        int w = pw(s, p), h = ph(s, p);
        eachPixel(g, p, [&](int x, int y) {
            if (fl) { float v[9]; for (int i = 0; i < 9; i++) v[i] = fpx(s, p, edge(x + i % 3 - 1, w), edge(y + i / 3 - 1, h));
                if (op == Median) { float q = fpx(g, p, x, y); int le = 0, ge = 0; for (int i = 0; i < 9; i++) { le += v[i] <= q; ge += v[i] >= q; } vsx_assert(le >= 5 && ge >= 5, "the median"); return; }
                float m = expect<float>(op, v, en, (float)th, 0); if (th >= 0) m = op == Minimum || op == Deflate ? high(m, v[4] - (float)th) : low(m, v[4] + (float)th); vsx_assert(sameF(g, p, x, y, m), "the expected sample");
            } else { int v[9]; for (int i = 0; i < 9; i++) v[i] = (int)ipx(s, p, edge(x + i % 3 - 1, w), edge(y + i / 3 - 1, h)); int q = (int)ipx(g, p, x, y);
                if (op == Median) { int le = 0, ge = 0; for (int i = 0; i < 9; i++) { le += v[i] <= q; ge += v[i] >= q; } vsx_assert(le >= 5 && ge >= 5, "the median"); return; }
                int m = expect<int>(op, v, en, 0, 0); if (th >= 0) { int t = (int)std::floor(th + .5); m = op == Minimum || op == Deflate ? high(m, v[4] - t) : low(m, v[4] + t); } vsx_assert(q == m, "the expected sample"); } }); }
    vsx_cover("pixels");
}
// gradients: the nearest sample to scale * sqrt(gx^2 + gy^2)
HARNESS(h_gradient) {
    int op = param("op", 5), k = op == Sobel ? 2 : 1; startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 4), param("h", 4), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }, fl = !isInt(f); if (param("planes", 0)) somePlanes(a, pl);
    const double sc[] = { 1, .25, 0, 1.7, 300 }; double scale = sc[vsx_choice(param("sc", 1), "scale")]; if (scale != 1) a.f("scale", scale); scale = (float)scale;
    VSNode *o = callNode(names[op], a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), latFrame), *s = frameOf(d, c); common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        int w = pw(s, p), h = ph(s, p);
        eachPixel(g, p, [&](int x, int y) {
            double v[9]; for (int i = 0; i < 9; i++) { int xx = edge(x + i % 3 - 1, w), yy = edge(y + i / 3 - 1, h); v[i] = fl ? (double)fpx(s, p, xx, yy) : (double)(int)ipx(s, p, xx, yy); }
            double gx = v[6] + k * v[7] + v[8] - v[0] - k * v[1] - v[2], gy = v[2] + k * v[5] + v[8] - v[0] - k * v[3] - v[6], e = std::sqrt(gx * gx + gy * gy) * scale;
            if (fl) { double q = fpx(g, p, x, y), tol = e * (f.bytesPerSample == 2 ? 1 / 2000. : 1e-6); vsx_assert(q >= e - tol && q <= e + tol, "the gradient"); }
            else { double q = (double)(int)ipx(g, p, x, y), M = (double)maxOf(f), tol = e * 1e-6; vsx_assert((q >= e - .5 - tol || q == M) && q <= e + .5 + tol, "the gradient"); } }); }
    vsx_cover("pixels");
}
// which clips, planes and arguments are accepted
static VSVideoFormat pick2() { int k = (int)vsx_choice(7, "format"); static const int l[] = { 0, 1, 3, 5, 6, 9 }; if (k == 6) { VSVideoFormat u; memset(&u, 0, sizeof u); return u; } return fmtNo(l[k]); }
HARNESS(h_spatial_args) {
    int op = param("op", 0); startF(); VSVideoFormat f = pick2(); static const int dim[] = { 0, 2, 4, 6, 8 }; bool sy = param("sym", 0); int w = sy ? 8 : dim[vsx_choice(5, "width")], h = sy ? 8 : w ? dim[1 + vsx_choice(4, "height")] : 0; VSNode *c = mkInput(f, w, h, 10); Args a; a.clip("clip", c); bool pl[3], ok = true; if (sy) ok = planesArg(a, pl); else somePlanes(a, pl); ok = ok && okFormat(f);
    if (w && !sy && f.numPlanes) for (int p = 0; p < f.numPlanes; p++) if (pl[p] && ((w >> (p ? f.subSamplingW : 0)) < 4 || (h >> (p ? f.subSamplingH : 0)) < 4)) ok = false;
    VSNode *o = callNode(names[op], a); vsx_assert((o != nullptr) == ok, "exactly processable clips are accepted"); if (refused(o)) return;
    vsx_assert(sameFmt(vi(o)->format, vi(c)->format) && vi(o)->width == vi(c)->width && vi(o)->height == vi(c)->height && vi(o)->numFrames == vi(c)->numFrames, "video info is kept"); vsx_cover("accepted");
}
HARNESS(h_spatial_values) { // thresholds and scales: any double; coordinates: any number of them
    int op = param("op", 0); startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 8, 8, 10); Args a; a.clip("clip", c); bool ok = true, fl = !isInt(f);
    if (op != Median) { double v = vsx_any<double>("value"); a.f(op >= Prewitt ? "scale" : "threshold", v); float s = (float)v; ok = s - s == 0; ok = ok && (op >= Prewitt || fl ? s >= 0 : s > -.5f && s < (float)maxOf(f) + .5f); }
    if (op <= Maximum) { int k = (int)vsx_choice(11, "number of coordinates"); for (int i = 0; i < k; i++) a.i("coordinates", i & 1); if (k && k != 8) ok = false; }
    VSNode *o = callNode(names[op], a); vsx_assert((o != nullptr) == ok, "exactly values in range are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
// clips of variable size: frames with planes that are too small are errors
HARNESS(h_spatial_var) {
    int op = param("op", 0); startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 0, 0, 10); Args a; a.clip("clip", c); bool pl[3]; somePlanes(a, pl); VSNode *o = callNode(names[op], a); vsx_assert(o != nullptr, "accepted");
    static int w, h; static const int dim[] = { 2, 4, 6, 8 }; w = dim[vsx_choice(4, "width")]; h = dim[vsx_choice(4, "height")]; bool ok = true; for (int p = 0; p < f.numPlanes; p++) if (pl[p] && ((w >> (p ? f.subSamplingW : 0)) < 4 || (h >> (p ? f.subSamplingH : 0)) < 4)) ok = false;
    Drive d; const VSFrame *g = d.run(o, frameNo(o), [](VSNode *n, int k, void *) -> const VSFrame * { VSFrame *r = api->newVideoFrame(&vi(n)->format, w, h, nullptr, core); for (int p = 0; p < vi(n)->format.numPlanes; p++) memset(api->getWritePtr(r, p), 7, api->getStride(r, p) * ph(r, p)); return r; });
    vsx_assert((g != nullptr) == ok, "exactly frames that can be processed"); if (!g) { vsx_cover("refused"); return; }
    for (int p = 0; p < f.numPlanes; p++) eachPixel(g, p, [&](int x, int y) { vsx_assert(ipx(g, p, x, y) == (pl[p] && op >= Prewitt ? 0u : (f.bytesPerSample == 1 ? 7u : 0x0707u)), "a flat plane"); }); vsx_cover("accepted");
}
