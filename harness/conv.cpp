// Convolution
#include "pix.h"
static int mirror(int i, int len) { return i < 0 ? -i - 1 : i >= len ? 2 * len - 1 - i : i; }
struct Conv { double c[121]; int n, mode; double bias = 0, div = 0; bool sat = true; };
static const char *const modes[] = { "s", "h", "v", "hv", "vh" };
static void weights(Conv &k, int kind, bool fl) {
    double sum = 0;
    for (int i = 0; i < k.n; i++) { double x; switch (kind) {
        case 0: x = (i * 7 + 3) % 23 - 9 + (i % 3 - 1) * .4; break;       // distinct, fractional
        case 1: x = i % 2 ? 1023 : -1023; break;                           // largest magnitude
        case 2: x = 1; break;                                              // blur
        case 3: x = 1023.4; break;                                         // largest sum
        case 4: x = (i * 5 + 1) % 11 - 5; break;                            // sums up to 0 after the last is adjusted
        default: x = i == k.n / 2 + kind - 6 ? 1 : 0; }                     // a single tap
        if (!fl) x = x < 0 ? -std::floor(-x + .5) : std::floor(x + .5); if (kind == 4 && i == k.n - 1) x = -sum; k.c[i] = x; sum += x; }
}
static void give(Args &a, const Conv &k, bool fl, int kind) { for (int i = 0; i < k.n; i++) a.f("matrix", !fl && kind == 0 ? k.c[i] + (i % 3 - 1) * .4 : k.c[i]); if (k.bias != 0) a.f("bias", k.bias); if (k.div != 0) a.f("divisor", k.div); if (!k.sat) a.i("saturate", 0); if (k.mode) a.s("mode", modes[k.mode]); }
// samples beyond the edge are mirrored
static double divisor(const Conv &k) { double s = 0; for (int i = 0; i < k.n; i++) s += k.c[i]; return k.div != 0 ? k.div : s > -1e-7 && s < 1e-7 ? 1 : s; }
HARNESS(h_conv) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 8), param("h", 5), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }, fl = !isInt(f); if (param("planes", 0)) somePlanes(a, pl);
    Conv k; k.n = param("n", 9); k.mode = param("mode", 0); int kind = param("kind", 0); weights(k, kind, fl); static const double bl[] = { 0, 13.25, -20.5 }, dl[] = { 0, 3, -7.5 }; int cf = (int)vsx_choice(param("cfg", 1), "configuration") + param("cfg0", 0); k.bias = bl[cf % 3]; k.div = dl[(cf + cf / 3) % 3]; k.sat = !(cf & 1); give(a, k, fl, kind);
    VSNode *o = callNode("Convolution", a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), spotFrame), *s = frameOf(d, c); common(o, c, g, s); double dv = divisor(k); int N = 1; while (N * N < k.n) N++;
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        int w = pw(s, p), h = ph(s, p), R = k.mode ? k.n / 2 : N / 2; double M = fl ? 0 : (double)maxOf(f);
        eachPixel(g, p, [&](int x, int y) {
            double sum = 0, mag = 0; for (int i = 0; i < k.n; i++) { int dx = k.mode == 2 ? 0 : k.mode == 1 ? i - R : i % N - R, dy = k.mode == 1 ? 0 : k.mode == 2 ? i - R : i / N - R, xx = mirror(x + dx, w), yy = mirror(y + dy, h); if (k.mode == 0) { xx = xx < 0 ? 0 : xx >= w ? w - 1 : xx; yy = yy < 0 ? 0 : yy >= h ? h - 1 : yy; } double v = fl ? (double)fpx(s, p, xx, yy) : (double)(int)ipx(s, p, xx, yy), t = v * k.c[i]; sum += t; if (fl) mag += t < 0 ? -t : t; }
            double e = sum / dv + k.bias, es = sum / dv, tol = (fl ? mag / (dv < 0 ? -dv : dv) * 4e-6 : (es < 0 ? -es : es) * 3e-7) + (k.bias < 0 ? -k.bias : k.bias) * 3e-7; if (!k.sat && e < 0) e = -e;
            if (fl) { double q = fpx(g, p, x, y); if (f.bytesPerSample == 2) { tol += (e < 0 ? -e : e) / 2000 + 1e-7; } vsx_assert((q >= e - tol) & (q <= e + tol), "the convolution"); }
            else { double q = (double)(int)ipx(g, p, x, y); vsx_assert(((q >= e - .5 - tol) | (q == M)) & ((q <= e + .5 + tol) | (q == 0)), "the convolution"); } }); }
    vsx_cover("pixels");
}
// hv and vh: a whole vertical pass (divisor, bias, rounding and clamping included), then a horizontal one
HARNESS(h_sep) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, param("w", 8), param("h", 5), 10); Args a; a.clip("clip", c); bool fl = !isInt(f); Conv k; k.n = param("n", 3); k.mode = 3 + (int)vsx_choice(2, "mode"); int R = k.n / 2;
    for (int i = 0; i < k.n; i++) k.c[i] = (i * 5 + 2) % 7 - (k.n > 5 ? 3 : 2); k.div = 1; int cf = (int)vsx_choice(param("cfg", 1), "configuration"); k.bias = cf == 1 ? -37 : cf == 2 ? 20 : 0; k.sat = cf != 2; if (cf == 3) { k.div = .5; } give(a, k, fl, 1); if (k.n > 3 && param("big", 0)) k.c[0] = 0;
    VSNode *o = callNode("Convolution", a); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, frameNo(o), spotFrame), *s = frameOf(d, c); common(o, c, g, s);
    for (int p = 0; p < f.numPlanes; p++) { int w = pw(s, p), h = ph(s, p); double M = fl ? 0 : (double)maxOf(f);
        auto fin = [&](double t) { t = t / k.div + k.bias; if (!k.sat) t = t < 0 ? -t : t; if (!fl) t = t < 0 ? 0 : t > M ? M : t; return t; };
        for (int y = 0; y < h; y++) { std::vector<double> row(w); for (int x = 0; x < w; x++) { double t = 0; for (int i = 0; i < k.n; i++) { int yy = mirror(y + i - R, h); t += (fl ? (double)fpx(s, p, x, yy) : (double)(int)ipx(s, p, x, yy)) * k.c[i]; } row[x] = fin(t); }
            for (int x = 0; x < w; x++) { double t = 0, q, tol = 0; for (int i = 0; i < k.n; i++) t += row[mirror(x + i - R, w)] * k.c[i]; double e = fin(t); if (fl) { q = fpx(g, p, x, y); tol = .002; } else { q = (double)(int)ipx(g, p, x, y); } vsx_assert((q >= e - tol) & (q <= e + tol), "both passes"); } } }
    vsx_cover("pixels");
}
// which matrices, modes and values are accepted
HARNESS(h_conv_args) {
    startF(); VSVideoFormat f = fmtParam(); static const int dim[] = { 4, 8, 13 }; int w = dim[vsx_choice(3, "width")], h = dim[vsx_choice(3, "height")]; VSNode *c = mkInput(f, w, h, 10); Args a; a.clip("clip", c); static const int cnt[] = { 1, 3, 4, 8, 9, 10, 15, 17, 24, 25, 26, 27, 49, 81, 120, 121, 122 }; int n = cnt[vsx_choice(17, "elements")], m = (int)vsx_choice(8, "mode"); static const char *const md[] = { "s", "h", "v", "hv", "vh", "x", "", "square" }; for (int i = 0; i < n; i++) a.f("matrix", 1); if (m || vsx_choice(2, "default")) a.s("mode", md[m]);
    bool ok = m == 0 ? n == 9 || n == 25 || n == 49 || n == 81 || n == 121 : m <= 4 && n >= 3 && n <= 25 && n % 2; bool sub = f.numPlanes > 1 && f.subSamplingW; int lw = sub ? w >> f.subSamplingW : w, lh = sub ? h >> f.subSamplingH : h; if (lw < 4 || lh < 4) ok = false; if ((m == 1 || m > 2) && n / 2 >= lw) ok = false; if (m >= 2 && n / 2 >= lh) ok = false;
    if (sub) vsx_assume(w % (1 << f.subSamplingW) == 0 && h % (1 << f.subSamplingH) == 0);
    VSNode *o = callNode("Convolution", a); vsx_assert((o != nullptr) == ok, "exactly the documented matrices are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
HARNESS(h_conv_values) { // any double as one coefficient, the bias or the divisor
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 8, 8, 10); Args a; a.clip("clip", c); double v = vsx_any<double>("value"); int k = (int)vsx_choice(3, "argument"); for (int i = 0; i < 9; i++) a.f("matrix", i == param("at", 4) && k == 0 ? v : i); if (k == 1) a.f("bias", v); if (k == 2) a.f("divisor", v);
    bool ok = k ? (float)v - (float)v == 0 : v - v == 0 && (!isInt(f) || (v > -1023.5 && v < 1023.5));
    VSNode *o = callNode("Convolution", a); vsx_assert((o != nullptr) == ok, "exactly values in range are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
