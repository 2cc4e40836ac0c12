// BoxBlur, AverageFrames, PlaneStats
#include "pix.h"
static int edge(int i, int len) { return i < 0 ? 0 : i >= len ? len - 1 : i; }
// ---- BoxBlur: passes of a running mean, odd passes rounded up, even ones down
struct Grid { int w, h; std::vector<int64_t> i; std::vector<double> f; };
static void mean1(Grid &g, bool vert, int r, int passes, bool fl, bool half) {
    for (int p = 0; p < passes; p++) {
        Grid o = g; int64_t div = 2 * (int64_t)r + 1;
        for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) { // repeated edge samples are counted, not visited
            int len = vert ? g.h : g.w, c = vert ? y : x; int64_t s = 0; double d = 0;
            for (int k = 0; k < len; k++) { int64_t times = (k >= c - r && k <= c + r) ? 1 : 0; if (k == 0 && c - r < 0) times += r - c; if (k == len - 1 && c + r > len - 1) times += c + r - (len - 1); int at = vert ? k * g.w + x : y * g.w + k; if (!times) continue; if (fl) d += (double)times * g.f[at]; else s += times * g.i[at]; }
            if (fl) { d /= (double)div; o.f[y * g.w + x] = half ? hToF(fToH((float)d)) : d; } else o.i[y * g.w + x] = (int64_t)((uint32_t)(s + (p & 1 ? 0 : div - 1)) / (uint32_t)div);
        }
        g = o;
    }
}
HARNESS(h_blur) {
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f); VSNode *c = mkInput(f, param("w", 6), param("h", 6), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    int hr = param("hr", 1), hp = param("hp", 1), vr = param("vr", 1), vp = param("vp", 1);
    if (hr != 1) a.i("hradius", hr); if (hp != 1) a.i("hpasses", hp); if (vr != 1) a.i("vradius", vr); if (vp != 1) a.i("vpasses", vp);
    VSNode *o = callNode("BoxBlur", a); vsx_assert(o != nullptr, "accepted");
    Tree t(param("lat", 0) ? latFrame : spotFrame); const VSFrame *g = t.get(o, frameNo(o)), *s = t.source(); vsx_assert(g != nullptr, "produced"); vsx_assert(propI(g, "idx") == propI(s, "idx"), "properties are kept");
    vsx_assert(sameFmt(*api->getVideoFrameFormat(g), f) && pw(g, 0) == pw(s, 0) && ph(g, 0) == ph(s, 0) && sameFmt(vi(o)->format, f) && vi(o)->width == vi(c)->width && vi(o)->height == vi(c)->height && vi(o)->numFrames == vi(c)->numFrames && vi(o)->fpsNum == vi(c)->fpsNum && vi(o)->fpsDen == vi(c)->fpsDen, "video info is kept");
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        Grid q; q.w = pw(s, p); q.h = ph(s, p); for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) if (fl) q.f.push_back(fpx(s, p, x, y)); else q.i.push_back((int)ipx(s, p, x, y));
        if (hr > 0) mean1(q, false, hr, hp, fl, false); if (vr > 0) mean1(q, true, vr, vp, fl, false);
        double tol = fl ? (f.bytesPerSample == 2 ? .0625 : 1e-3) * ((hr > 0 ? hp : 0) + (vr > 0 ? vp : 0)) : 0;
        eachPixel(g, p, [&](int x, int y) { if (fl) { double e = q.f[y * q.w + x], v = fpx(g, p, x, y); vsx_assert((v >= e - tol) & (v <= e + tol), "the mean"); } else vsx_assert((int64_t)ipx(g, p, x, y) == q.i[y * q.w + x], "the mean"); });
    }
    vsx_cover("pixels");
}
HARNESS(h_blur_args) {
    startF(); VSVideoFormat f = pick("format"); static const int dim[] = { 0, 2, 4, 8 }; int w = dim[vsx_choice(4, "width")], h = w ? dim[1 + vsx_choice(3, "height")] : 0; VSNode *c = mkInput(f, w, h, 10); Args a; a.clip("clip", c); bool ok = okFormat(f) && w >= 4 && h >= 4;
    static const char *const nm[] = { "hradius", "hpasses", "vradius", "vpasses" }; int64_t v[4] = { 1, 1, 1, 1 };
    for (int i = 0; i < 4; i++) if (vsx_choice(2, nm[i])) { v[i] = anyArg(a, nm[i], nm[i]); if (v[i] < 0 || ((i & 1) == 0 && v[i] > 30000)) ok = false; }
    if (!((v[0] > 0 && v[1] > 0) || (v[2] > 0 && v[3] > 0))) ok = false;
    VSNode *o = callNode("BoxBlur", a); vsx_assert((o != nullptr) == ok, "exactly valid arguments are accepted"); if (refused(o)) return;
    vsx_assert(sameFmt(vi(o)->format, f) && vi(o)->width == w && vi(o)->height == h && vi(o)->numFrames == 10, "video info is kept"); vsx_cover("accepted");
}
HARNESS(h_blur_planes) {
    startF(); VSVideoFormat f = fmtParam(); VSNode *c = mkInput(f, 8, 8, 10); Args a; a.clip("clip", c); bool pl[3], ok = planesArg(a, pl); VSNode *o = callNode("BoxBlur", a); vsx_assert((o != nullptr) == ok, "exactly valid arguments are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
// ---- test frames
static const VSFrame *twoSpots(VSNode *node, int n, void *) { // one arbitrary sample anywhere and one at a fixed place; the rest fixed
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); const VSVideoFormat *vf = &v->format; int M = isInt(*vf) ? (int)maxOf(*vf) : 255, bg = (int)vsx_choice(param("bg", 3), "background"), pp = param("plane", 0), W = pw(f, pp), all = W * ph(f, pp), np = param("pos", all), at = (int)vsx_choice(np, "position") * (np < all ? (all - 1) / (np - 1) : 1), sw = param("sp", 1); bool big = M > 255;
    for (int p = 0; p < vf->numPlanes; p++) { memset(api->getWritePtr(f, p), 0, api->getStride(f, p) * ph(f, p));
        for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) put(f, p, x, y, p == pp && (y * W + x == at || (sw && y * W + x == W * ph(f, p) - 1)) ? (big && y * W + x == at ? (int)vsx_range<uint16_t>(0, (uint16_t)M, "sample") : big ? (int)vsx_any<uint8_t>("sample") * (M / 255) : (int)vsx_any<uint8_t>("sample")) : bg == 1 ? M : bg == 2 ? 0 : (x * 37 + y * 91 + x * y * 5 + p * 11) * (M / 255) % (M + 1)); }
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
static const VSFrame *statFrame(VSNode *node, int n, void *ud) {
    if (node == *(VSNode **)ud) return twoSpots(node, n, ud); const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); int M = isInt(v->format) ? (int)maxOf(v->format) : 255;
    for (int p = 0; p < v->format.numPlanes; p++) for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) put(f, p, x, y, (x * 51 + y * 19 + p) * (M / 255) % (M + 1)); api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
// ---- AverageFrames
struct Avg { std::vector<double> w; double scale; };
static double wt(int kind, int i, int n) { switch (kind) { case 0: return (i * 7 + 3) % 11 - 2 + (i % 3 - 1) * .4; case 1: return i % 2 ? 1023 : -1023; case 2: return 1; case 3: return 1023.4; default: return i == n / 2 ? 2.5 : -.5; } }
static double rnd(double x) { return x < 0 ? -std::floor(-x + .5) : std::floor(x + .5); }
static void checkAvg(const VSFrame *g, const std::vector<const VSFrame *> &fr, const std::vector<double> &w, double scale, const bool pl[3], const VSFrame *center, const VSVideoFormat &f) {
    bool fl = !isInt(f);
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, center, p, "planes not listed are passed on"); continue; }
        double bias = !fl && p && f.colorFamily == cfYUV ? (double)(1 << (f.bitsPerSample - 1)) : 0, M = fl ? 0 : (double)maxOf(f);
        eachPixel(g, p, [&](int x, int y) { double s = 0, mag = 0; for (size_t i = 0; i < fr.size(); i++) { double v = fl ? (double)fpx(fr[i], p, x, y) : (double)(int)ipx(fr[i], p, x, y) - bias; s += v * w[i]; mag += (fl ? 20 : 65536) * std::fabs(w[i]); }
            double e = s / scale + bias, tol = mag / std::fabs(scale) * (f.bytesPerSample == 2 && fl ? 1e-3 : 3e-7);
            if (fl) { double q = fpx(g, p, x, y); vsx_assert((q >= e - tol) & (q <= e + tol), "the weighted mean"); }
            else { double q = (double)(int)ipx(g, p, x, y); tol = std::fabs(e - bias) * 3e-7 ; vsx_assert(((q >= e - .5 - tol) | (q == M)) & ((q <= e + .5 + tol) | (q == 0)), "the weighted mean"); } }); }
}
static double defScale(const std::vector<double> &w, bool fl) { double s = 0; for (double x : w) s += x; return fl ? (s < 1.1e-7 ? 1 : s) : s < 1 ? 1 : s; }
static VSNode *full; static std::vector<VSNode *> given;
static const VSFrame *avgFrame(VSNode *node, int n, void *ud) { // every=N: only every Nth clip has arbitrary samples
    int e = param("every", 1); for (size_t i = 0; i < given.size(); i++) if (given[i] == node && i % e) return statFrame(node, n, &given[0]); return param("lat", 0) ? latFrame(node, n, ud) : spotFrame(node, n, ud);
}
// several clips of several lengths
HARNESS(h_average) {
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f), pl[3] = { true, true, true }; int k = param("n", 3), kind = param("kind", 0); Args a; std::vector<VSNode *> c; int len = 0;
    for (int i = 0; i < k; i++) { int l = i % 3 == 1 ? 7 : i % 3 == 2 ? 12 : 10; c.push_back(mkInput(f, param("w", 4), param("h", 2), l)); if (l > len) len = l; a.clip("clips", c[i]); }
    std::vector<double> w; for (int i = 0; i < k; i++) { double x = wt(kind, i, k); a.f("weights", x); w.push_back(fl ? (double)(float)x : rnd(x)); } if (param("planes", 0)) somePlanes(a, pl);
    const double sc[] = { 0, 1, 7.4, 20, 1e6, 3e9 }; double scale = sc[vsx_choice(param("sc", 1), "scale")]; if (scale != 0) { a.f("scale", scale); scale = fl ? (double)(float)scale : scale > 2147483647 ? 2147483647 : rnd(scale); } else scale = defScale(w, fl);
    VSNode *o = callNode("AverageFrames", a); vsx_assert(o != nullptr, "accepted"); vsx_assert(vi(o)->numFrames == len && sameFmt(vi(o)->format, f) && vi(o)->width == vi(c[0])->width && vi(o)->height == vi(c[0])->height && vi(o)->fpsNum == 24, "as long as the longest clip"); for (int i = 0; i < k; i++) deps(o, c[i], i);
    given = c; full = c[vsx_choice(k > 3 ? 3 : k, "clip")]; Drive d; int n = frameNo(o); const VSFrame *g = d.run(o, n, avgFrame, &full); vsx_assert(g != nullptr, "produced"); std::vector<const VSFrame *> fr; for (int i = 0; i < k; i++) { fr.push_back(frameOf(d, c[i])); vsx_assert(propI(fr[i], "idx") == (n < vi(c[i])->numFrames ? n : vi(c[i])->numFrames - 1), "short clips are extended by their last frame"); }
    vsx_assert(propI(g, "idx") == propI(fr[0], "idx"), "properties come from the first clip"); checkAvg(g, fr, w, scale, pl, fr[0], f); vsx_cover("pixels");
}
// one clip: neighbouring frames, with scene changes
static int scPrev, scNext;
static const VSFrame *sceneFrame(VSNode *node, int n, void *ud) {
    VSFrame *f = const_cast<VSFrame *>(param("lat", 0) ? latFrame(node, n, ud) : spotFrame(node, n, ud)); VSMap *m = api->getFramePropertiesRW(f);
    if (n == scPrev) api->mapSetInt(m, "_SceneChangePrev", 1, maReplace); else if (n & 1) api->mapSetInt(m, "_SceneChangePrev", 0, maReplace); if (n == scNext) api->mapSetInt(m, "_SceneChangeNext", 1, maReplace); return f;
}
HARNESS(h_average_time) {
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f), pl[3] = { true, true, true }; int k = param("n", 3), kind = param("kind", 0), len = param("len", 4), r = k / 2; VSNode *c = mkInput(f, param("w", 4), param("h", 2), len); Args a; a.clip("clips", c);
    std::vector<double> w; for (int i = 0; i < k; i++) { double x = wt(kind, i, k); a.f("weights", x); w.push_back(fl ? (double)(float)x : rnd(x)); } double scale = defScale(w, fl); bool sc = param("scene", 0); if (sc) a.i("scenechange", 1);
    scPrev = (int)vsx_choice(param("scene", 0) ? len + 1 : 1, "scene start") - 1; scNext = (int)vsx_choice(param("scene", 0) ? len + 1 : 1, "scene end") - 1; if (!sc && param("marks", 0)) scPrev = 1, scNext = 1;
    VSNode *o = callNode("AverageFrames", a); vsx_assert(o != nullptr, "accepted"); vsx_assert(vi(o)->numFrames == len && sameFmt(vi(o)->format, f) && vi(o)->width == vi(c)->width && vi(o)->height == vi(c)->height && o->getDependency(0)->requestPattern == rpGeneral, "video info is kept");
    Drive d; int n = (int)vsx_choice(len, "frame"); const VSFrame *g = d.run(o, n, sceneFrame); vsx_assert(g != nullptr, "produced"); std::vector<const VSFrame *> fr;
    for (int i = 0; i < k; i++) { int m = edge(n - r + i, len); const VSFrame *q = nullptr; for (auto &x : d.reqs) if (x.n == m) q = x.f; vsx_assert(q != nullptr, "the neighbouring frames are used"); fr.push_back(q); }
    // frames of another scene do not take part, their weights go to the current one: scanning outwards, a frame marked as the first (last) of its scene is the last one used in its direction
    if (sc) { int from = 0, to = k - 1; for (int i = r; i > 0; i--) if (propI(fr[i], "_SceneChangePrev", 0)) { from = i; break; } for (int i = r; i < k - 1; i++) if (propI(fr[i], "_SceneChangeNext", 0)) { to = i; break; } for (int i = 0; i < k; i++) if (i < from || i > to) { w[r] += w[i]; w[i] = 0; } }
    vsx_assert(propI(g, "idx") == n, "properties come from the current frame"); checkAvg(g, fr, w, scale, pl, fr[r], f); vsx_cover("pixels");
}
HARNESS(h_average_values) { // any weight and scale
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f), ok = true; VSNode *c = mkInput(f, 4, 4, 10), *c2 = mkInput(f, 4, 4, 10); Args a; a.clip("clips", c).clip("clips", c2); double x = vsx_any<double>("weight"); a.f("weights", 1).f("weights", x);
    if (!(x - x == 0) || (!fl && !(x > -1023.5 && x < 1023.5))) ok = false; int k = (int)vsx_choice(2, "scale"); if (k) { double s = vsx_any<double>("scale"); a.f("scale", s); float q = (float)s; if (!(q - q == 0) || (fl ? !(q >= 1.1920929e-7f) : !(q >= .5f))) ok = false; }
    VSNode *o = callNode("AverageFrames", a); vsx_assert((o != nullptr) == ok, "exactly values in range are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
HARNESS(h_average_args) { // numbers of clips and weights, formats, sizes
    startF(); static const int cs[] = { 1, 2, 3, 31, 32 }, ws[] = { 1, 2, 3, 30, 31, 32, 33 }; int nc = cs[vsx_choice(5, "clips")], nw = ws[vsx_choice(7, "weights")], odd = (int)vsx_choice(4, "different clip"); VSVideoFormat f = pick("format"), f2 = fmtNo(9); bool sc = vsx_choice(2, "scenechange"), vr = vsx_choice(2, "variable size"); Args a; bool pl[3] = { true, true, true }; bool ok = okFormat(f) && !vr;
    for (int i = 0; i < nc; i++) { bool o = i == nc - 1 && odd; a.clip("clips", mkInput(o && odd == 1 ? f2 : f, vr ? 0 : o && odd == 2 ? 16 : 8, vr ? 0 : o && odd == 3 ? 16 : 8, 10)); } for (int i = 0; i < nw; i++) a.f("weights", 1); if (sc) a.i("scenechange", 1);
    if (nc == 1 && odd == 1) ok = !vr; if (nc > 1 && ((odd == 1 && !sameFmt(f, f2)) || odd > 1)) ok = false; if (nc == 1 ? nw % 2 == 0 : nw != nc) ok = false; if (nw > 31 || (sc && nc > 1)) ok = false;
    VSNode *o = callNode("AverageFrames", a); vsx_assert((o != nullptr) == ok, "exactly valid arguments are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
// ---- PlaneStats
static bool near(double a, double b) { double t = (b < 0 ? -b : b) * 1e-12 + 1e-14; return (a >= b - t) & (a <= b + t); }
static double propD(const VSFrame *f, const std::string &k) { int e; double v = api->mapGetFloat(api->getFramePropertiesRO(f), k.c_str(), 0, &e); vsx_assert(!e, "the property is there"); return v; }
HARNESS(h_stats) {
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f), two = param("two", 0); int p = param("plane", 0); VSNode *c = mkInput(f, param("w", 4), param("h", 2), 10), *c2 = two ? mkInput(f, param("w", 4), param("h", 2), 6) : nullptr; Args a; a.clip("clipa", c); if (two) a.clip("clipb", c2); if (p) a.i("plane", p); std::string pre = "PlaneStats"; if (param("prop", 0)) { a.s("prop", "My"); pre = "My"; }
    VSNode *o = callNode("PlaneStats", a); vsx_assert(o != nullptr, "accepted"); int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, statFrame, &c); const VSFrame *s = frameOf(d, c), *t = two ? frameOf(d, c2) : nullptr; common(o, c, g, s); if (two) { deps(o, c2, 1); vsx_assert(propI(t, "idx") == (n < 6 ? n : 5), "a short second clip is extended by its last frame"); }
    for (int q = 0; q < f.numPlanes; q++) eqPlane(g, q, s, q, "the picture is kept"); int w = pw(s, p), h = ph(s, p); const VSMap *m = api->getFramePropertiesRO(g);
    if (fl) { double mn = 1e300, mx = -1e300, sum = 0, df = 0; eachPixel(s, p, [&](int x, int y) { double v = fpx(s, p, x, y); mn = v < mn ? v : mn; mx = v > mx ? v : mx; sum += v; if (two) { double e = v - fpx(t, p, x, y); df += e < 0 ? -e : e; } });
        vsx_assert(propD(g, pre + "Min") == mn, "the minimum"); vsx_assert(propD(g, pre + "Max") == mx, "the maximum"); vsx_assert(near(propD(g, pre + "Average") * (w * h), sum), "the average"); if (two) vsx_assert(near(propD(g, pre + "Diff") * (w * h), df), "the difference"); }
    else { int64_t mn = INT64_MAX, mx = -1, sum = 0, df = 0; eachPixel(s, p, [&](int x, int y) { int64_t v = (int)ipx(s, p, x, y); mn = v < mn ? v : mn; mx = v > mx ? v : mx; sum += v; if (two) { int64_t e = v - (int)ipx(t, p, x, y); df += e < 0 ? -e : e; } });
        double all = (double)w * h * (double)maxOf(f); vsx_assert(propI(g, (pre + "Min").c_str()) == mn, "the minimum"); vsx_assert(propI(g, (pre + "Max").c_str()) == mx, "the maximum"); vsx_assert(near(propD(g, pre + "Average") * all, (double)sum), "the average"); if (two) vsx_assert(near(propD(g, pre + "Diff") * all, (double)df), "the difference"); }
    vsx_assert(api->mapNumElements(m, (pre + "Min").c_str()) == 1 && api->mapNumElements(m, (pre + "Average").c_str()) == 1 && api->mapNumElements(m, (pre + "Diff").c_str()) == (two ? 1 : -1) && api->mapNumKeys(m) == (two ? 5 : 4), "exactly these properties"); vsx_cover("pixels");
}
HARNESS(h_stats_args) {
    startF(); VSVideoFormat f = pick("format"), f2 = pick("second format"); int k = (int)vsx_choice(3, "size"), k2 = (int)vsx_choice(3, "second size"); bool two = vsx_choice(2, "second clip"); static const int dim[] = { 0, 8, 16 }; VSNode *c = mkInput(f, dim[k], dim[k], 10); Args a; a.clip("clipa", c); bool ok = okFormat(f);
    if (two) { a.clip("clipb", mkInput(f2, dim[k2], dim[k2], 5)); ok = ok && sameFmt(f, f2) && k == k2 && k; } int64_t pl = 0; if (vsx_choice(2, "plane")) pl = anyArg(a, "plane", "plane"); if (pl < 0 || pl >= f.numPlanes) ok = false;
    VSNode *o = callNode("PlaneStats", a); vsx_assert((o != nullptr) == ok, "exactly valid arguments are accepted"); if (refused(o)) return; vsx_assert(sameFmt(vi(o)->format, f) && vi(o)->width == dim[k] && vi(o)->numFrames == 10, "video info is kept"); vsx_cover("accepted");
}
