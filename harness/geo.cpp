// Filters that move pixels: cropping, borders, stacking, flipping, turning, fields and planes.
#include "drive.h"
static int param(const char *n, int d) { return (int)vsx_param(n, d); }
static int len(VSNode *n) { return api->getVideoInfo(n)->numFrames; }
// any dimensions a clip of this format can have
static VSNode *anyClip(const VSVideoFormat &f, bool var) {
    int w = 0, h = 0;
    if (!var) { w = vsx_any<int>("width"); h = vsx_any<int>("height"); vsx_assume(w > 0 && h > 0 && !(w & ((1 << f.subSamplingW) - 1)) && !(h & ((1 << f.subSamplingH) - 1))); }
    return mkInput(f, w, h, 10);
}
static const VSVideoInfo *vi(VSNode *n) { return api->getVideoInfo(n); }
static void sameBut(VSNode *c, VSNode *t) {
    vsx_assert(vi(t)->numFrames == vi(c)->numFrames && vi(t)->fpsNum == vi(c)->fpsNum && vi(t)->fpsDen == vi(c)->fpsDen, "length and frame rate stay");
}
static bool refused(VSNode *t) { if (!t) { vsx_assert(lastError.size() > 0, "a reason is given"); vsx_cover("refused"); } return !t; }
// which frames are accepted
HARNESS(h_crop_args) {
    startF(); VSVideoFormat f = fmtParam(); bool abs = param("abs", 0), var = param("var", 0); VSNode *c = anyClip(f, var); int64_t W = vi(c)->width, H = vi(c)->height;
    Args a; a.clip("clip", c); int64_t l = 0, t = 0, w, h;
    if (abs) { w = anyArg(a, "width", "w"); h = anyArg(a, "height", "h"); if (vsx_choice(2, "offsets")) { l = anyArg(a, "left", "left"); t = anyArg(a, "top", "top"); } }
    else { l = anyArg(a, "left", "left"); t = anyArg(a, "top", "top"); int64_t r = anyArg(a, "right", "right"), b = anyArg(a, "bottom", "bottom"); w = W - l - r; h = H - t - b; }
    VSNode *o = callNode(abs ? "CropAbs" : "Crop", a);
    int mw = (1 << f.subSamplingW) - 1, mh = (1 << f.subSamplingH) - 1;
    bool ok = l >= 0 && t >= 0 && w > 0 && h > 0 && !(l & mw) && !(t & mh) && !(w & mw) && !(h & mh) && (var || (l + w <= W && t + h <= H)) && (abs || !var);
    vsx_assert((o != nullptr) == ok, "exactly areas inside the frame are accepted");
    if (refused(o)) return;
    vsx_assert(vi(o)->width == w && vi(o)->height == h, "the result has the requested size"); sameBut(c, o); vsx_cover("accepted");
}
HARNESS(h_borders_args) {
    startF(); VSVideoFormat f = fmtParam(); bool var = param("var", 0); VSNode *c = anyClip(f, var); int64_t W = vi(c)->width, H = vi(c)->height;
    Args a; a.clip("clip", c); int64_t l = anyArg(a, "left", "left"), t = anyArg(a, "top", "top"), r = anyArg(a, "right", "right"), b = anyArg(a, "bottom", "bottom");
    VSNode *o = callNode("AddBorders", a);
    int mw = (1 << f.subSamplingW) - 1, mh = (1 << f.subSamplingH) - 1;
    bool ok = l >= 0 && t >= 0 && r >= 0 && b >= 0 && !(l & mw) && !(r & mw) && !(t & mh) && !(b & mh) && W + l + r <= 0x7fffffff && H + t + b <= 0x7fffffff;
    vsx_assert((o != nullptr) == ok, "exactly border sizes that fit are accepted");
    if (refused(o)) return;
    vsx_assert(var ? vi(o)->width == 0 && vi(o)->height == 0 : vi(o)->width == W + l + r && vi(o)->height == H + t + b, "the size grows by the borders"); sameBut(c, o); vsx_cover("accepted");
}
HARNESS(h_stack_args) {
    startF(); VSVideoFormat f = fmtParam(); bool v = param("vertical", 0); int k = param("clips", 3); Args a; std::vector<VSNode *> c; int odd = (int)vsx_choice(k + 1, "oddFormat"), nvar = (int)vsx_choice(k + 1, "variable");
    VSVideoFormat other = fmtNo(param("other", 9));
    bool ok = true; int64_t sum = 0, ln = 0;
    for (int i = 0; i < k; i++) {
        int w = vsx_any<int>("w"), h = vsx_any<int>("h"), n = vsx_any<int>("len"); vsx_assume(n > 0);
        if (i == nvar) w = h = 0; else vsx_assume(w > 0 && h > 0 && !(w & ((1 << f.subSamplingW) - 1)) && !(h & ((1 << f.subSamplingH) - 1)));
        VSNode *x = mkInput(i == odd ? other : f, w, h, n); c.push_back(x); a.clip("clips", x);
        sum += v ? h : w; ln = n > ln ? n : ln; if (i && (v ? w != vi(c[0])->width : h != vi(c[0])->height)) ok = false;
    }
    if (k > 1 && (odd < k || nvar < k)) ok = false;
    if (sum > 0x7fffffff) ok = false;
    VSNode *o = callNode(v ? "StackVertical" : "StackHorizontal", a);
    vsx_assert((o != nullptr) == ok, "exactly matching clips are accepted");
    if (refused(o)) return;
    vsx_assert((v ? vi(o)->height : vi(o)->width) == sum && (v ? vi(o)->width == vi(c[0])->width : vi(o)->height == vi(c[0])->height) && vi(o)->numFrames == ln, "sizes add up and the longest clip determines the length");
    for (int i = 0; i < k; i++) for (size_t j = 0; j < o->getNumDependencies(); j++) if (o->getDependency((int)j)->source == c[i] && k > 1)
        vsx_assert(o->getDependency((int)j)->requestPattern == (len(c[i]) < ln ? rpFrameReuseLastOnly : rpStrictSpatial), "the request pattern is declared truthfully");
    vsx_cover("accepted");
}
// pixels
static int W, H;
static const VSFrame *varFrame(VSNode *node, int n, void *) {
    VSFrame *f = api->newVideoFrame(&vi(node)->format, W, H, nullptr, core); fillAny(f, "pixel"); assumeDepth(f);
    VSMap *m = api->getFramePropertiesRW(f); api->mapSetInt(m, "idx", n, maReplace);
    if (param("fb", 1)) { int64_t fb = vsx_any<int64_t>("fieldbased"); api->mapSetInt(m, "_FieldBased", fb, maReplace); }
    return f;
}
static int stepOf(const VSVideoFormat &f, bool v) { return 1 << (v ? f.subSamplingH : f.subSamplingW); }
static int upto(int max, int step, const char *name) { return (int)vsx_choice((uint32_t)(max / step + 1), name) * step; }
static void fieldSwap(const VSFrame *in, const VSFrame *out, bool swap) {
    int64_t a = propI(in, "_FieldBased"), b = propI(out, "_FieldBased");
    vsx_assert(b == (swap && (a == 1 || a == 2) ? 3 - a : a), "the field order is swapped exactly if an odd number of lines is cut or added on top");
    vsx_assert(propI(in, "idx") == propI(out, "idx"), "properties are kept");
}
HARNESS(h_crop) {
    startF(); VSVideoFormat f = fmtParam(); W = param("w", 6); H = param("h", 4); bool abs = param("abs", 0), var = param("var", 0);
    VSNode *c = mkInput(f, var ? 0 : W, var ? 0 : H, 10); int sw = stepOf(f, false), sh = stepOf(f, true);
    int l = upto(W, sw, "left"), w = upto(W + (var ? sw : -l), sw, "w"), t = upto(H, sh, "top"), h = upto(H + (var ? sh : -t), sh, "h"); vsx_assume(w > 0 && h > 0);
    Args a; a.clip("clip", c).i("left", l).i("top", t);
    if (abs) a.i("width", w).i("height", h); else a.i("right", W - l - w).i("bottom", H - t - h);
    VSNode *o = callNode(abs ? "CropAbs" : "Crop", a); vsx_assert(o != nullptr, "accepted"); if (o == c) return;
    Drive d; const VSFrame *r = d.run(o, frameNo(o), varFrame); const VSFrame *s = d.reqs[0].f;
    bool inside = l + w <= W && t + h <= H; vsx_assert((r != nullptr) == inside, "frames too small for the area are errors");
    if (!r) { vsx_cover("outside"); return; }
    vsx_assert(pw(r, 0) == w && ph(r, 0) == h, "size");
    for (int p = 0; p < f.numPlanes; p++) { int x = p ? l / sw : l, y = p ? t / sh : t, ww = p ? w / sw : w, hh = p ? h / sh : h; vsx_assert(pw(r, p) == ww && ph(r, p) == hh, "plane size");
        for (int i = 0; i < hh; i++) vsx_assert_eqmem(row(r, p, i), row(s, p, y + i) + x * f.bytesPerSample, (size_t)ww, f.bytesPerSample, "the pixels of the area"); }
    fieldSwap(s, r, t & 1); vsx_cover("pixels");
}
HARNESS(h_borders) {
    startF(); VSVideoFormat f = fmtParam(); W = param("w", 4); H = param("h", 4); bool var = param("var", 0), col = param("color", 0);
    VSNode *c = mkInput(f, var ? 0 : W, var ? 0 : H, 10); int sw = stepOf(f, false), sh = stepOf(f, true), m = param("max", 4);
    int l = upto(m, sw, "left"), r = upto(m, sw, "right"), t = upto(m, sh, "top"), b = upto(m, sh, "bottom");
    Args a; a.clip("clip", c).i("left", l).i("top", t).i("right", r).i("bottom", b); int64_t cv[3] = { 0, 0, 0 };
    if (f.sampleType == stInteger && f.colorFamily == cfYUV) cv[1] = cv[2] = 1 << (f.bitsPerSample - 1);
    if (col) for (int p = 0; p < f.numPlanes; p++) { uint32_t v = vsx_any<uint32_t>("color"); if (f.bitsPerSample < 32) vsx_assume(v < (1u << f.bitsPerSample)); cv[p] = v; a.f("color", v); }
    VSNode *o = callNode("AddBorders", a); vsx_assert(o != nullptr, "accepted"); if (o == c) { vsx_assert(!l && !r && !t && !b, "the clip itself is only returned without borders"); return; }
    Drive d; const VSFrame *g = d.run(o, frameNo(o), varFrame); const VSFrame *s = d.reqs[0].f; vsx_assert(g != nullptr, "produced");
    for (int p = 0; p < f.numPlanes; p++) {
        int L = p ? l / sw : l, R = p ? r / sw : r, T = p ? t / sh : t, B = p ? b / sh : b, w = pw(s, p), h = ph(s, p); vsx_assert(pw(g, p) == w + L + R && ph(g, p) == h + T + B, "plane size");
        for (int y = 0; y < h + T + B; y++) { bool mid = y >= T && y < T + h; if (mid) vsx_assert_eqmem(row(g, p, y) + L * f.bytesPerSample, row(s, p, y - T), (size_t)w, f.bytesPerSample, "the picture is unchanged");
            for (int x = 0; x < w + L + R; x++) if (!mid || x < L || x >= L + w) vsx_assert(ipx(g, p, x, y) == (uint32_t)cv[p], "the border has the color"); }
    }
    fieldSwap(s, g, t & 1); vsx_cover("pixels");
}
HARNESS(h_stack) {
    startF(); VSVideoFormat f = fmtParam(); bool v = param("vertical", 0); int sw = stepOf(f, false), sh = stepOf(f, true); VSNode *c[3]; Args a; int k = 3, at[4] = { 0 };
    for (int i = 0; i < k; i++) { int e = (int)vsx_choice(3, "size") + 1, w = v ? 4 * sw : e * 3 * sw, h = v ? e * sh : 2 * sh; c[i] = i == 2 && vsx_choice(2, "same") ? c[0] : mkInput(f, w, h, vsx_any<int>("len") & 0xffff | 1); a.clip("clips", c[i]); at[i + 1] = at[i] + (v ? vi(c[i])->height : vi(c[i])->width); }
    VSNode *o = callNode(v ? "StackVertical" : "StackHorizontal", a); vsx_assert(o != nullptr, "accepted");
    int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, anyFrame); vsx_assert(g != nullptr, "produced");
    vsx_assert(propI(g, "idx") == propI(d.reqs[0].f, "idx"), "properties come from the first clip");
    for (int i = 0; i < k; i++) {
        const VSFrame *s = nullptr; for (auto &r : d.reqs) if (r.node == c[i]) s = r.f;
        vsx_assert(s != nullptr, "every clip takes part");
        for (int p = 0; p < f.numPlanes; p++) { int x = v ? 0 : p ? at[i] / sw : at[i], y = v ? p ? at[i] / sh : at[i] : 0;
            for (int q = 0; q < ph(s, p); q++) vsx_assert_eqmem(row(g, p, y + q) + x * f.bytesPerSample, row(s, p, q), (size_t)pw(s, p), f.bytesPerSample, "each part shows its clip"); }
    }
    vsx_cover("pixels");
}
// mode 0 FlipVertical 1 FlipHorizontal 2 Turn180 3 Transpose 4 Turn90 5 Turn270
HARNESS(h_turn) {
    startF(); VSVideoFormat f = fmtParam(); int m = param("mode", 0); static const char *const fn[] = { "FlipVertical", "FlipHorizontal", "Turn180", "Transpose", "Turn90", "Turn270" };
    W = param("w", 6); H = param("h", 4); bool var = param("var", 0); VSNode *c = mkInput(f, var ? 0 : W, var ? 0 : H, vsx_any<int>("len") & 0xfffff | 1); Args a; a.clip("clip", c); VSNode *o = callNode(fn[m], a);
    vsx_assert((o != nullptr) == (m < 3 || !var), "clips of changing size cannot be turned"); if (refused(o)) return;
    vsx_assert(vi(o)->width == (var ? 0 : m < 3 ? W : H) && vi(o)->height == (var ? 0 : m < 3 ? H : W), "size"); sameBut(c, o);
    vsx_assert(vi(o)->format.subSamplingW == (m < 3 ? f.subSamplingW : f.subSamplingH) && vi(o)->format.subSamplingH == (m < 3 ? f.subSamplingH : f.subSamplingW), "subsampling turns along");
    Drive d; const VSFrame *g = d.run(o, frameNo(o), varFrame); vsx_assert(g != nullptr, "produced"); const VSFrame *s = d.reqs[0].f; vsx_assert(propI(s, "idx") == propI(g, "idx"), "properties are kept");
    for (int p = 0; p < f.numPlanes; p++) { int w = pw(s, p), h = ph(s, p); vsx_assert(pw(g, p) == (m < 3 ? w : h) && ph(g, p) == (m < 3 ? h : w), "plane size");
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            int X = m == 0 ? x : m < 3 ? w - 1 - x : m == 3 || m == 5 ? y : h - 1 - y, Y = m == 0 || m == 2 ? h - 1 - y : m == 1 ? y : m == 3 || m == 4 ? x : w - 1 - x;
            vsx_assert(ipx(g, p, X, Y) == ipx(s, p, x, y), "every pixel is at its place"); } }
    vsx_cover("pixels");
}
// fields
static const VSFrame *fieldFrame(VSNode *node, int n, void *ud) {
    VSFrame *f = const_cast<VSFrame *>(anyFrame(node, n, nullptr)); VSMap *m = api->getFramePropertiesRW(f); const char *const *k = (const char *const *)ud;
    if (vsx_choice(2, "hasField")) api->mapSetInt(m, k[0], vsx_any<int64_t>("field"), maReplace); else if (vsx_choice(2, "dataField")) api->mapSetData(m, k[0], "x", 1, dtUtf8, maReplace);
    if (!strcmp(k[0], "_FieldBased") && vsx_choice(2, "hasDur")) { static const int64_t du[][2] = { { 1001, 24000 }, { 2, 25 }, { 0x7fffffffffffffff, 1 }, { 1, 0x3fffffffffffffff }, { 0, 1 } }; int k2 = (int)vsx_choice(5, "duration"); int64_t a = du[k2][0], b = du[k2][1]; api->mapSetInt(m, "_DurationNum", a, maReplace); api->mapSetInt(m, "_DurationDen", b, maReplace); }
    return f;
}
static const char *const kFB[] = { "_FieldBased" }, *const kF[] = { "_Field" };
HARNESS(h_sepfields_args) {
    startF(); VSVideoFormat f = fmtParam(); bool var = param("var", 0); int w = var ? 0 : 16 << f.subSamplingW, h = var ? 0 : vsx_any<int>("h"), n = vsx_any<int>("len"); vsx_assume(n > 0 && h >= 0 && (var || (h > 0 && !(h & ((1 << f.subSamplingH) - 1)))));
    VSNode *c = mkInput(f, w, h, n); Args a; a.clip("clip", c); bool md = true; if (vsx_choice(2, "md")) { int64_t v = vsx_any<int64_t>("modify"); a.i("modify_duration", v); md = v != 0; }
    VSNode *o = callNode("SeparateFields", a); vsx_assert((o != nullptr) == (!var && n <= 0x7fffffff / 2 && !(h & ((2 << f.subSamplingH) - 1))), "exactly clips with whole fields are accepted"); if (refused(o)) return;
    vsx_assert(vi(o)->width == w && vi(o)->height == h / 2 && vi(o)->numFrames == 2 * n, "size and length"); vsx_assert(vi(o)->fpsNum == (md ? 48 : 24) && vi(o)->fpsDen == 1, "frame rate"); vsx_cover("accepted");
}
HARNESS(h_sepfields) {
    startF(); VSVideoFormat f = fmtParam(); int w = 3 << f.subSamplingW, h = 4 << f.subSamplingH; VSNode *c = mkInput(f, w, h, vsx_any<int>("len") & 0xffffff | 1); Args a; a.clip("clip", c);
    int tff = -1; if (vsx_choice(2, "hasTff")) { int64_t v = vsx_any<int64_t>("tff"); a.i("tff", v); tff = v != 0; } bool md = vsx_choice(2, "md"); a.i("modify_duration", md);
    VSNode *o = callNode("SeparateFields", a); vsx_assert(o != nullptr, "accepted"); int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, fieldFrame, (void *)kFB);
    vsx_assert(d.reqs.size() == 1 && d.reqs[0].n == n / 2, "fields n and n+1 come from frame n/2"); const VSFrame *s = d.reqs[0].f; int64_t fb = propI(s, "_FieldBased"), order = fb == 1 ? 0 : fb == 2 ? 1 : tff;
    vsx_assert((g != nullptr) == (order >= 0), "an error exactly if the field order is unknown"); if (!g) { vsx_cover("unknown"); return; }
    bool top = ((n & 1) == 0) == (order == 1);
    for (int p = 0; p < f.numPlanes; p++) { vsx_assert(ph(g, p) == ph(s, p) / 2 && pw(g, p) == pw(s, p), "plane size"); for (int y = 0; y < ph(g, p); y++) vsx_assert_eqmem(row(g, p, y), row(s, p, 2 * y + !top), (size_t)pw(g, p), f.bytesPerSample, "the lines of the field"); }
    vsx_assert(propI(g, "_Field") == top && propI(g, "_FieldBased") == -999999 && api->mapNumElements(api->getFramePropertiesRO(g), "_FieldBased") < 0, "the field is marked"); vsx_assert(propI(g, "idx") == n / 2, "other properties are kept");
    int64_t a0 = propI(s, "_DurationNum"), b0 = propI(s, "_DurationDen"), a1 = propI(g, "_DurationNum"), b1 = propI(g, "_DurationDen");
    if (b0 > 0 && md && b0 < 0x7fffffff && a0 < 0x7fffffff) vsx_assert(a1 * 2 * b0 == b1 * a0 && b1 > 0, "durations are halved"); else if (!md) vsx_assert(a0 == a1 && b0 == b1, "durations stay"); else if (b0 > 0) vsx_assert(a1 >= 0 && b1 > 0, "durations stay valid");
    vsx_cover("pixels");
}
HARNESS(h_weave) {
    startF(); VSVideoFormat f = fmtParam(); int w = 3 << f.subSamplingW, h = 2 << f.subSamplingH, N = vsx_any<int>("len"); vsx_assume(N > 0); VSNode *c = mkInput(f, w, h, N); Args a; a.clip("clip", c);
    int tff = -1; if (vsx_choice(2, "hasTff")) { int64_t v = vsx_any<int64_t>("tff"); a.i("tff", v); tff = v != 0; }
    VSNode *o = callNode("DoubleWeave", a); vsx_assert(o != nullptr, "accepted"); vsx_assert(vi(o)->height == 2 * h && vi(o)->width == w, "size"); sameBut(c, o);
    int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, fieldFrame, (void *)kF); const VSFrame *s1 = nullptr, *s2 = nullptr; int n2 = n + 1 < N ? n + 1 : n;
    for (auto &r : d.reqs) { if (r.n == n) s1 = r.f; if (r.n == n2) s2 = r.f; } vsx_assert(s1 && s2, "two consecutive fields are used, the last one twice at the end");
    int64_t f1 = propI(s1, "_Field"), f2 = propI(s2, "_Field"); int order = f1 == 0 && f2 == 1 ? 0 : f1 == 1 && f2 == 0 ? 1 : tff < 0 ? -1 : (n & 1) ^ tff;
    vsx_assert((g != nullptr) == (order >= 0), "an error exactly if the field order is unknown"); if (!g) { vsx_cover("unknown"); return; }
    const VSFrame *top = order ? s1 : s2, *bot = order ? s2 : s1;
    for (int p = 0; p < f.numPlanes; p++) for (int y = 0; y < ph(s1, p); y++) { vsx_assert_eqmem(row(g, p, 2 * y), row(top, p, y), (size_t)pw(g, p), f.bytesPerSample, "top lines"); vsx_assert_eqmem(row(g, p, 2 * y + 1), row(bot, p, y), (size_t)pw(g, p), f.bytesPerSample, "bottom lines"); }
    vsx_assert((n == N - 1 || propI(g, "_FieldBased") == (order ? 2 : 1)) && propI(g, "_FieldBased") >= 1 && propI(g, "_FieldBased") <= 2 && api->mapNumElements(api->getFramePropertiesRO(g), "_Field") < 0, "the frame is marked"); vsx_assert(propI(g, "idx") == n, "other properties come from the first field"); vsx_cover("pixels");
}
// planes
HARNESS(h_shuffle_args) {
    startF(); int k = param("clips", 3), np = param("planes", 3); VSNode *c[3]; VSVideoFormat f[3]; Args a; int64_t pl[3] = { 0, 0, 0 };
    for (int i = 0; i < k; i++) { f[i] = fmtNo((int)vsx_param(i == 0 ? "fmt" : i == 1 ? "fmt1" : "fmt2", 0)); int w = vsx_any<int>("w"), h = vsx_any<int>("h"), n = vsx_any<int>("len"); vsx_assume(n > 0 && w > 0 && h > 0 && !(w & ((1 << f[i].subSamplingW) - 1)) && !(h & ((1 << f[i].subSamplingH) - 1))); c[i] = mkInput(f[i], w, h, n); a.clip("clips", c[i]); }
    for (int i = 0; i < np; i++) pl[i] = anyArg(a, "planes", "plane");
    int64_t cf = anyArg(a, "colorfamily", "colorfamily"); VSNode *o = callNode("ShufflePlanes", a);
    int fam = cf == 1000000 || cf == cfGray ? cfGray : cf == 3000000 || cf == 4000000 || cf == cfYUV ? cfYUV : cf == 2000000 || cf == cfRGB ? cfRGB : -1; int need = fam == cfGray ? 1 : 3;
    VSNode *u[3]; for (int i = 0; i < 3; i++) u[i] = i < k ? c[i] : c[k - 1];
    bool ok = fam >= 0 && k <= need && np <= need;
    for (int i = 0; i < need && ok; i++) ok = pl[i] >= 0 && pl[i] < vi(u[i])->format.numPlanes;
    int64_t w[3], h[3]; int sw = 0, sh = 0;
    if (ok && need == 3) {
        for (int i = 0; i < 3; i++) { const VSVideoInfo *v = vi(u[i]); w[i] = pl[i] ? v->width >> v->format.subSamplingW : v->width; h[i] = pl[i] ? v->height >> v->format.subSamplingH : v->height; }
        if (w[1] != w[2] || h[1] != h[2]) ok = false;
        sw = sh = -1; for (int i = 0; i <= 4; i++) { if (w[0] == w[1] << i) sw = i; if (h[0] == h[1] << i) sh = i; }
        if (sw < 0 || sh < 0 || (fam == cfRGB && (sw || sh))) ok = false;
        for (int i = 1; i < 3; i++) if (vi(u[i])->format.bitsPerSample != vi(u[0])->format.bitsPerSample || vi(u[i])->format.sampleType != vi(u[0])->format.sampleType) ok = false;
    }
    vsx_assert((o != nullptr) == ok, "exactly planes that fit together are accepted"); if (refused(o)) return;
    const VSVideoInfo *v = vi(o); int64_t n = vi(u[0])->numFrames; if (need == 3) for (int i = 1; i < 3; i++) n = vi(u[i])->numFrames > n ? vi(u[i])->numFrames : n;
    vsx_assert(v->format.colorFamily == fam && v->format.numPlanes == need && v->format.bitsPerSample == f[0].bitsPerSample && v->format.sampleType == f[0].sampleType, "format");
    vsx_assert(v->format.subSamplingW == sw && v->format.subSamplingH == sh && v->numFrames == n, "subsampling and length"); vsx_cover("accepted");
}
HARNESS(h_shuffle) {
    startF(); VSVideoFormat f = fmtParam(), f1 = fmtParam("fmt1"); int k = param("clips", 3), fam = param("cf", cfYUV), need = fam == cfGray ? 1 : 3, w = 4 << f.subSamplingW, h = 2 << f.subSamplingH; VSNode *c[3]; Args a; int pl[3];
    for (int i = 0; i < k; i++) { VSVideoFormat &g = i ? f1 : f; int d = i ? param("div", 1) : 1; c[i] = mkInput(g, w / d, h / d, vsx_any<int>("len") & 0xffff | 1); a.clip("clips", c[i]); }
    for (int i = 0; i < need; i++) { pl[i] = (int)vsx_choice(3, "plane"); a.i("planes", pl[i]); }
    bool ps = vsx_choice(2, "hasPropSrc"); VSNode *pn = nullptr; if (ps) { pn = mkInput(fmtNo(0), 8, 8, vsx_any<int>("plen") & 0xffff | 1); a.clip("prop_src", pn); }
    a.i("colorfamily", fam); VSNode *o = callNode("ShufflePlanes", a); if (refused(o)) return;
    for (size_t j = 0; j < o->getNumDependencies(); j++) { auto *e = o->getDependency((int)j); vsx_assert(len(e->source) >= len(o) || e->requestPattern == rpGeneral || e->requestPattern == rpFrameReuseLastOnly, "a clip whose last frame is repeated is not declared as requested once only"); }
    int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, anyFrame); vsx_assert(g != nullptr, "produced");
    auto frameOf = [&](VSNode *x) { const VSFrame *s = nullptr; int want = n < len(x) ? n : len(x) - 1; for (auto &r : d.reqs) if (r.node == x && r.n == want) s = r.f; return s; };
    for (int p = 0; p < need; p++) { const VSFrame *s = frameOf(p < k ? c[p] : c[k - 1]); vsx_assert(s != nullptr, "the frame of that number is used, the last one after the end"); eqPlane(g, p, s, pl[p], "each plane comes from its clip"); }
    const VSFrame *s = frameOf(ps ? pn : c[0]); vsx_assert(s != nullptr, "property source"); vsx_assert(propI(g, "idx") == propI(s, "idx"), "properties come from prop_src"); vsx_cover("pixels");
}
HARNESS(h_split) {
    startF(); VSVideoFormat f = fmtParam(); int w = 4 << f.subSamplingW, h = 2 << f.subSamplingH; VSNode *c = mkInput(f, w, h, vsx_any<int>("len") & 0xffff | 1); Args a; a.clip("clip", c); VSMap *r = call("SplitPlanes", a);
    vsx_assert(!api->mapGetError(r) && api->mapNumElements(r, "clip") == f.numPlanes, "one clip per plane"); int p = (int)vsx_choice((uint32_t)f.numPlanes, "plane"); VSNode *o = api->mapGetNode(r, "clip", p, nullptr); if (o == c) { vsx_assert(f.numPlanes == 1, "one plane"); return; }
    const VSVideoInfo *v = vi(o); vsx_assert(v->format.colorFamily == cfGray && v->format.bitsPerSample == f.bitsPerSample && v->format.sampleType == f.sampleType && v->numFrames == len(c) && v->width == (p ? 4 : w) && v->height == (p ? 2 : h), "a gray clip of the plane");
    Drive d; const VSFrame *g = d.run(o, frameNo(o), anyFrame); vsx_assert(g != nullptr, "produced"); eqPlane(g, 0, d.reqs[0].f, p, "the plane"); vsx_assert(propI(g, "idx") == d.reqs[0].n, "properties"); vsx_cover("pixels");
}
