// Expr against an evaluation of the postfix text with error bounds
#include "pix.h"
static bool all(std::initializer_list<bool> l) { bool r = true; for (bool b : l) r = r & b; return r; }
static double sel(bool c, double a, double b) { uint64_t x, y, m = 0 - (uint64_t)c; memcpy(&x, &a, 8); memcpy(&y, &b, 8); x = (x & m) | (y & ~m); memcpy(&a, &x, 8); return a; }
static double absd(double v) { uint64_t x; memcpy(&x, &v, 8); x &= ~0ull >> 1; memcpy(&v, &x, 8); return v; }
struct E { double v, m; bool ok, exact; int g; double err() const { return sel(exact, 0, 3e-6 * m + 1e-30); } }; // value, sum of magnitudes, finite and unambiguous, exact multiple of 2^-g
static E lit(double v) { int g = 0; double s = std::fabs(v); while (g < 30 && s != std::floor(s)) { s *= 2; g++; } return { v, std::fabs(v), true, g < 8, g }; }
static E fit(E r) { r.ok = all({ r.ok, r.m < 1e30 }); r.exact = r.exact & (r.m * (double)(1ll << r.g) < 16777216.); return r; }
static E boolE(bool b, bool ok) { return { sel(b, 1, 0), 1, ok, true, 0 }; }
static bool truth(const E &a, bool &ok) { ok = ok & a.ok & (a.exact | (absd(a.v) > a.err())); return a.v > 0; }
static E un(const std::string &t, E a) {
    E r = a; bool ok = a.ok;
    if (t == "abs") r.v = absd(a.v); else if (t == "not") { bool b = truth(a, ok); return boolE(!b, ok); }
    else { r.exact = false; double e = a.err();
        if (t == "sqrt") { r.ok = ok & (a.v >= 0) & ((a.v > 1000 * e) | (a.exact & (a.v == 0))); double q = std::sqrt(sel(r.ok, a.v, 1)); r.v = q; r.m = sel(q > 0, a.m / sel(q > 0, q, 1), 0); }
        else if (t == "exp") { r.ok = ok & (a.v < 80) & (a.v > -80); r.v = std::exp(sel(r.ok, a.v, 0)); r.m = r.v * (1 + a.m) * 3; }
        else if (t == "log") { r.ok = ok & (a.v > 1000 * e) & (a.v > 1e-30); double q = sel(r.ok, a.v, 1); r.v = std::log(q); r.m = 3 * (absd(r.v) + a.m / q); }
        else { r.ok = ok & (absd(a.v) < 1e5); double q = sel(r.ok, a.v, 0); r.v = t == "sin" ? std::sin(q) : std::cos(q); r.m = 2 + a.m; } }
    return fit(r);
}
static E bin(const std::string &t, E a, E b) {
    E r = a; r.ok = a.ok & b.ok; r.exact = a.exact & b.exact; r.g = std::max(a.g, b.g); bool ok = r.ok;
    if (t == "+") { r.v = a.v + b.v; r.m = a.m + b.m; } else if (t == "-") { r.v = a.v - b.v; r.m = a.m + b.m; } else if (t == "*") { r.v = a.v * b.v; r.m = a.m * b.m; r.g = a.g + b.g; }
    else if (t == "/") { r.ok = ok & (absd(b.v) > 1000 * b.err()) & (absd(b.v) > 1e-10); double q = absd(sel(r.ok, b.v, 1)); r.v = a.v / sel(r.ok, b.v, 1); r.m = a.m / q * (b.m / q) * 2; r.exact = false; }
    else if (t == "max" || t == "min") { bool l = a.v < b.v; r.v = t == "max" ? sel(l, b.v, a.v) : sel(l, a.v, b.v); r.m = sel(a.m < b.m, b.m, a.m); }
    else if (t == "pow") { double e = a.err(); r.ok = ok & (((a.v > 1000 * e) & (a.v > 1e-30)) | ((a.v == 0) & a.exact & (b.v >= 1) & (b.v <= 3) & (b.v == std::rint(b.v)) & (b.m == b.v))); double q = sel(r.ok, a.v, 1), w = sel(r.ok, b.v, 0), l = std::log(sel(q > 0, q, 1)) * w; r.ok = r.ok & (absd(l) < 60); r.v = std::pow(q, sel(r.ok, w, 1)); r.m = r.v * (4 + absd(w) * (a.m / sel(q > 0, q, 1)) + 2 * absd(l) + b.m * absd(std::log(sel(q > 0, q, 1)))); r.exact = false; }
    else if (t == "and" || t == "or" || t == "xor") { bool x = truth(a, ok), y = truth(b, ok); return boolE(t == "and" ? x & y : t == "or" ? x | y : x != y, ok); }
    else { bool l = a.v < b.v, q = a.v == b.v; ok = ok & (r.exact | (absd(a.v - b.v) > 3 * (a.err() + b.err()))); return boolE(t == "<" ? l : t == ">" ? !l & !q : t == "=" ? q : t == "<=" ? l | q : !l, ok); }
    return fit(r);
}
static E tern(E a, E b, E c) { bool ok = a.ok & b.ok & c.ok, t = truth(a, ok); return { sel(t, b.v, c.v), sel(t, b.m, c.m), ok, (bool)((t & b.exact) | (!t & c.exact)), std::max(b.g, c.g) }; }
static const char *const un_[] = { "abs", "not", "sqrt", "exp", "log", "sin", "cos" }, *const bin_[] = { "+", "-", "*", "/", "max", "min", "pow", "and", "or", "xor", "<", ">", "=", "<=", ">=" };
static int arity(const std::string &t) { for (auto x : un_) if (t == x) return 1; for (auto x : bin_) if (t == x) return 2; return t == "?" ? 3 : t.compare(0, 3, "dup") == 0 ? -1 : t.compare(0, 4, "swap") == 0 ? -2 : 0; }
static int indexOf(const std::string &t, int d) { return t.size() == (t[0] == 'd' ? 3u : 4u) ? d : t.back() - '0'; }
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; std::string c; for (char ch : s + " ") if (ch == ' ') { if (c.size()) r.push_back(c); c.clear(); } else c += ch; return r; }
static double number(const std::string &t) { double v = 0, sc = 1, sg = 1; size_t i = 0; if (t[0] == '-') sg = -1, i = 1; bool dot = false; for (; i < t.size(); i++) if (t[i] == '.') dot = true; else { v = v * 10 + (t[i] - '0'); if (dot) sc *= 10; } return sg * v / sc; }
static E value(const std::vector<std::string> &ts, const E *in) {
    std::vector<E> st;
    for (auto &t : ts) { int a = arity(t); size_t n = st.size();
        if (a == 0) { if (t.size() == 1 && t[0] >= 'a') st.push_back(in[t[0] >= 'x' ? t[0] - 'x' : t[0] - 'a' + 3]); else { E e = lit((double)(float)number(t)); st.push_back(e); } }
        else if (a == 1) st[n - 1] = un(t, st[n - 1]); else if (a == 2) { E r = bin(t, st[n - 2], st[n - 1]); st.resize(n - 2); st.push_back(r); } else if (a == 3) { E r = tern(st[n - 3], st[n - 2], st[n - 1]); st.resize(n - 3); st.push_back(r); }
        else if (a == -1) st.push_back(st[n - 1 - indexOf(t, 0)]); else std::swap(st[n - 1], st[n - 1 - indexOf(t, 1)]); }
    return st.back();
}
// every text of `len` tokens out of a set that leaves one value
static const char *const sets[] = { "x y 0 1 2 -1 + - * /", "x y 2 + - * / 0.5", "x y 1 < = >= and not max min ? abs", "x y 2 0.5 * / pow sqrt", "x y 3 + - * swap dup swap2 dup1", "x 0.0625 * exp log sin cos +", "x y > ? and or xor - 100", "x y * + - abs 2", "x y 3 * / -", "x y 200 <= > not ? min - 0", "x 2 0.5 pow sqrt * / abs -1 3" };
static bool can(const std::vector<std::string> &s, int d, int r) { // can r more tokens leave one value?
    if (r == 0) return d == 1; for (auto &t : s) { int a = arity(t); if (a >= 0 ? d >= a && can(s, d - a + 1, r - 1) : a == -1 ? d > indexOf(t, 0) && can(s, d + 1, r - 1) : d > indexOf(t, 1) && can(s, d, r - 1)) return true; } return false;
}
static std::vector<std::string> anyText(const std::vector<std::string> &s, int len) {
    std::vector<std::string> out; int d = 0; int pre = param("first", -1);
    for (int i = 0; i < len; i++) { std::vector<std::string> ok; for (auto &t : s) { int a = arity(t); int nd = a >= 0 ? (d >= a ? d - a + 1 : -1) : a == -1 ? (d > indexOf(t, 0) ? d + 1 : -1) : d > indexOf(t, 1) ? d : -1; if (nd >= 0 && nd <= 4 && can(s, nd, len - 1 - i)) ok.push_back(t); }
        if (i == len - 1 && pre >= 0) { std::vector<std::string> f; for (size_t k = 0; k < ok.size(); k++) if ((int)k % 4 == pre) f.push_back(ok[k]); ok = f; if (ok.empty()) { out.clear(); return out; } }
        std::string t = ok[vsx_choice((uint32_t)ok.size(), "token")]; int a = arity(t); d = a >= 0 ? d - a + 1 : a == -1 ? d + 1 : d; out.push_back(t); }
    return out;
}
static int64_t fid(const VSVideoFormat &f) { return api->queryVideoFormatID(f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, core); }
static const VSFrame *samples(VSNode *node, int n, void *) { // x: arbitrary 8 bit (float: -8 to 7.9375); others: yb bits
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); const VSVideoFormat *vf = &v->format; static VSNode *first; if (!first) first = node; int bits = node == first ? param("xb", 8) : param("yb", 4);
    for (int p = 0; p < vf->numPlanes; p++) { memset(api->getWritePtr(f, p), 0, api->getStride(f, p) * ph(f, p)); for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) {
        int q = vsx_range<uint8_t>(0, (uint8_t)((1 << bits) - 1), "sample"); uint8_t *d = api->getWritePtr(f, p) + y * api->getStride(f, p) + x * vf->bytesPerSample;
        if (isInt(*vf)) { q = q * ((int)maxOf(*vf) / ((1 << bits) - 1)); if (vf->bytesPerSample == 1) *d = (uint8_t)q; else *(uint16_t *)d = (uint16_t)q; } else { float w = (float)(q - (1 << bits) / 2) * (bits == 8 ? .0625f : bits == 4 ? .5f : 1.f); if (vf->bytesPerSample == 4) memcpy(d, &w, 4); else *(uint16_t *)d = fToH(w); } } }
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
static E sampleE(const VSFrame *f, int p, int x, int y) { const VSVideoFormat *vf = api->getVideoFrameFormat(f); if (isInt(*vf)) { double v = (double)ipx(f, p, x, y); return { v, v, true, true, 0 }; } double v = vf->bytesPerSample == 4 ? (double)px<float>(f, p, x, y) : (double)hToF(px<uint16_t>(f, p, x, y)); return { v, absd(v), true, true, 4 }; }
static void checkSample(const VSFrame *g, int p, int x, int y, E r) {
    const VSVideoFormat *vf = api->getVideoFrameFormat(g); double e = r.err();
    if (isInt(*vf)) { double M = (double)maxOf(*vf), lo = r.v - e, hi = r.v + e; lo = sel(lo < 0, 0, sel(lo > M, M, lo)); hi = sel(hi < 0, 0, sel(hi > M, M, hi)); double o = (double)ipx(g, p, x, y); vsx_assert(!r.ok | ((o >= std::rint(lo)) & (o <= std::rint(hi))), "the value of the expression"); }
    else if (vf->bytesPerSample == 4) { double o = px<float>(g, p, x, y); vsx_assert(!r.ok | (absd(o - r.v) <= e + absd(r.v) * 6e-8), "the value of the expression"); }
    else { double o = hToF(px<uint16_t>(g, p, x, y)); vsx_assert(!r.ok | (absd(r.v) > 65000) | (absd(o - r.v) <= e + absd(r.v) * 5e-4 + 1e-7), "the value of the expression"); }
}
static void one(const std::vector<std::string> &ts) {
    VSVideoFormat f = fmtParam(), f2 = fmtParam("fmt2"), o = fmtParam("out"); int nc = param("clips", 2); Args a; std::vector<VSNode *> c; for (int i = 0; i < nc; i++) { c.push_back(mkInput(i & 1 ? f2 : f, param("w", 1), param("h", 1), 10)); a.clip("clips", c.back()); }
    std::string s; for (auto &t : ts) s += (s.size() ? " " : "") + t; a.s("expr", s.c_str()); if (!sameFmt(o, f)) a.i("format", fid(o));
    VSNode *r = callNode("Expr", a); vsx_assert(r != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(r, frameNo(r), samples); vsx_assert(g && sameFmt(*api->getVideoFrameFormat(g), o) && sameFmt(vi(r)->format, o), "the format asked for"); std::vector<const VSFrame *> src; for (int i = 0; i < nc; i++) { const VSFrame *q = nullptr; for (auto &rq : d.reqs) if (rq.node == c[i]) q = rq.f; vsx_assert(q != nullptr, "every clip takes part"); src.push_back(q); deps(r, c[i], i); }
    vsx_assert(propI(g, "idx") == propI(src[0], "idx"), "properties of the first clip");
    for (int p = 0; p < o.numPlanes; p++) eachPixel(g, p, [&](int x, int y) { E in[26]; for (int i = 0; i < nc; i++) in[i] = sampleE(src[i], p, x, y); checkSample(g, p, x, y, value(ts, in)); }); vsx_cover("value");
}
HARNESS(h_expr) { startF(); std::vector<std::string> ts = anyText(split(sets[param("set", 0)]), param("len", 3)); if (ts.empty()) return; one(ts); }
HARNESS(h_text) {
    static const char *const texts[] = { "x y + 2 /", "x 3 / y 3 / +", "x 2 * y 3 * + 5 /", "x y - abs 10 > x y ?", "x dup * y dup * + sqrt", "x y < x y ?", "x y > x y ?", "x y <= y x ?", "x y >= y x ?", "x not not", "x y = not", "x 2 pow y 2 pow + 0.5 pow", "x 128 - 1.5 * 128 +", "x 255 / 2.2 pow 255 *", "x 1 + y 1 + /", "x y 1 + / y 1 + *", "1 x 1 + / y *", "x x * x * x / ", "x y * y x * -", "x y * 3 * x y * 2 * -", "x 4 * y 4 * - 2 /", "x abs abs", "x 1 + log exp", "x 16 / exp log", "x y max y x min -", "x 0 * y +", "0 x - y +", "x -1 * y *", "x 20 > y 5 > and 255 0 ?", "x 20 > y 5 > or not 255 0 ?", "x 20 > y 5 > xor 17 99 ?", "x 3 pow y 1 + /", "x y 1 + / x y 2 + / /", "x 2 / y 1 + / 3 /", "x y + x y - *", "x 2 * x 3 * + x -", "0.1 0.2 + x *", "x 100 swap -", "x y dup1 swap2 + -", "x y x y x y + + + + +", "x 0.25 pow 0.5 pow 8 pow 1 *", "2 x 16 / pow", "x 1 + -2 pow 1000 *", "x y + x y + * x y + *", "x y + 7 * x y + / 7 +" };
    int i = param("text", -1); startF(); if (i < 0) i = (int)vsx_choice(sizeof texts / sizeof *texts, "text"); one(split(texts[i]));
}
HARNESS(h_expr_planes) { // one text per plane, the last one repeated; the empty text copies
    static const char *const t[] = { "", "x 2 *", "y 5 +", "200 x -" }; startF(); VSVideoFormat f = fmtParam(), o = fmtParam("out"); VSNode *c[2] = { mkInput(f, param("w", 2), param("h", 2), 3), mkInput(f, param("w", 2), param("h", 2), 2) };
    std::string tx[3]; int n = 1 + (int)vsx_choice(f.numPlanes, "texts"); Args a; a.clip("clips", c[0]).clip("clips", c[1]); for (int i = 0; i < n; i++) { tx[i] = t[vsx_choice(4, "text")]; a.s("expr", tx[i].c_str()); } for (int i = n; i < 3; i++) tx[i] = tx[n - 1]; if (!sameFmt(f, o)) a.i("format", fid(o));
    VSNode *r = callNode("Expr", a); vsx_assert(r != nullptr, "accepted"); vsx_assert(vi(r)->numFrames == 3 && vi(r)->width == vi(c[0])->width && vi(r)->height == vi(c[0])->height && vi(r)->fpsNum == vi(c[0])->fpsNum && sameFmt(vi(r)->format, o), "the first clip in the format asked for"); deps(r, c[0], 0); deps(r, c[1], 1);
    Drive d; int fr = frameNo(r); const VSFrame *g = d.run(r, fr, samples); vsx_assert(g && sameFmt(*api->getVideoFrameFormat(g), o), "made"); const VSFrame *src[2] = {}; for (auto &q : d.reqs) for (int i = 0; i < 2; i++) if (q.node == c[i]) { vsx_assert(q.n == (i ? std::min(fr, 1) : fr) || q.n == fr, "the same frame"); src[i] = q.f; } vsx_assert(src[0] && src[1], "both clips");
    vsx_assert(propI(g, "idx") == propI(src[0], "idx"), "properties of the first clip");
    for (int p = 0; p < f.numPlanes; p++) { if (tx[p].empty()) { if (sameFmt(f, o)) { eachPixel(g, p, [&](int x, int y) { E r = sampleE(src[0], p, x, y); checkSample(g, p, x, y, r); }); vsx_cover("copied"); } continue; }
        eachPixel(g, p, [&](int x, int y) { E in[2] = { sampleE(src[0], p, x, y), sampleE(src[1], p, x, y) }; checkSample(g, p, x, y, value(split(tx[p]), in)); }); vsx_cover("processed"); }
}
static const VSFrame *numbered(VSNode *node, int n, void *ud) { auto &c = *(std::vector<VSNode *> *)ud; int k = 0; for (size_t i = 0; i < c.size(); i++) if (c[i] == node) k = (int)i; const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); memset(api->getWritePtr(f, 0), 0, api->getStride(f, 0) * v->height); for (int i = 0; i < v->width * v->height; i++) api->getWritePtr(f, 0)[i / v->width * api->getStride(f, 0) + i % v->width] = (uint8_t)(100 + k); api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f; }
HARNESS(h_expr_letters) { // x y z a b c ... name the clips in order, and nothing else is accepted
    startF(); static const int counts[] = { 1, 2, 3, 4, 25, 26 }; int n = counts[vsx_choice(6, "clips")], l = (int)vsx_choice(26, "letter"); std::vector<VSNode *> c; Args a; for (int i = 0; i < n; i++) { c.push_back(mkInput(fmtNo(0), 2, 1, 3)); a.clip("clips", c.back()); }
    char t[2] = { (char)('a' + l), 0 }; a.s("expr", t); int want = l >= 23 ? l - 23 : l + 3; VSNode *r = callNode("Expr", a); if (want >= n) { vsx_assert(!r, "no such clip"); vsx_cover("refused"); return; }
    vsx_assert(r != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(r, 1, numbered, &c); vsx_assert(g != nullptr, "made"); for (int i = 0; i < 2; i++) vsx_assert(api->getReadPtr(g, 0)[i] == 100 + want, "the clip of that letter"); vsx_cover("read");
}
HARNESS(h_expr_args) {
    startF(); int k = (int)vsx_choice(4, "what"); Args a; VSNode *c = mkInput(fmtNo(1), 4, 4, 3); a.clip("clips", c); bool ok = true; const char *text = "x 2 *";
    if (k == 0) { // the clips
        int q = (int)vsx_choice(12, "second clip"); switch (q) { case 0: for (int i = 0; i < 25; i++) a.clip("clips", c); break; case 1: for (int i = 0; i < 26; i++) a.clip("clips", c); ok = false; break; case 2: a.clip("clips", mkInput(fmtNo(16), 4, 4, 3)); ok = false; break; case 3: a.clip("clips", mkInput(fmtNo(1), 4, 2, 3)); ok = false; break; case 4: a.clip("clips", mkInput(fmtNo(1), 8, 4, 3)); ok = false; break;
            case 5: a.clip("clips", mkInput(fmtNo(14), 4, 4, 1)); break; case 6: a.clip("clips", mkInput(fmtNo(0), 4, 4, 1)); ok = false; break; case 7: { VSVideoFormat z = {}; a.clip("clips", mkInput(z, 4, 4, 3)); ok = false; break; } case 8: a.clip("clips", mkInput(fmtNo(1), 0, 0, 3)); ok = false; break; case 9: a.clip("clips", mkInput(fmtNo(13), 4, 4, 3)); ok = false; break; case 10: { VSVideoFormat z; api->queryVideoFormat(&z, cfYUV, stInteger, 32, 1, 1, core); a.clip("clips", mkInput(z, 4, 4, 3)); ok = false; break; } default: { VSVideoFormat z; api->queryVideoFormat(&z, cfYUV, stFloat, 16, 1, 1, core); a.clip("clips", mkInput(z, 4, 4, 9)); } } a.s("expr", text);
    } else if (k == 1) { int n = (int)vsx_choice(5, "texts"); for (int i = 0; i < n; i++) a.s("expr", text); ok = n >= 1 && n <= 3; }
    else if (k == 2) { int64_t v = vsx_any<int64_t>("format"); a.i("format", v).s("expr", text); VSVideoFormat z; int32_t w = (int32_t)std::min<int64_t>(std::max<int64_t>(v, INT32_MIN), INT32_MAX); ok = api->getVideoFormatByID(&z, (uint32_t)w, core) && z.colorFamily == cfYUV && z.subSamplingW == 1 && z.subSamplingH == 1 && (z.sampleType == stFloat || z.bitsPerSample <= 16); }
    else { static const struct { const char *t; bool ok; } ts[] = { { "x", true }, { "", true }, { " ", false }, { " x ", true }, { "x\ty\n+", true }, { "z", false }, { "x y", false }, { "+", false }, { "x +", false }, { "x y + +", false }, { "x y ?", false }, { "x y x ?", true }, { "x y x x ?", false }, { "dup", false }, { "x dup", false }, { "x dup +", true }, { "x dup1 +", false }, { "x y dup1 + +", true }, { "x dup1a +", false }, { "swap", false }, { "x swap", false }, { "x swap0", true }, { "x y swap -", true }, { "x y swap1 -", true }, { "x y swap2 -", false }, { "x foo", false }, { "X", false }, { "1", true }, { "1.5 x *", true }, { "-2 x +", true }, { "abs", false }, { "x sqrt", true }, { "x y pow exp log sin cos not", true }, { "x abs abs abs", true }, { "x y and x or y xor", true }, { "x 1e1 *", true }, { "x 1.5y *", false }, { "x dupx *", false }, { "x y x y x y x y + + + + + + +", true }, { "x y max x min", true } };
        int i = (int)vsx_choice(sizeof ts / sizeof *ts, "text"); a.clip("clips", c).s("expr", ts[i].t); ok = ts[i].ok; }
    VSNode *r = callNode("Expr", a); vsx_assert((r != nullptr) == ok, "exactly the meaningful arguments are accepted"); if (r) { Drive d; vsx_assert(d.run(r, 0, samples) != nullptr, "made"); vsx_cover("accepted"); } else vsx_cover("refused");
}
