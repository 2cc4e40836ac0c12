// Lut and Lut2
#include "pix.h"
static uint32_t mixed(uint32_t i) { i ^= i >> 7; i *= 0x9E3779B1u; i ^= i >> 15; i *= 0x85EBCA77u; return i ^ i >> 13; }
static const VSVideoFormat outFmt(const VSVideoFormat &f, int bits, bool fl) { VSVideoFormat o = f; o.bitsPerSample = bits; o.sampleType = fl ? stFloat : stInteger; o.bytesPerSample = fl ? 4 : bits > 8 ? 2 : 1; return o; }
static int64_t *table; static double *tableF;
static void mkTable(int n, int bits, bool fl) {
    if (fl) { tableF = new double[n]; for (int i = 0; i < n; i++) tableF[i] = (double)(mixed(i) & 0xffffff) / 64 - 1000; }
    else { table = new int64_t[n]; for (int i = 0; i < n; i++) table[i] = mixed(i) & ((1 << bits) - 1); }
}
// the function argument: looks the value up
static void VS_CC lutFn(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) {
    int i = (int)a->mapGetInt(in, "x", 0, nullptr); int e; int64_t y = a->mapGetInt(in, "y", 0, &e); if (!e) i += (int)y * param("nx", 256);
    if (tableF) a->mapSetFloat(out, "val", tableF[i], maAppend); else a->mapSetInt(out, "val", table[i], maAppend);
}
static void checkOut(const VSFrame *r, int p, int x, int y, int i, const VSVideoFormat &o) { if (isInt(o)) vsx_assert((int64_t)ipx(r, p, x, y) == table[i], "the entry of the table"); else vsx_assert(px<float>(r, p, x, y) == (float)tableF[i], "the entry of the table"); }
static bool plainPlanes(const VSVideoFormat &f, const bool pl[3]) { bool a = true; for (int i = 0; i < f.numPlanes; i++) a = a && pl[i]; return a; }
static const VSFrame *wideFrame(VSNode *node, int n, void *) { // values above the range of the format may occur
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); if (param("pin", 0)) memset(api->getWritePtr(f, 0), 0, api->getStride(f, 0) * ph(f, 0)); fillAny(f, "pixel"); api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
HARNESS(h_lut) {
    startF(); VSVideoFormat f = fmtParam(); int bits = param("bits", 8); bool fl = bits == 32; VSVideoFormat o = outFmt(f, bits, fl); int n = 1 << f.bitsPerSample; mkTable(n, bits, fl);
    VSNode *c = mkInput(f, param("w", 10), param("h", 2), 10); Args a; a.clip("clip", c); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    if (bits != f.bitsPerSample && !fl) a.i("bits", bits); if (fl) a.i("floatout", 1);
    if (param("func", 0)) { VSFunction *fn = api->createFunction(lutFn, nullptr, nullptr, core); a.fn("function", fn); } else if (fl) api->mapSetFloatArray(a.m, "lutf", tableF, n); else api->mapSetIntArray(a.m, "lut", table, n);
    VSNode *r = callNode("Lut", a); bool can = f.bytesPerSample == o.bytesPerSample || plainPlanes(f, pl); vsx_assert((r != nullptr) == can, "planes can only be passed on if the output stores samples alike"); if (!r) { vsx_cover("refused"); return; }
    vsx_assert(sameFmt(vi(r)->format, o) && vi(r)->width == vi(c)->width && vi(r)->height == vi(c)->height && vi(r)->numFrames == vi(c)->numFrames, "video info"); deps(r, c, 0);
    Drive d; const VSFrame *g = d.run(r, frameNo(r), wideFrame), *s = frameOf(d, c); vsx_assert(g && propI(g, "idx") == propI(s, "idx"), "properties are kept"); vsx_assert(sameFmt(*api->getVideoFrameFormat(g), o), "frames have the announced format");
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        eachPixel(g, p, [&](int x, int y) { int v = (int)ipx(s, p, x, y); if (v >= n) v = n - 1; checkOut(g, p, x, y, v, o); }); }
    vsx_cover("pixels");
}
// which arguments are accepted; numbers that end up in error messages are chosen from a list
static int64_t listed(const char *name, int bits) { const int64_t v[] = { 0, -1, (1ll << bits) - 1, 1ll << bits, 1ll << 32, INT64_MIN }; return v[vsx_choice(6, name)]; }
HARNESS(h_lut_args) { // clip, planes and output format
    startF(); VSVideoFormat f = pick("format"); VSNode *c = anyDims(f, "size"); Args a; a.clip("clip", c); bool pl[3], ok = true; if (param("planes", 0)) somePlanes(a, pl); else ok = planesArg(a, pl); ok = ok && vi(c)->width > 0 && isInt(f) && f.bitsPerSample >= 8 && f.bitsPerSample <= 16; bool fl = false; int64_t bits = f.bitsPerSample;
    if (vsx_choice(2, "floatout")) { int64_t v = vsx_any<int64_t>("floatout"); a.i("floatout", v); fl = v != 0; if (fl) bits = 32; }
    if (vsx_choice(2, "bits")) { if (param("planes", 0)) bits = listed("bits", 4); else bits = vsx_any<int64_t>("bits"); a.i("bits", bits); }
    if (fl ? bits != 32 : bits < 8 || bits > 16) ok = false;
    if (ok && ((fl ? 4 : bits > 8 ? 2 : 1) != f.bytesPerSample) && !plainPlanes(f, pl)) ok = false;
    if (f.bitsPerSample > 12 || fl) { static int64_t z[65536]; static double zf[65536]; if (fl) api->mapSetFloatArray(a.m, "lutf", zf, 1 << (f.bitsPerSample & 31)); else api->mapSetIntArray(a.m, "lut", z, 1 << (f.bitsPerSample > 16 ? 16 : f.bitsPerSample)); }
    else { static int64_t z[4096]; api->mapSetIntArray(a.m, "lut", z, 1 << f.bitsPerSample); }
    VSNode *r = callNode("Lut", a); vsx_assert((r != nullptr) == ok, "exactly the documented arguments are accepted"); if (refused(r)) return;
    vsx_assert(sameFmt(vi(r)->format, outFmt(f, (int)bits, fl)), "format"); vsx_cover("accepted");
}
HARNESS(h_lut_tables) { // tables and functions
    startF(); VSVideoFormat f = fmtNo(vsx_choice(2, "format") ? 10 : 0), o = outFmt(f, 8 + 2 * (int)vsx_choice(2, "bits"), false); VSNode *c = mkInput(f, 8, 8, 5); Args a; a.clip("clip", c).i("bits", o.bitsPerSample); bool fl = vsx_choice(2, "float"), ok = true; if (fl) { a.i("floatout", 1); api->mapDeleteKey(a.m, "bits"); }
    int k = (int)vsx_choice(8, "tables"), cnt = 0, full = 1 << f.bitsPerSample, n = full; if (k & 3) { int len = (int)vsx_choice(5, "length"); n = len == 0 ? full : len == 1 ? full - 1 : len == 2 ? 0 : len == 3 ? full + 1 : 1; }
    static int64_t t[4097]; static double tf[4097]; int64_t one = 0; if (k & 5) { int pos = (int)vsx_choice(3, "pos"); pos = pos == 0 ? 0 : pos == 1 ? full / 2 : full - 1; one = listed("value", o.bitsPerSample); t[pos] = one; }
    if (k & 1) { api->mapSetIntArray(a.m, "lut", t, n); cnt++; if (fl) ok = false; } if (k & 2) { api->mapSetFloatArray(a.m, "lutf", tf, n); cnt++; if (!fl) ok = false; }
    if (k & 4) { table = t; if (fl && vsx_choice(2, "floatFn")) tableF = tf; a.fn("function", api->createFunction(lutFn, nullptr, nullptr, core)); cnt++; }
    if (cnt != 1 || n != full || (fl && k & 4 && !tableF) || (!fl && k & 5 && (one < 0 || one >= 1ll << o.bitsPerSample))) ok = false;
    VSNode *r = callNode("Lut", a); vsx_assert((r != nullptr) == ok, "exactly the documented tables are accepted"); if (refused(r)) return; vsx_cover("accepted");
}
HARNESS(h_lut2) {
    startF(); VSVideoFormat f = fmtParam(), f2 = fmtParam("fmt2"); int bits = param("bits", 8); bool fl = bits == 32; VSVideoFormat o = outFmt(f, bits, fl); int nx = 1 << f.bitsPerSample, ny = 1 << f2.bitsPerSample; mkTable(nx * ny, bits, fl);
    VSNode *c = mkInput(f, param("w", 10), param("h", 2), 10), *c2 = mkInput(f2, param("w", 10), param("h", 2), vsx_any<int>("lenB") & 0xffff | 1); Args a; a.clip("clipa", c).clip("clipb", c2); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    if (bits != f.bitsPerSample && !fl) a.i("bits", bits); if (fl) a.i("floatout", 1);
    if (param("func", 0)) a.fn("function", api->createFunction(lutFn, nullptr, nullptr, core)); else if (fl) api->mapSetFloatArray(a.m, "lutf", tableF, nx * ny); else api->mapSetIntArray(a.m, "lut", table, nx * ny);
    VSNode *r = callNode("Lut2", a); bool can = f.bytesPerSample == o.bytesPerSample || plainPlanes(f, pl); vsx_assert((r != nullptr) == can, "planes can only be passed on if the output stores samples alike"); if (!r) { vsx_cover("refused"); return; }
    vsx_assert(sameFmt(vi(r)->format, o) && vi(r)->width == vi(c)->width && vi(r)->height == vi(c)->height && vi(r)->numFrames == vi(c)->numFrames, "video info"); deps(r, c, 0); deps(r, c2, 1);
    static VSNode *pinX, *pinY; pinX = param("pin", 0) == 1 ? c : nullptr; pinY = param("pin", 0) == 2 ? c2 : nullptr;
    Drive d; const VSFrame *g = d.run(r, frameNo(r), [](VSNode *node, int n, void *ud) -> const VSFrame * { const VSVideoFormat &vf = vi(node)->format; VSFrame *q = const_cast<VSFrame *>(wideFrame(node, n, ud));
        if (node == pinX || node == pinY) { int max = (int)maxOf(vf), k = (int)vsx_choice(4, "pin"); const int val[] = { 0, max / 3, max, 65535 }; eachPixel(q, 0, [&](int x, int y) { uint8_t *w = api->getWritePtr(q, 0) + y * api->getStride(q, 0); if (vf.bytesPerSample == 1) w[x] = (uint8_t)(val[k] + 3 * x); else ((uint16_t *)w)[x] = (uint16_t)(val[k] + 3 * x); }); }
        return q; });
    const VSFrame *s = frameOf(d, c), *t = frameOf(d, c2); vsx_assert(g && propI(g, "idx") == propI(s, "idx"), "properties of the first clip"); vsx_assert(sameFmt(*api->getVideoFrameFormat(g), o), "frames have the announced format");
    for (int p = 0; p < f.numPlanes; p++) { if (!pl[p]) { eqPlane(g, p, s, p, "planes not listed are passed on"); continue; }
        eachPixel(g, p, [&](int x, int y) { int v = (int)ipx(s, p, x, y), w = (int)ipx(t, p, x, y); if (v >= nx) v = nx - 1; if (w >= ny) w = ny - 1; checkOut(g, p, x, y, w * nx + v, o); }); }
    vsx_cover("pixels");
}
HARNESS(h_lut2_args) {
    startF(); VSVideoFormat f = pick("formatA"), f2 = pick("formatB"); bool pp = param("planes", 0); VSNode *c = pp ? mkInput(f, 8, 8, 5) : anyDims(f, "size"), *c2 = pp ? mkInput(f2, 8, 8, 7) : anyDims(f2, "size2"); Args a; a.clip("clipa", c).clip("clipb", c2); bool pl[3] = { true, true, true }; if (param("planes", 0)) somePlanes(a, pl);
    bool ok = vi(c)->width > 0 && vi(c2)->width > 0 && vi(c)->width == vi(c2)->width && vi(c)->height == vi(c2)->height && isInt(f) && isInt(f2) && f.bitsPerSample >= 8 && f2.bitsPerSample >= 8 && f.bitsPerSample + f2.bitsPerSample <= 20 && f.subSamplingW == f2.subSamplingW && f.subSamplingH == f2.subSamplingH, fl = false;
    for (int p = f2.numPlanes; p < f.numPlanes; p++) if (pl[p]) ok = false;
    int64_t bits = f.bitsPerSample; int kind = (int)vsx_choice(3, "out"); if (kind == 1) { bits = 10; a.i("bits", 10); } if (kind == 2) { fl = true; bits = 32; a.i("floatout", 1); }
    if (!fl && (bits < 8 || bits > 16)) ok = false;
    static int64_t t[65536]; static double tf[65536]; int64_t one = 0; if (!fl) { one = listed("value", (int)bits); t[vsx_choice(2, "pos") * 65535] = one; }
    if (f.bitsPerSample + f2.bitsPerSample != 16) ok = false;
    if (fl) api->mapSetFloatArray(a.m, "lutf", tf, 65536); else { api->mapSetIntArray(a.m, "lut", t, 65536); if (one < 0 || one >= 1ll << bits) ok = false; }
    if (ok && ((fl ? 4 : bits > 8 ? 2 : 1) != f.bytesPerSample) && !plainPlanes(f, pl)) ok = false;
    VSNode *r = callNode("Lut2", a); vsx_assert((r != nullptr) == ok, "exactly the documented arguments are accepted"); if (refused(r)) return;
    vsx_assert(sameFmt(vi(r)->format, outFmt(f, (int)bits, fl)), "format"); deps(r, c, 0); deps(r, c2, 1); vsx_cover("accepted");
}
