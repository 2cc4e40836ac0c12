// Filters that change frame properties, frame rates or make frames: SetFrameProp(s), RemoveFrameProps, SetFieldBased, CopyFrameProps, ClipToProp, PropToClip, AssumeFPS, BlankClip, PEMVerifier, ModifyFrame, FrameEval
#include "pix.h"
static const VSFrame *plain(VSNode *node, int n) { const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width ? v->width : 8, v->height ? v->height : 8, nullptr, core); for (int p = 0; p < v->format.numPlanes; p++) memset(api->getWritePtr(f, p), 3 + n % 5, api->getStride(f, p) * ph(f, p)); return f; }
static const VSFrame *plainMade(VSNode *node, int n, void *) { if (node->getNodeType() == mtAudio) { const VSAudioInfo &ai = node->getAudioInfo(); return api->newAudioFrame(&ai.format, 3072, nullptr, core); } return plain(node, n); }
// a frame with properties of every type
static const VSFrame *rich(VSNode *node, int n, void *) {
    VSFrame *f = const_cast<VSFrame *>(plain(node, n)); VSMap *m = api->getFramePropertiesRW(f); api->mapSetInt(m, "idx", n, maReplace);
    for (int i = 0; i < 2; i++) api->mapSetInt(m, "A", vsx_any<int64_t>("A"), maAppend); api->mapSetFloat(m, "B", vsx_any<double>("B"), maReplace);
    char d[3]; vsx_symbolic(d, 3, 1, "C"); api->mapSetData(m, "C", d, 3, dtBinary, maAppend); api->mapSetData(m, "C", "utf", -1, dtUtf8, maAppend);
    const VSFrame *g = plain(node, 1); api->mapSetFrame(m, "F", g, maAppend); api->freeFrame(g); api->mapSetNode(m, "N", node, maAppend); api->mapSetEmpty(m, "E", ptFloat); api->mapSetInt(m, "_Field", 1, maReplace); api->mapSetInt(m, "_FieldBased", 1, maReplace); api->mapSetInt(m, "_DurationNum", vsx_any<int64_t>("num"), maReplace); return f;
}
static bool sameElem(const VSMap *a, const VSMap *b, const char *k, int i, int t) {
    switch (t) {
    case ptInt: return api->mapGetInt(a, k, i, nullptr) == api->mapGetInt(b, k, i, nullptr);
    case ptFloat: { double x = api->mapGetFloat(a, k, i, nullptr), y = api->mapGetFloat(b, k, i, nullptr); uint64_t p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); return p == q; }
    case ptData: { int n = api->mapGetDataSize(a, k, i, nullptr); if (n != api->mapGetDataSize(b, k, i, nullptr) || api->mapGetDataTypeHint(a, k, i, nullptr) != api->mapGetDataTypeHint(b, k, i, nullptr)) return false; vsx_assert_eqmem(api->mapGetData(a, k, i, nullptr), api->mapGetData(b, k, i, nullptr), n, 1, "data is kept"); return true; }
    case ptVideoFrame: { const VSFrame *x = api->mapGetFrame(a, k, i, nullptr), *y = api->mapGetFrame(b, k, i, nullptr); bool r = x == y; api->freeFrame(x); api->freeFrame(y); return r; }
    case ptVideoNode: { VSNode *x = api->mapGetNode(a, k, i, nullptr), *y = api->mapGetNode(b, k, i, nullptr); bool r = x == y; api->freeNode(x); api->freeNode(y); return r; }
    }
    return false;
}
static void sameKey(const VSMap *a, const VSMap *b, const char *k, const char *msg) { int n = api->mapNumElements(a, k), t = api->mapGetType(a, k); vsx_assert(n == api->mapNumElements(b, k) && t == api->mapGetType(b, k), msg); for (int i = 0; i < n; i++) vsx_assert(sameElem(a, b, k, i, t), msg); }
static bool has(const VSMap *m, const char *k) { return api->mapNumElements(m, k) >= 0; }
template <class Skip> static void others(const VSMap *a, const VSMap *b, Skip skip) { // every key of either map that is not skipped is the same in both
    for (int w = 0; w < 2; w++) { const VSMap *m = w ? b : a; for (int i = 0; i < api->mapNumKeys(m); i++) { std::string k = api->mapGetKey(m, i); if (!skip(k)) { vsx_assert(has(a, k.c_str()) && has(b, k.c_str()), "other properties stay"); sameKey(a, b, k.c_str(), "other properties stay"); } } }
}
static const VSMap *pr(const VSFrame *f) { return api->getFramePropertiesRO(f); }
static void pictureKept(VSNode *o, VSNode *c, const VSFrame *g, const VSFrame *s) {
    vsx_assert(g != nullptr, "produced"); vsx_assert(sameFmt(*api->getVideoFrameFormat(g), *api->getVideoFrameFormat(s)), "the format is kept"); for (int p = 0; p < api->getVideoFrameFormat(s)->numPlanes; p++) eqPlane(g, p, s, p, "the picture is kept");
    vsx_assert(sameFmt(vi(o)->format, vi(c)->format) && vi(o)->width == vi(c)->width && vi(o)->height == vi(c)->height, "video info is kept");
}
static void infoKept(VSNode *o, VSNode *c) { vsx_assert(vi(o)->numFrames == vi(c)->numFrames && vi(o)->fpsNum == vi(c)->fpsNum && vi(o)->fpsDen == vi(c)->fpsDen, "video info is kept"); deps(o, c, 0); }
static VSNode *input(const char *name = "size", int len = 10) { int k = (int)vsx_choice(2, name); return k ? mkInput(fmtNo(0), 0, 0, len) : mkInput(fmtNo(1), 8, 8, len); }
static const char *const keys[] = { "A", "B", "C", "F", "N", "idx", "New" };
HARNESS(h_setprop) {
    startF(); VSNode *c = input(); const char *key = keys[vsx_choice(7, "key")]; int kinds = (int)vsx_choice(8, "arguments"), cnt = 1 + (int)vsx_choice(3, "count"); Args a; a.clip("clip", c).s("prop", key);
    for (int i = 0; i < cnt; i++) { if (kinds & 1) a.i("intval", vsx_any<int64_t>("intval")); if (kinds & 2) a.f("floatval", vsx_any<double>("floatval")); if (kinds & 4) { char d[4]; vsx_symbolic(d, 4, 1, "data"); api->mapSetData(a.m, "data", d, i, i == 1 ? dtBinary : dtUtf8, maAppend); } }
    VSNode *o = callNode("SetFrameProp", a); vsx_assert((o != nullptr) == (kinds == 1 || kinds == 2 || kinds == 4), "exactly one kind of value"); if (refused(o)) return; infoKept(o, c);
    Drive d; const VSFrame *g = d.run(o, frameNo(o), rich), *s = frameOf(d, c); pictureKept(o, c, g, s); others(pr(s), pr(g), [&](const std::string &k) { return k == key; });
    const char *from = kinds == 1 ? "intval" : kinds == 2 ? "floatval" : "data"; int t = kinds == 1 ? ptInt : kinds == 2 ? ptFloat : ptData; vsx_assert(api->mapGetType(pr(g), key) == t && api->mapNumElements(pr(g), key) == cnt, "the property is replaced");
    VSMap *m = api->createMap(); for (int i = 0; i < cnt; i++) if (t == ptInt) api->mapSetInt(m, key, api->mapGetInt(a.m, from, i, nullptr), maAppend); else if (t == ptFloat) api->mapSetFloat(m, key, api->mapGetFloat(a.m, from, i, nullptr), maAppend); else api->mapSetData(m, key, api->mapGetData(a.m, from, i, nullptr), api->mapGetDataSize(a.m, from, i, nullptr), api->mapGetDataTypeHint(a.m, from, i, nullptr), maAppend);
    sameKey(m, pr(g), key, "the given values"); api->freeMap(m); vsx_cover("set");
}
HARNESS(h_setprops) {
    startF(); VSNode *c = input(); Args a; a.clip("clip", c); int which = (int)vsx_choice(32, "keys"); bool set[5]; static const char *const ks[] = { "A", "C", "New", "_FieldBased", "clip2" };
    for (int i = 0; i < 5; i++) if ((set[i] = which >> i & 1)) { if (i & 1) a.f(ks[i], vsx_any<double>("value")); else a.i(ks[i], vsx_any<int64_t>("value")).i(ks[i], vsx_any<int64_t>("value")); }
    VSNode *o = callNode("SetFrameProps", a); vsx_assert(o != nullptr, "accepted"); infoKept(o, c); Drive d; const VSFrame *g = d.run(o, frameNo(o), rich), *s = frameOf(d, c); pictureKept(o, c, g, s);
    others(pr(s), pr(g), [&](const std::string &k) { for (int i = 0; i < 5; i++) if (set[i] && k == ks[i]) return true; return false; }); for (int i = 0; i < 5; i++) if (set[i]) sameKey(a.m, pr(g), ks[i], "the given values"); vsx_assert(!has(pr(g), "clip"), "the clip is no property"); vsx_cover("set");
}
static bool glob(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1)); return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1); }
static const VSFrame *named(VSNode *node, int n, void *) { VSFrame *f = const_cast<VSFrame *>(plain(node, n)); static const char *const ks[] = { "A", "AB", "ABA", "B", "BA", "_A", "_x_", "a", "ab" }; for (auto k : ks) api->mapSetInt(api->getFramePropertiesRW(f), k, vsx_any<int64_t>("value"), maReplace); return f; }
HARNESS(h_removeprops) {
    startF(); VSNode *c = input(); Args a; a.clip("clip", c); int k = (int)vsx_choice(3, "patterns"), len = param("len", 2); char pat[2][8]; memset(pat, 0, sizeof pat);
    for (int i = 0; i < k; i++) { int n = i ? 1 : len; for (int j = 0; j < n; j++) { if (param("any", 0)) { pat[i][j] = (char)vsx_any<uint8_t>("character"); vsx_assume(pat[i][j] != 0); } else pat[i][j] = "AB*?_."[vsx_choice(6, "character")]; } a.s("props", pat[i]); }
    VSNode *o = callNode("RemoveFrameProps", a); vsx_assert(o != nullptr, "accepted"); infoKept(o, c); Drive d; const VSFrame *g = d.run(o, frameNo(o), named), *s = frameOf(d, c); pictureKept(o, c, g, s);
    for (int i = 0; i < api->mapNumKeys(pr(s)); i++) { const char *key = api->mapGetKey(pr(s), i); bool gone = !k; for (int j = 0; j < k; j++) gone = gone || glob(pat[j], key); vsx_assert(has(pr(g), key) == !gone, "exactly the named properties are removed"); if (!gone) sameKey(pr(s), pr(g), key, "other properties stay"); }
    for (int i = 0; i < api->mapNumKeys(pr(g)); i++) vsx_assert(has(pr(s), api->mapGetKey(pr(g), i)), "no property is added"); vsx_cover("removed");
}
HARNESS(h_fieldbased) {
    startF(); VSNode *c = input(); Args a; a.clip("clip", c); int64_t v = vsx_any<int64_t>("value"); a.i("value", v); VSNode *o = callNode("SetFieldBased", a); vsx_assert((o != nullptr) == (v >= 0 && v <= 2), "0, 1 or 2"); if (refused(o)) return; infoKept(o, c);
    Drive d; const VSFrame *g = d.run(o, frameNo(o), rich), *s = frameOf(d, c); pictureKept(o, c, g, s); others(pr(s), pr(g), [](const std::string &k) { return k == "_Field" || k == "_FieldBased"; }); vsx_assert(!has(pr(g), "_Field") && propI(g, "_FieldBased") == v && api->mapNumElements(pr(g), "_FieldBased") == 1, "the field order is set"); vsx_cover("set");
}
static VSNode *theClip;
static const VSFrame *richOrPoor(VSNode *node, int n, void *ud) { if (node != theClip) return rich(node, n, ud); VSFrame *f = const_cast<VSFrame *>(plain(node, n)); VSMap *m = api->getFramePropertiesRW(f); api->mapSetInt(m, "idx", n + 100, maReplace); api->mapSetFloat(m, "A", vsx_any<double>("A of the clip"), maReplace); api->mapSetInt(m, "Own", vsx_any<int64_t>("Own"), maReplace); api->mapSetInt(m, "E", 3, maReplace); return f; }
HARNESS(h_copyprops) {
    startF(); VSNode *c = theClip = input(), *c2 = input("size of the source", vsx_choice(2, "length of the source") ? 4 : 12); static const char *const ks[] = { "A", "B", "C", "F", "N", "E", "Own", "None" }; Args a; a.clip("clip", c).clip("prop_src", c2); int k = (int)vsx_choice(3, "properties"), w[2]; for (int i = 0; i < k; i++) a.s("props", ks[w[i] = (int)vsx_choice(8, "property")]);
    VSNode *o = callNode("CopyFrameProps", a); vsx_assert(o != nullptr, "accepted"); infoKept(o, c); deps(o, c2, 1); int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, richOrPoor), *s = frameOf(d, c), *t = frameOf(d, c2); pictureKept(o, c, g, s); int l = vi(c2)->numFrames; vsx_assert(propI(t, "idx") == (n < l ? n : l - 1) && propI(s, "idx") == n + 100, "the frames of this number");
    if (!k) { others(pr(t), pr(g), [](const std::string &) { return false; }); vsx_cover("all"); return; }
    others(pr(s), pr(g), [&](const std::string &q) { for (int i = 0; i < k; i++) if (q == ks[w[i]]) return true; return false; });
    for (int i = 0; i < k; i++) if (has(pr(t), ks[w[i]])) sameKey(pr(t), pr(g), ks[w[i]], "the property is copied"); else vsx_assert(!has(pr(g), ks[w[i]]), "a missing property is removed"); vsx_cover("some");
}
HARNESS(h_cliptoprop) {
    startF(); VSNode *c = theClip = input("size"), *c2 = input("size of the mask", vsx_choice(2, "length of the mask") ? 4 : 12); Args a; a.clip("clip", c).clip("mclip", c2); const char *key = "_Alpha"; if (vsx_choice(2, "prop")) a.s("prop", key = "A");
    VSNode *o = callNode("ClipToProp", a); vsx_assert((o != nullptr) == (vi(c)->width && vi(c2)->width), "clips of constant size and format"); if (refused(o)) return; vsx_assert(vi(o)->numFrames == vi(c2)->numFrames && vi(o)->fpsNum == vi(c)->fpsNum, "as long as the mask");
    int n = frameNo(o); Drive d; const VSFrame *g = d.run(o, n, richOrPoor), *s = frameOf(d, c), *t = frameOf(d, c2); pictureKept(o, c, g, s); vsx_assert(propI(t, "idx") == n && propI(s, "idx") == (n < 10 ? n : 9) + 100, "the frames of this number"); deps(o, c, 0);
    others(pr(s), pr(g), [&](const std::string &q) { return q == key; }); const VSFrame *q = api->mapGetFrame(pr(g), key, 0, nullptr); vsx_assert(q == t && api->mapNumElements(pr(g), key) == 1, "the mask is attached"); api->freeFrame(q); vsx_cover("set");
}
// PropToClip looks at the first frame when it is made
static Src *holder(int len, int bad) {
    Src *s = new Src; memset(&s->vi, 0, sizeof s->vi); s->vi.format = fmtNo(0); s->vi.width = s->vi.height = 8; s->vi.numFrames = len; s->vi.fpsNum = 24; s->vi.fpsDen = 1;
    for (int i = 0; i < len; i++) { VSFrame *f = api->newVideoFrame(&s->vi.format, 8, 8, nullptr, core); memset(api->getWritePtr(f, 0), i, api->getStride(f, 0) * 8); VSMap *m = api->getFramePropertiesRW(f); VSVideoFormat mf = fmtNo(i == bad ? 9 : 1);
        for (int k = 0; k < 2; k++) { VSFrame *g = api->newVideoFrame(&mf, i == bad + 100 ? 8 : 4, 4, nullptr, core); for (int p = 0; p < mf.numPlanes; p++) vsx_symbolic(api->getWritePtr(g, p), 2, 1, "sample"); api->mapSetInt(api->getFramePropertiesRW(g), "idx", i * 2 + k, maReplace); if (i != bad + 200 || k == 0) api->mapSetFrame(m, "_Alpha", g, maAppend); if (k == 0) api->mapSetFrame(m, "Mask", g, maAppend); api->freeFrame(g); }
        api->mapSetInt(m, "Int", 7, maReplace); s->fr.push_back(f); }
    s->node = api->createVideoFilter2("input", &s->vi, srcGet, srcFree, fmUnordered, nullptr, 0, s, core); return s;
}
HARNESS(h_proptoclip) {
    startF(); int bk = (int)vsx_choice(4, "bad frame"), badAt = 2, index = (int)vsx_choice(4, "index") - 1; Src *s = holder(4, bk == 0 ? -1000 : bk == 1 ? badAt : bk == 2 ? badAt - 100 : badAt - 200); int pk = (int)vsx_choice(4, "prop"); Args a; a.clip("clip", s->node); static const char *const ps[] = { "_Alpha", "Mask", "Int", "" }; if (pk) a.s("prop", ps[pk]); if (index) a.i("index", index);
    VSNode *o = callNode("PropToClip", a); bool ok = pk < 2 && index >= 0 && index < (pk == 1 ? 1 : 2); vsx_assert((o != nullptr) == ok, "exactly existing frames are accepted"); if (refused(o)) return; vsx_assert(sameFmt(vi(o)->format, fmtNo(1)) && vi(o)->width == 4 && vi(o)->height == 4 && vi(o)->numFrames == 4 && vi(o)->fpsNum == 24, "the attached format"); deps(o, s->node, 0);
    int n = (int)vsx_choice(4, "n"); Drive d; const VSFrame *g = d.run(o, n, [](VSNode *, int k, void *u) -> const VSFrame * { return api->addFrameRef(((Src *)u)->fr[k]); }, s);
    bool bad = n == badAt && (bk == 1 || bk == 2 || (bk == 3 && index == 1)); vsx_assert((g != nullptr) == !bad, "exactly frames of the promised format are output"); if (!g) { vsx_cover("bad"); return; } vsx_assert(propI(g, "idx") == n * 2 + index, "the attached frame"); const VSFrame *q = api->mapGetFrame(pr(s->fr[n]), ps[pk], index, nullptr); vsx_assert(q == g, "the attached frame"); api->freeFrame(q); vsx_cover("good");
}
static const int64_t rates[] = { 24, 1, 30000, 1001, 48, 0, -1, 25, 1000000007, 3037000500, 922337203685477581, 4611686018427387904, 9223372036854775807 };
static int64_t gcd(int64_t a, int64_t b) { while (b) { int64_t t = a % b; a = b; b = t; } return a; }
HARNESS(h_assumefps) {
    startF(); int k = (int)vsx_choice(4, "arguments"), dk = (int)vsx_choice(2, "fpsden"); bool num = k & 1, src = k & 2; int64_t n = num || src ? rates[vsx_choice(13, "fpsnum")] : 1, d = dk || src ? rates[vsx_choice(13, "fpsden value")] : 1; if (src && (n < 0 || d < 0 || (n == 0) != (d == 0) || gcd(n, d) > 1)) return; VSNode *c = input(); Args a; a.clip("clip", c);
    if (src) a.clip("src", mkInput(fmtNo(9), 16, 16, 3, n, d)); if (num) a.i("fpsnum", n); if (dk) a.i("fpsden", src ? 77 : d); bool ok = num != src && n > 0 && d > 0; VSNode *o = callNode("AssumeFPS", a); vsx_assert((o != nullptr) == ok, "exactly one source of a positive rate"); if (refused(o)) return; int64_t q = gcd(n, d); n /= q; d /= q;
    vsx_assert(vi(o)->fpsNum == n && vi(o)->fpsDen == d && vi(o)->numFrames == 10, "the frame rate in lowest terms"); deps(o, c, 0); Drive dr; const VSFrame *g = dr.run(o, frameNo(o), rich), *s = frameOf(dr, c); pictureKept(o, c, g, s); others(pr(s), pr(g), [](const std::string &x) { return x == "_DurationNum" || x == "_DurationDen"; }); vsx_assert(propI(g, "_DurationNum") == d && propI(g, "_DurationDen") == n, "the duration of a frame"); vsx_cover("set");
}
HARNESS(h_assumefps_any) { startF(); VSNode *c = input(); Args a; a.clip("clip", c); int64_t n = vsx_any<int64_t>("fpsnum"), d = vsx_any<int64_t>("fpsden"); vsx_assume((n < 1) | (d < 1)); a.i("fpsnum", n).i("fpsden", d); VSNode *o = callNode("AssumeFPS", a); vsx_assert(o == nullptr, "rates that are not positive are refused"); refused(o); }
// ---- BlankClip
HARNESS(h_blank) { // sizes, formats and flags
    startF(); VSVideoFormat cf = fmtParam("cf", 1); int cl = (int)vsx_choice(3, "clip"); Args a; VSVideoInfo e; memset(&e, 0, sizeof e); e.width = 640; e.height = 480; e.fpsNum = 24; e.fpsDen = 1; api->queryVideoFormat(&e.format, cfRGB, stInteger, 8, 0, 0, core); e.numFrames = 240;
    if (cl) { VSNode *c = mkInput(cf, cl == 2 ? 0 : 16, cl == 2 ? 0 : 8, 77, 25, 1); a.clip("clip", c); e = *vi(c); } int fk = (int)vsx_choice(9, "format"); if (fk) { e.format = fmtNo(fk - 1); a.i("format", api->queryVideoFormatID(e.format.colorFamily, e.format.sampleType, e.format.bitsPerSample, e.format.subSamplingW, e.format.subSamplingH, core)); }
    const int64_t dims[] = { 0, 8, 6, -8, 5, 1, 12 }; int k = (int)vsx_choice(8, "width"); if (k) a.i("width", e.width = (int)dims[k - 1]); k = (int)vsx_choice(4, "height"); if (k) a.i("height", e.height = (int)dims[k - 1]); const int64_t lens[] = { 1, 0, 2147483647, 4294967297ll, -4294967297ll }; k = (int)vsx_choice(param("lens", 1) ? 6 : 1, "length"); if (k) { a.i("length", lens[k - 1]); e.numFrames = (int)sat(lens[k - 1]); }
    int vs = (int)vsx_choice(2, "varsize"), vf = (int)vsx_choice(2, "varformat"); if (vs) a.i("varsize", 1); if (vf) a.i("varformat", 1); bool ok = e.width > 0 && e.height > 0 && e.numFrames > 0 && e.width % (1 << e.format.subSamplingW) == 0 && e.height % (1 << e.format.subSamplingH) == 0;
    VSNode *o = callNode("BlankClip", a); vsx_assert((o != nullptr) == ok, "exactly valid clips are made"); if (refused(o)) return;
    vsx_assert(vi(o)->numFrames == e.numFrames && vi(o)->fpsNum == e.fpsNum && vi(o)->fpsDen == e.fpsDen && (vs ? !vi(o)->width && !vi(o)->height : vi(o)->width == e.width && vi(o)->height == e.height) && (vf ? vi(o)->format.colorFamily == cfUndefined : sameFmt(vi(o)->format, e.format)), "the promised clip"); if (e.width > 64) { vsx_cover("made"); return; }
    int n = frameNo(o); Drive d, d2; const VSFrame *g = d.run(o, n, plainMade), *h = d2.run(o, n, plainMade); vsx_assert(g && h && d.reqs.empty() && g != h, "a new frame each time"); vsx_assert(sameFmt(*api->getVideoFrameFormat(g), e.format) && pw(g, 0) == e.width && ph(g, 0) == e.height, "frames of this size and format"); vsx_assert(propI(g, "_DurationNum") == e.fpsDen && propI(g, "_DurationDen") == e.fpsNum && api->mapNumKeys(pr(g)) == 2, "the duration of a frame");
    for (int p = 0; p < e.format.numPlanes; p++) { bool ch = p && e.format.colorFamily == cfYUV; uint32_t w = ch && isInt(e.format) ? 1u << (e.format.bitsPerSample - 1) : 0; eachPixel(g, p, [&](int x, int y) { vsx_assert(ipx(g, p, x, y) == w, "black"); }); } vsx_cover("made");
}
HARNESS(h_blank_fps) {
    startF(); int a1 = (int)vsx_choice(14, "fpsnum"), a2 = (int)vsx_choice(14, "fpsden"); bool clip = vsx_choice(2, "clip"), len = vsx_choice(2, "length"); Args a; a.i("width", 8).i("height", 8); int64_t n = 24, d = 1; int frames = 0; if (clip) { a.clip("clip", mkInput(fmtNo(0), 8, 8, 31, 50, 3)); n = 50, d = 3, frames = 31; } if (a1) a.i("fpsnum", n = rates[a1 - 1]); if (a2) a.i("fpsden", d = rates[a2 - 1]); if (len) a.i("length", frames = 5);
    bool ok = n >= 0 && d >= 0; if (!n || !d) n = d = 0; else if (ok) { int64_t q = gcd(n, d); n /= q; d /= q; } if (!frames) { __int128 f = n ? (__int128)n * 10 / d : 300; frames = f > 2147483647 ? 2147483647 : (int)f; if (!frames) ok = false; }
    VSNode *o = callNode("BlankClip", a); vsx_assert((o != nullptr) == ok, "exactly valid rates are accepted"); if (refused(o)) return; vsx_assert(vi(o)->fpsNum == n && vi(o)->fpsDen == d, "the frame rate in lowest terms"); bool big = !len && !clip && n > 922337203685477580; vsx_assert(big ? std::llabs((long long)vi(o)->numFrames - frames) <= 1 : vi(o)->numFrames == frames, "ten seconds unless given");
    Drive dr; const VSFrame *g = dr.run(o, frameNo(o), plainMade); vsx_assert(g != nullptr, "produced"); vsx_assert(n ? propI(g, "_DurationNum") == d && propI(g, "_DurationDen") == n : api->mapNumKeys(pr(g)) == 0, "the duration of a frame"); vsx_cover("made");
}
HARNESS(h_blank_color) { // any color of up to four components
    startF(); VSVideoFormat f = fmtParam(); int k = (int)vsx_choice(5, "components"); bool keep = vsx_choice(2, "keep"); Args a; a.i("width", 8).i("height", 8).i("format", api->queryVideoFormatID(f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, core)); if (keep) a.i("keep", 1); bool ok = !k || k == f.numPlanes; uint32_t want[4] = {};
    for (int i = 0; i < k; i++) { if (isInt(f)) { int64_t v = vsx_any<int64_t>("color"); vsx_assume((v >= -5000000000ll) & (v <= 5000000000ll)); a.f("color", (double)v); if (v < 0 || v > maxOf(f)) ok = false; want[i] = (uint32_t)v; } else { const double vs[] = { 0, 1, -.5, 7.25, 65504, 65536, 1e39, -1e39 }; double v = vs[vsx_choice(8, "color")]; a.f("color", v); if (std::fabs(v) > (f.bytesPerSample == 2 ? 65504. : 3.5e38)) ok = false; float w = (float)v; if (f.bytesPerSample == 4) memcpy(&want[i], &w, 4); else if (ok) want[i] = fToH(w); } }
    VSNode *o = callNode("BlankClip", a); vsx_assert((o != nullptr) == ok, "exactly representable colors are accepted"); if (refused(o)) return; int n = frameNo(o); Drive d, d2; const VSFrame *g = d.run(o, n, plainMade), *h = d2.run(o, frameNo(o, "m"), plainMade); vsx_assert(g && h && (g == h) == keep, "one frame with keep, new frames without");
    if (k) for (int p = 0; p < f.numPlanes; p++) eachPixel(g, p, [&](int x, int y) { vsx_assert(ipx(g, p, x, y) == want[p], "the color"); }); vsx_cover("made");
}
HARNESS(h_blank_format) { startF(); Args a; int64_t id = vsx_any<int64_t>("format"); bool clip = vsx_choice(2, "clip"); if (clip) a.clip("clip", mkInput(fmtNo(0), 32, 32, 10)); else a.i("width", 32).i("height", 32); a.i("format", id); VSVideoFormat f; VSNode *o = callNode("BlankClip", a); bool ok = id >= -2147483648ll && id <= 2147483647 && api->getVideoFormatByID(&f, (uint32_t)id, core) && f.colorFamily != cfUndefined; if (o) vsx_assert(ok && sameFmt(vi(o)->format, f), "the format asked for"); else vsx_assert(!ok, "exactly existing formats are accepted"); if (o) vsx_cover("made"); else vsx_cover("refused"); }
// ---- PEMVerifier
static int toInt(double v) { v = (float)v; return v >= 2147483647. ? 2147483647 : v <= -2147483648. ? -2147483647 - 1 : (int)std::lround(v); }
static bool boundsOk(const VSVideoFormat &f, double lo, double up, int &l, int &u) { l = toInt(lo); u = toInt(up); return isInt(f) ? l >= 0 && l <= maxOf(f) && u >= l && u <= maxOf(f) : !((float)up < (float)lo); }
HARNESS(h_pem) {
    startF(); VSVideoFormat f = fmtParam(); bool fl = !isInt(f); VSNode *c = mkInput(f, param("w", 4), param("h", 2), 10); Args a; a.clip("clip", c); int b = (int)vsx_choice(4, "bounds"); double lo[3], up[3]; double M = fl ? 1 : (double)maxOf(f);
    for (int p = 0; p < f.numPlanes; p++) { bool ch = fl && p && f.colorFamily == cfYUV; lo[p] = ch ? -.5 : 0; up[p] = ch ? .5 : M; } if (b & 1) for (int p = 0; p < f.numPlanes; p++) a.f("lower", lo[p] = fl ? -.25 + p * .125 : 2 + p); if (b & 2) for (int p = 0; p < f.numPlanes; p++) a.f("upper", up[p] = fl ? .75 + p : M - 3 - p);
    VSNode *o = callNode("PEMVerifier", a); vsx_assert(o != nullptr, "accepted"); int n = (int)vsx_choice(2, "frame") * 7; Drive d; const VSFrame *g = d.run(o, n, param("lat", 0) ? latFrame : anyFrame), *s = frameOf(d, c);
    int bp = -1, bx = -1, by = -1; for (int p = 0; p < f.numPlanes && bp < 0; p++) for (int y = 0; y < ph(s, p) && bp < 0; y++) for (int x = 0; x < pw(s, p) && bp < 0; x++) { bool bad; if (fl) { float v = fpx(s, p, x, y); bad = !((v >= lo[p]) & (v <= up[p]) & (v - v == 0)); } else { int v = (int)ipx(s, p, x, y); bad = (v < lo[p]) | (v > up[p]); } if (vsx_concretize(bad)) { bp = p; by = y; bx = x; } }
    vsx_assert((g != nullptr) == (bp < 0), "exactly frames within the bounds are passed on"); if (g) { vsx_assert(g == s, "the frame itself"); vsx_cover("good"); return; }
    { char t[128]; snprintf(t, sizeof t, "at: plane: %d Y: %d, X: %d, Frame: %d", bp, by, bx, n); bool found = false; size_t l = strlen(t); const char *e = d.error.c_str(); for (size_t i = 0; i + l <= d.error.size(); i++) { bool eq = true; for (size_t j = 0; j < l; j++) eq &= e[i + j] == t[j]; found |= eq; } vsx_assert(found, "the first bad sample is named"); } vsx_cover("bad");
}
HARNESS(h_pem_args) {
    startF(); VSVideoFormat f = pick("format"); VSNode *c = mkInput(f, 8, 8, 10); Args a; a.clip("clip", c); bool ok = okFormat(f); const double vs[] = { 0, -.4, -.6, 1, 254.6, 255.4, 255.6, 65535, 65536, -1, 1e30 }; int nl = (int)vsx_choice(5, "lower bounds"), nu = (int)vsx_choice(5, "upper bounds"); if (ok) ok = (!nl || nl == f.numPlanes) && (!nu || nu == f.numPlanes); double lv = vs[vsx_choice(nl ? 11 : 1, "lower")], uv = vs[vsx_choice(nu ? 11 : 1, "upper")];
    for (int i = 0; i < nl; i++) a.f("lower", lv); for (int i = 0; i < nu; i++) a.f("upper", uv); int l, u; for (int p = 0; p < f.numPlanes && ok; p++) { bool ch = !isInt(f) && p && f.colorFamily == cfYUV; double lo = nl ? lv : ch ? -.5 : 0, up = nu ? uv : isInt(f) ? (double)maxOf(f) : ch ? .5 : 1; ok = boundsOk(f, lo, up, l, u) || (!isInt(f) && !nu); }
    VSNode *o = callNode("PEMVerifier", a); vsx_assert((o != nullptr) == ok, "exactly valid bounds are accepted"); if (refused(o)) return; infoKept(o, c); vsx_assert(sameFmt(vi(o)->format, f) && vi(o)->width == 8, "video info is kept"); vsx_cover("accepted");
}
// ---- ModifyFrame and FrameEval: what the given function gets and may return
static struct Cb { int calls, n, act, frames; const VSFrame *f[4]; VSFrame *give; VSNode *node; } cb;
static void VS_CC callback(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) {
    cb.calls++; int e; cb.n = (int)a->mapGetInt(in, "n", 0, &e); vsx_assert(!e && a->mapNumElements(in, "n") == 1, "the frame number is passed"); cb.frames = a->mapNumElements(in, "f"); for (int i = 0; i < cb.frames && i < 4; i++) { cb.f[i] = a->mapGetFrame(in, "f", i, &e); a->freeFrame(cb.f[i]); }
    if (cb.act == 0) { if (cb.give) a->mapSetFrame(out, "val", cb.give, maAppend); else if (cb.node) a->mapSetNode(out, "val", cb.node, maAppend); else a->mapSetFrame(out, "val", cb.f[0], maAppend); } else if (cb.act == 1) a->mapSetError(out, "function failed"); else if (cb.act == 2) a->mapSetInt(out, "val", 5, maAppend); else if (cb.act == 3) a->mapSetFrame(out, "other", cb.give, maAppend);
}
static VSFrame *giveFrame(int kind) { // 0 fits, 1 another format, 2 another width, 3 another height, 4 audio
    if (kind == 4) { VSAudioFormat af; api->queryAudioFormat(&af, stInteger, 16, 3, core); return api->newAudioFrame(&af, 100, nullptr, core); }
    VSVideoFormat f = fmtNo(kind == 1 ? 9 : 0); VSFrame *g = api->newVideoFrame(&f, kind == 2 ? 4 : 8, kind == 3 ? 4 : 8, nullptr, core); api->mapSetInt(api->getFramePropertiesRW(g), "given", 1, maReplace); return g;
}
HARNESS(h_modify) {
    startF(); int ck = (int)vsx_choice(3, "clip"), k = 1 + (int)vsx_choice(3, "clips"), kind = (int)vsx_choice(6, "frame returned"); memset(&cb, 0, sizeof cb); cb.act = (int)vsx_choice(4, "result"); VSVideoFormat none; memset(&none, 0, sizeof none); VSNode *c = mkInput(ck == 2 ? none : fmtNo(0), ck == 1 ? 0 : 8, ck == 1 ? 0 : 8, 10), *cs[3]; Args a; a.clip("clip", c); for (int i = 0; i < k; i++) a.clip("clips", cs[i] = mkInput(fmtNo(0), 8, 8, i == 1 ? 4 : 12)); if (kind < 5) cb.give = giveFrame(kind);
    if (cb.act == 3 && !cb.give) return; VSFunction *fn = api->createFunction(callback, nullptr, nullptr, core); a.fn("selector", fn); VSNode *o = callNode("ModifyFrame", a); vsx_assert(o != nullptr, "accepted"); vsx_assert(!memcmp(vi(o), vi(c), sizeof(VSVideoInfo)) && (int)o->getNumDependencies() == k, "video info comes from the first clip"); for (int i = 0; i < k; i++) deps(o, cs[i], i);
    int n = frameNo(o); { Drive d; const VSFrame *g = d.run(o, n, plainMade); vsx_assert(cb.calls == 1 && cb.n == n && cb.frames == k, "called once with the frames of all clips"); for (int i = 0; i < k; i++) vsx_assert(cb.f[i] == frameOf(d, cs[i]), "the frames in order");
    bool ok = cb.act == 0 && kind != 4 && !(kind == 1 && ck != 2) && !(kind > 1 && kind < 4 && ck != 1); vsx_assert((g != nullptr) == ok, "exactly fitting frames are output"); if (g) { vsx_assert(g == (cb.give ? cb.give : cb.f[0]), "the frame returned"); vsx_cover("good"); } else { if (cb.act == 1) vsx_assert(d.error == "function failed", "the error is passed on"); vsx_cover("bad"); } }
    { cb.act = 0; VSFrame *old = cb.give; cb.give = giveFrame(0); Drive d; const VSFrame *g = d.run(o, 0, plainMade); vsx_assert(g == cb.give && cb.calls == 2 && cb.n == 0 && cb.frames == k, "an error does not affect later frames"); api->freeFrame(cb.give); api->freeFrame(old); }
}
HARNESS(h_eval) {
    startF(); int ck = (int)vsx_choice(3, "clip"), k = (int)vsx_choice(3, "prop_src"), kind = (int)vsx_choice(6, "node returned"); memset(&cb, 0, sizeof cb); cb.act = (int)vsx_choice(3, "result"); VSVideoFormat none; memset(&none, 0, sizeof none); VSNode *c = mkInput(ck == 2 ? none : fmtNo(0), ck == 1 ? 0 : 8, ck == 1 ? 0 : 8, 10), *cs[3]; Args a; a.clip("clip", c); for (int i = 0; i < k; i++) a.clip("prop_src", cs[i] = mkInput(fmtNo(0), 8, 8, i == 1 ? 4 : 12)); bool hint = vsx_choice(2, "clip_src");
    VSAudioFormat af; api->queryAudioFormat(&af, stInteger, 16, 3, core); VSNode *r = kind == 4 ? mkAudioInput(af, 44100, 44100) : mkInput(fmtNo(kind == 1 ? 9 : 0), kind == 2 ? 4 : 8, kind == 3 ? 4 : 8, kind == 5 ? 3 : 10); cb.node = r; if (hint) { if (kind == 4) return; a.clip("clip_src", r); } long refs = r->refcount;
    VSFunction *fn = api->createFunction(callback, nullptr, nullptr, core); a.fn("eval", fn); VSNode *o = callNode("FrameEval", a); vsx_assert(o != nullptr, "accepted"); vsx_assert(!memcmp(vi(o), vi(c), sizeof(VSVideoInfo)) && (int)o->getNumDependencies() == k + hint, "video info comes from the first clip"); for (int i = 0; i < k; i++) deps(o, cs[i], i); refs = r->refcount;
    for (int round = 0; round < 2; round++) { int n = round ? 0 : frameNo(o); if (round) { cb.act = 0; cb.node = cs[2] = mkInput(fmtNo(0), 8, 8, 5); } Drive d; d.undeclared = true; const VSFrame *g = d.run(o, n, plainMade); vsx_assert(cb.calls == round + 1 && cb.n == n && cb.frames == (k ? k : -1), "called once with the frames of all clips"); for (int i = 0; i < k; i++) vsx_assert(cb.f[i] == frameOf(d, cs[i]), "the frames in order");
        bool ok = round || (cb.act == 0 && kind != 4 && !(kind == 1 && ck != 2) && !(kind > 1 && kind < 4 && ck != 1)); vsx_assert((g != nullptr) == ok, "exactly fitting frames are output"); if (g) { vsx_assert(g == frameOf(d, cb.node) && d.reqs.back().n == (n < vi(cb.node)->numFrames ? n : vi(cb.node)->numFrames - 1), "the frame of the clip returned"); vsx_cover("good"); } else { if (cb.act == 1) vsx_assert(d.error == "function failed", "the error is passed on"); vsx_cover("bad"); } vsx_assert(r->refcount == refs, "the clip is released"); }
}
HARNESS(h_eval_upstream) { // the returned clip fails
    startF(); memset(&cb, 0, sizeof cb); int k = (int)vsx_choice(2, "prop_src"); VSNode *c = mkInput(fmtNo(0), 8, 8, 10), *s = mkInput(fmtNo(0), 8, 8, 10); Args a; a.clip("clip", c); if (k) a.clip("prop_src", s); cb.node = c; VSFunction *fn = api->createFunction(callback, nullptr, nullptr, core); a.fn("eval", fn); VSNode *o = callNode("FrameEval", a); vsx_assert(o != nullptr, "accepted"); long refs = c->refcount;
    int n = frameNo(o); VSFrameContext *ctx = new VSFrameContext(n, o, nullptr, nullptr, true, false); void **fd = ctx->frameContext; const VSAPI *ap = &vs_internal_vsapi; o->filterGetFrame(n, arInitial, o->instanceData, fd, ctx, core, ap);
    if (k) { const VSFrame *f = plain(s, n); PVSFrame p(const_cast<VSFrame *>(f), true); ctx->availableFrames.push_back({ NodeOutputKey(s, n), p }); api->freeFrame(f); ctx->reqList.clear(); o->filterGetFrame(n, arAllFramesReady, o->instanceData, fd, ctx, core, ap); }
    vsx_assert(ctx->reqList.size() == 1 && ctx->reqList[0].first == c && ctx->reqList[0].second == n && c->refcount > refs, "the returned clip is asked"); ctx->reqList.clear(); o->filterGetFrame(n, arError, o->instanceData, fd, ctx, core, ap); ctx->release(); vsx_assert(c->refcount == refs, "the clip is released"); vsx_cover("failed");
}
