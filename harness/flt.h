// Helpers for filter harnesses: source nodes with arbitrary frame contents, invoking filters through the public API.
#pragma once
#include "common.h"
struct Src {
    VSVideoInfo vi;
    std::vector<const VSFrame *> fr;
    VSNode *node;
    int requests = 0, badRequests = 0;
};
static const VSFrame *VS_CC srcGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) {
    Src *s = (Src *)inst;
    if (reason != arInitial) return nullptr;
    s->requests++;
    if (n < 0 || n >= (int)s->fr.size()) { s->badRequests++; a->setFilterError("source: bad frame number", ctx); return nullptr; }
    return a->addFrameRef(s->fr[n]);
}
static void VS_CC srcFree(void *, VSCore *, const VSAPI *) {}
static inline VSVideoFormat fmtOf(uint32_t id) { VSVideoFormat f; int ok = api->getVideoFormatByID(&f, id, core); vsx_assume(ok != 0); return f; }
// fills every visible pixel of every plane with arbitrary values
static inline void fillAny(VSFrame *f, const char *name) {
    const VSVideoFormat *vf = api->getVideoFrameFormat(f);
    for (int p = 0; p < vf->numPlanes; p++) {
        int w = api->getFrameWidth(f, p), h = api->getFrameHeight(f, p);
        uint8_t *d = api->getWritePtr(f, p); ptrdiff_t st = api->getStride(f, p);
        for (int y = 0; y < h; y++) vsx_symbolic(d + y * st, w, vf->bytesPerSample, name);
    }
}
template <class T> static inline void assumeMaxT(VSFrame *f, unsigned maxv) {
    const VSVideoFormat *vf = api->getVideoFrameFormat(f);
    for (int p = 0; p < vf->numPlanes; p++) {
        int w = api->getFrameWidth(f, p), h = api->getFrameHeight(f, p); const uint8_t *d = api->getReadPtr(f, p); ptrdiff_t st = api->getStride(f, p);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) vsx_assume(((const T *)(d + y * st))[x] <= maxv);
    }
}
static inline void assumeDepth(VSFrame *f) {
    const VSVideoFormat *vf = api->getVideoFrameFormat(f);
    if (vf->sampleType != stInteger) return;
    if (vf->bytesPerSample == 2 && vf->bitsPerSample < 16) assumeMaxT<uint16_t>(f, (1u << vf->bitsPerSample) - 1);
    if (vf->bytesPerSample == 4 && vf->bitsPerSample < 32) assumeMaxT<uint32_t>(f, (1u << vf->bitsPerSample) - 1);
}
enum { srcConcrete = 1, srcNoDepth = 2 };
static inline Src *mkSrc(const VSVideoFormat &vf, int w, int h, int len, const char *name, int flags = 0, int64_t fpsNum = 24, int64_t fpsDen = 1) {
    Src *s = new Src;
    memset(&s->vi, 0, sizeof s->vi);
    s->vi.format = vf; s->vi.width = w; s->vi.height = h; s->vi.numFrames = len; s->vi.fpsNum = fpsNum; s->vi.fpsDen = fpsDen;
    for (int i = 0; i < len; i++) {
        VSFrame *f = api->newVideoFrame(&vf, w, h, nullptr, core);
        if (flags & srcConcrete) {
            for (int p = 0; p < vf.numPlanes; p++) memset(api->getWritePtr(f, p), 16 + i * 3 + p, api->getStride(f, p) * api->getFrameHeight(f, p));
        } else { fillAny(f, name); if (!(flags & srcNoDepth)) assumeDepth(f); }
        api->mapSetInt(api->getFramePropertiesRW(f), "idx", i, maReplace);
        s->fr.push_back(f);
    }
    s->node = api->createVideoFilter2(name, &s->vi, srcGet, srcFree, fmUnordered, nullptr, 0, s, core);
    return s;
}
struct Args {
    VSMap *m;
    Args() : m(api->createMap()) {}
    ~Args() { api->freeMap(m); }
    Args &clip(const char *k, VSNode *n) { api->mapSetNode(m, k, n, maAppend); return *this; }
    Args &i(const char *k, int64_t v) { api->mapSetInt(m, k, v, maAppend); return *this; }
    Args &f(const char *k, double v) { api->mapSetFloat(m, k, v, maAppend); return *this; }
    Args &s(const char *k, const char *v) { api->mapSetData(m, k, v, -1, dtUtf8, maAppend); return *this; }
    Args &fn(const char *k, VSFunction *v) { api->mapSetFunction(m, k, v, maAppend); return *this; }
};
static inline VSMap *call(const char *fn, Args &a, const char *ns = nullptr) {
    VSPlugin *p = ns ? api->getPluginByNamespace(ns, core) : api->getPluginByID(VSH_STD_PLUGIN_ID, core);
    return api->invoke(p, fn, a.m);
}
static std::string lastError;
// nullptr when the filter refused its arguments
static inline VSNode *callNode(const char *fn, Args &a, const char *ns = nullptr) {
    VSMap *r = call(fn, a, ns);
    const char *e = api->mapGetError(r);
    lastError = e ? e : "";
    VSNode *n = e ? nullptr : api->mapGetNode(r, "clip", 0, nullptr);
    api->freeMap(r);
    return n;
}
static inline const VSFrame *get(VSNode *n, int i) {
    char msg[256]; msg[0] = 0;
    const VSFrame *f = api->getFrame(i, n, msg, sizeof msg);
    lastError = f ? "" : msg;
    return f;
}
template <class T> static inline T px(const VSFrame *f, int p, int x, int y) { return ((const T *)(api->getReadPtr(f, p) + y * api->getStride(f, p)))[x]; }
static inline uint32_t ipx(const VSFrame *f, int p, int x, int y) {
    int b = api->getVideoFrameFormat(f)->bytesPerSample;
    return b == 1 ? px<uint8_t>(f, p, x, y) : b == 2 ? px<uint16_t>(f, p, x, y) : px<uint32_t>(f, p, x, y);
}
static inline int pw(const VSFrame *f, int p) { return api->getFrameWidth(f, p); }
static inline int ph(const VSFrame *f, int p) { return api->getFrameHeight(f, p); }
static inline const uint8_t *row(const VSFrame *f, int p, int y) { return api->getReadPtr(f, p) + y * api->getStride(f, p); }
static inline int64_t propI(const VSFrame *f, const char *k, int64_t def = -999999) { int e; int64_t v = api->mapGetInt(api->getFramePropertiesRO(f), k, 0, &e); return e ? def : v; }
// planes equal, all pixels
static inline void eqPlane(const VSFrame *a, int pa, const VSFrame *b, int pb, const char *msg) {
    int w = pw(a, pa), h = ph(a, pa), bps = api->getVideoFrameFormat(a)->bytesPerSample;
    vsx_assert(w == pw(b, pb) && h == ph(b, pb), msg);
    for (int y = 0; y < h; y++) vsx_assert_eqmem(row(a, pa, y), row(b, pb, y), (size_t)w, bps, msg);
}
