// Caches, memory accounting, lifetimes and logging.
#include "flt.h"
#include <mutex>
#include <algorithm>
// ---- a source that counts how often each frame is produced ----
struct CSrc { VSVideoInfo vi; VSNode *src, *src2; int made[8], freed, last, linear, thr; CSrc *deps[2]; int inst; };
static VSNode *failNode;
static size_t used() { VSCoreInfo2 i; api->getCoreInfo2(core, &i); return (size_t)i.usedFramebufferSize; }
static const VSFrame *mkF(int n, const VSVideoInfo &vi, VSCore *c, const VSAPI *a) {
    VSFrame *f = a->newVideoFrame(&vi.format, vi.width, vi.height, nullptr, c);
    a->mapSetInt(a->getFramePropertiesRW(f), "n", n, maReplace); a->getWritePtr(f, 0)[0] = (uint8_t)(n + 7);
    return f;
}
static const VSFrame *VS_CC csGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *c, const VSAPI *a) {
    CSrc *d = (CSrc *)inst;
    if (reason != arInitial) return nullptr;
    if (d->linear) {
        if (d->last < n && d->last > n - d->thr) for (int i = d->last + 1; i < n; i++) { d->made[i]++; const VSFrame *f = mkF(i, d->vi, c, a); a->cacheFrame(f, i, ctx); a->freeFrame(f); }
        d->last = n;
    }
    d->made[n & 7]++;
    return mkF(n, d->vi, c, a);
}
static const VSFrame *VS_CC cfGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) {
    CSrc *d = (CSrc *)inst;
    if (reason == arInitial) a->requestFrameFilter(n, d->src, ctx);
    else if (reason == arAllFramesReady) return a->getFrameFilter(n, d->src, ctx);
    return nullptr;
}
static const VSFrame *VS_CC failGet(int, int reason, void *, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) { if (reason == arInitial) a->setFilterError("x", ctx); return nullptr; }
static void VS_CC csDelete(void *inst, VSCore *, const VSAPI *) { delete (CSrc *)inst; }
static void VS_CC csFree(void *inst, VSCore *, const VSAPI *) { if (inst) ((CSrc *)inst)->freed++; }
static CSrc *mkCS(int len = 6, int w = 16, int h = 4) { CSrc *d = new CSrc; memset(d, 0, sizeof *d); d->last = -1; d->vi.format = fmtOf(pfGray8); d->vi.width = w; d->vi.height = h; d->vi.numFrames = len; d->vi.fpsNum = d->vi.fpsDen = 1; return d; }
// the single worker has finished with all earlier requests when this returns
static void drain() { char m[8]; const VSFrame *f = api->getFrame(0, failNode, m, 8); vsx_assert(!f && m[0] == 'x', "the failing node fails"); }
static void mkFail() { CSrc *d = mkCS(); failNode = api->createVideoFilter2("fail", &d->vi, failGet, csFree, fmParallel, nullptr, 0, d, core); }
static void want(VSNode *n, int i) {
    const VSFrame *f = get(n, i);
    vsx_assert(f != nullptr, "a frame is delivered");
    vsx_assert(propI(f, "n") == i && row(f, 0, 0)[0] == i + 7, "the delivered frame is the requested one");
    api->freeFrame(f);
}
static size_t oneFrame(const CSrc *d) { size_t b = used(); const VSFrame *f = mkF(0, d->vi, core, api); size_t s = used() - b; api->freeFrame(f); return s; }
// ---- C12 ----
// any sequence of requests and cache controls on one node, against a least recently used model
HARNESS(h_cache) {
    setup(0, 1); mkFail();
    CSrc *d = mkCS(); VSNode *n = api->createVideoFilter2("src", &d->vi, csGet, csFree, fmParallel, nullptr, 0, d, core);
    size_t one = oneFrame(d);
    bool enabled = true, fixed = true, exact = true; int maxv = 2; std::vector<int> lru;
    api->setCacheMode(n, cmForceEnable); api->setCacheOptions(n, 1, 2, (int)vsx_param("hist", -1));
    int ops = (int)vsx_param("ops", 3), all = (int)vsx_param("all", 0);
    auto trim = [&] { if (!enabled) lru.clear(); else if (maxv >= 0) while ((int)lru.size() > maxv) lru.pop_back(); };
    for (int i = 0; i < ops; i++) {
        int op = (int)vsx_choice(all ? 15 : 7, "op");
        if (op < 4) {
            int before[8]; memcpy(before, d->made, sizeof before);
            want(n, op); drain();
            auto it = std::find(lru.begin(), lru.end(), op); bool hit = it != lru.end();
            for (int k = 0; k < 8; k++) {
                int m = d->made[k] - before[k];
                if (k != op) vsx_assert(m == 0, "only the requested frame is produced");
                else if (exact) vsx_assert(m == (hit ? 0 : 1), "a frame is recomputed exactly if it is no longer among the recently used ones");
                else vsx_assert(m <= 1, "a frame is produced at most once per request");
            }
            if (hit) lru.erase(it);
            if (enabled) { lru.insert(lru.begin(), op); trim(); }
        } else if (op < 7) { maxv = op - 3; fixed = true; api->setCacheOptions(n, 1, maxv, -1); if (!exact) { api->clearNodeCache(n); lru.clear(); exact = true; } trim(); }
        else if (op == 7) { api->clearNodeCache(n); lru.clear(); exact = true; }
        else if (op == 8) { api->clearCoreCaches(core); lru.clear(); exact = true; }
        else if (op < 12) { int mode = op - 10; api->setCacheMode(n, mode); enabled = mode != 0; fixed = false; maxv = 20; trim(); }
        else if (op == 12) { vsx_advance(3000000000ll); if (!fixed) exact = false; }
        else if (op == 13) { maxv = 0; fixed = true; api->setCacheOptions(n, 1, 0, -1); trim(); exact = true; }
        else { api->setCacheOptions(n, -1, -1, 0); }
        drain();
        size_t held = used();
        if (exact) vsx_assert(held == lru.size() * one, "the cache holds exactly the frames it promises to hold");
        else vsx_assert(held <= 6 * one, "the cache holds each frame once");
    }
    api->freeNode(n); api->freeNode(failNode);
    vsx_assert(used() == 0, "no frame is held after the node is gone");
    api->freeCore(core);
    vsx_cover("done");
}
// automatic caching for every request pattern and number of consumers
HARNESS(h_auto) {
    setup(0, 1); mkFail();
    CSrc *d = mkCS(4), *c[2] = { mkCS(4), mkCS(4) };
    VSNode *s = api->createVideoFilter2("src", &d->vi, csGet, csFree, fmParallel, nullptr, 0, d, core), *cn[2] = {};
    size_t one = oneFrame(d);
    int nc = 1 + (int)vsx_choice(2, "consumers"), pat[2];
    for (int i = 0; i < nc; i++) {
        pat[i] = (int)vsx_choice(4, "pattern"); c[i]->src = s;
        VSFilterDependency dep = { s, pat[i] };
        cn[i] = api->createVideoFilter2("c", &c[i]->vi, cfGet, csFree, fmParallel, &dep, 1, c[i], core);
        api->setCacheMode(cn[i], cmForceDisable);
    }
    int seen[4] = {}, lastSeen = 0, reqs = 0, len = (int)vsx_param("len", 3);
    for (int i = 0; i < len; i++) {
        int who = nc > 1 ? (int)vsx_choice(2, "who") : 0, f = (int)vsx_choice(4, "frame");
        want(cn[who], f); drain(); seen[f] = 1; reqs++;
        bool cached = nc > 1 || pat[0] == rpGeneral, none = nc == 1 && (pat[0] == rpStrictSpatial || pat[0] == rpNoFrameReuse);
        if (f == 3) lastSeen = 1;
        int distinct = seen[0] + seen[1] + seen[2] + seen[3], tot = d->made[0] + d->made[1] + d->made[2] + d->made[3];
        if (cached) { vsx_assert(tot == distinct, "frames of a node that may be asked again are computed once"); vsx_assert(used() == distinct * one, "and held"); }
        else if (none) { vsx_assert(tot == reqs, "frames of a node without reuse are computed on demand"); vsx_assert(used() == 0, "and never held"); }
        else { vsx_assert(d->made[3] == lastSeen, "the last frame is computed once"); vsx_assert(used() == lastSeen * one, "only the last frame is held"); }
    }
    if (nc == 2) {
        api->freeNode(cn[1]); bool none = pat[0] == rpStrictSpatial || pat[0] == rpNoFrameReuse;
        if (none) vsx_assert(used() == 0, "frames are dropped when they can no longer be reused");
        want(cn[0], 1); drain();
        if (none) vsx_assert(used() == 0, "frames are no longer held");
    }
    api->freeNode(cn[0]); api->freeNode(s); api->freeNode(failNode);
    vsx_assert(used() == 0, "no frame is held after the nodes are gone");
    api->freeCore(core);
    vsx_cover("done");
}
// a filter that pushes the frames it passes over into its cache
HARNESS(h_linear) {
    setup(0, 1); mkFail();
    CSrc *d = mkCS(6); VSNode *n = api->createVideoFilter2("src", &d->vi, csGet, csFree, fmUnordered, nullptr, 0, d, core);
    int thr = api->setLinearFilter(n); vsx_assert(thr > 0, "a positive number of frames may be cached ahead");
    d->linear = 1; d->thr = (int)vsx_param("thr", 3) < thr ? (int)vsx_param("thr", 3) : thr;
    api->setCacheMode(n, cmForceDisable); // must be ignored
    int len = (int)vsx_param("len", 3), seen[6] = {};
    for (int i = 0; i < len; i++) {
        int f = (int)vsx_choice(6, "frame"), before = d->made[f];
        bool known = before > 0;
        want(n, f); drain(); seen[f] = 1;
        vsx_assert(d->made[f] == (known ? before : 1), "a frame that was pushed into the cache or delivered before is not computed again");
    }
    api->freeNode(n); api->freeNode(failNode); api->freeCore(core);
    vsx_cover("done");
}
// ---- C13 ----
struct Buf { VSFrame *f; uint8_t tag; int h; };
static const int hs[] = { 64, 1088, 1152, 1280, 2600 };
static VSFrame *mkBig(int k, uint8_t tag) {
    VSVideoFormat f = fmtOf(pfGray8);
    VSFrame *r = api->newVideoFrame(&f, 1024, hs[k], nullptr, core);
    ptrdiff_t st = api->getStride(r, 0); uint8_t *p = api->getWritePtr(r, 0);
    p[0] = tag; p[st * (hs[k] - 1) + 1023] = tag; p[st * 63] = tag;
    return r;
}
static void chkBig(const Buf &b) {
    ptrdiff_t st = api->getStride(b.f, 0); const uint8_t *p = api->getReadPtr(b.f, 0);
    vsx_assert(p[0] == b.tag && p[st * (b.h - 1) + 1023] == b.tag && p[st * 63] == b.tag, "outstanding buffers keep their contents");
    vsx_check_range(p, (uint64_t)(st * b.h));
}
static void chkUsed(const std::vector<Buf> &v) {
    size_t lo = 0, hi = 0; for (const Buf &b : v) { lo += 1024 * b.h; hi += 1024 * b.h + 1024 * b.h / 4 + 8192; }
    size_t u = used();
    vsx_assert(u >= lo && u <= hi && (u == 0) == v.empty(), "the reported memory is that of the outstanding frames");
}
// any sequence of allocations, releases and limit changes, including buffers that are reused
HARNESS(h_mem) {
    setup(0, 1); api->freeCore(core);
    uint64_t base = vsx_live_objects();
    setup(0, 1);
    { size_t live0 = 0;
    std::vector<Buf> v; v.reserve(8); v.push_back({ mkBig(0, 1), 1, 64 }); api->freeFrame(v[0].f); v.clear();
    live0 = vsx_live_objects();
    int ops = (int)vsx_param("ops", 3); uint8_t tag = 10;
    for (int i = 0; i < ops; i++) {
        int op = (int)vsx_choice(5 + 3 + 2, "op");
        if (op < 5) { tag++; v.push_back({ mkBig(op, tag), tag, hs[op] }); }
        else if (op < 8) { int k = op - 5; if (k >= (int)v.size()) { vsx_assume(0); return; } api->freeFrame(v[k].f); v.erase(v.begin() + k); }
        else { int64_t lim = op == 8 ? 1 : 1ll << 32; int64_t r = api->setMaxCacheSize(lim, core); vsx_assert(r == lim, "the new limit is reported"); VSCoreInfo2 ci; api->getCoreInfo2(core, &ci); vsx_assert(ci.maxFramebufferSize == lim, "the new limit is in force"); }
        for (const Buf &b : v) chkBig(b);
        chkUsed(v);
    }
    int out = vsx_param("outlive", 0) ? 1 : 0;
    if (!out) while (!v.empty()) { api->freeFrame(v.back().f); v.pop_back(); chkUsed(v); }
    if (!out) { api->setMaxCacheSize(1, core); vsx_assert(vsx_live_objects() == live0, "unused memory is given back when the limit asks for it"); }
    api->freeCore(core);
    for (const Buf &b : v) chkBig(b);
    while (!v.empty()) { api->freeFrame(v.back().f); v.pop_back(); for (const Buf &b : v) chkBig(b); }
    }
    vsx_assert(vsx_live_objects() == base, "everything is released in the end");
    vsx_cover("done");
}
// planes that frames share are counted once and live as long as one of them
HARNESS(h_memshare) {
    setup(0, 1);
    VSVideoFormat f = fmtOf(pfYUV444P8);
    VSFrame *a = api->newVideoFrame(&f, 64, 64, nullptr, core); size_t u1 = used();
    vsx_assert(u1 >= 3 * 64 * 64, "the reported memory covers all planes");
    VSFrame *b = api->copyFrame(a, core); vsx_assert(used() == u1, "a copy shares its planes");
    int planes[3]; const VSFrame *src[3]; int own = 0; bool null[3];
    for (int i = 0; i < 3; i++) { null[i] = vsx_choice(2, "fresh"); planes[i] = (int)vsx_choice(3, "plane"); src[i] = null[i] ? nullptr : a; own += null[i]; }
    VSFrame *c = api->newVideoFrame2(&f, 64, 64, src, planes, nullptr, core);
    size_t per = u1 / 3; vsx_assert(used() == u1 + own * per, "only new planes need memory");
    int wp = (int)vsx_choice(3, "written"); api->getWritePtr(b, wp)[0] = 1;
    vsx_assert(used() == u1 + (own + 1) * per, "writing to a shared plane gives the frame its own");
    api->getWritePtr(b, wp)[0] = 2; vsx_assert(used() == u1 + (own + 1) * per, "and only once");
    api->freeFrame(a); bool k[3] = {}; for (int i = 0; i < 3; i++) if (!null[i]) k[planes[i]] = true; for (int i = 0; i < 3; i++) if (i != wp) k[i] = true;
    vsx_assert(used() == (k[0] + k[1] + k[2] + own + 1) * per, "planes live as long as one of their frames");
    api->freeFrame(c); vsx_assert(used() == u1, "memory is returned with the last reference");
    api->freeFrame(b); vsx_assert(used() == 0, "no memory is left over");
    api->freeCore(core);
    vsx_cover("done");
}
// two threads allocate, write and release at once
static void memThread(void *p) {
    int i = (int)(intptr_t)p, rounds = (int)vsx_param("rounds", 2);
    for (int r = 0; r < rounds; r++) {
        Buf b = { mkBig(1 + ((r + i) & 1), (uint8_t)(1 + i * 16 + r)), (uint8_t)(1 + i * 16 + r), hs[1 + ((r + i) & 1)] };
        vsx_yield();
        chkBig(b); size_t u = used(); vsx_assert(u >= 1024u * b.h, "the reported memory covers the own frame");
        if (vsx_param("limit", 0)) api->setMaxCacheSize(vsx_param("limit", 0), core);
        api->freeFrame(b.f);
    }
}
HARNESS(h_memconc) {
    setup(0, 1); 
    vsx_explore(1);
    int t = vsx_thread_create(memThread, (void *)1); memThread((void *)0); vsx_thread_join(t);
    vsx_explore(0);
    vsx_assert(used() == 0, "no memory is left over");
    api->freeCore(core);
    vsx_cover("done");
}
// ---- C14 ----
struct LF { VSVideoInfo vi; VSNode *src; int freed; LF *dep; bool gone; };
static const VSFrame *VS_CC lfGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *c, const VSAPI *a) {
    LF *d = (LF *)inst; vsx_assert(d->freed == 0, "a freed filter is not called");
    if (!d->src) return mkF(n, d->vi, c, a);
    if (reason == arInitial) a->requestFrameFilter(n, d->src, ctx);
    else if (reason == arAllFramesReady) return a->getFrameFilter(n, d->src, ctx);
    return nullptr;
}
static void VS_CC lfFree(void *inst, VSCore *, const VSAPI *a) { LF *d = (LF *)inst; vsx_assert(d->freed++ == 0, "an instance is freed once"); if (d->dep) vsx_assert(d->dep->freed == 0, "a filter is freed before the filters it depends on"); if (d->src) a->freeNode(d->src); }
static LF *mkLF(LF *dep) { LF *d = new LF(); d->vi.format = fmtOf(pfGray8); d->vi.width = d->vi.height = 8; d->vi.numFrames = 3; d->vi.fpsNum = d->vi.fpsDen = 1; d->dep = dep; return d; }
static int fnCalls, fnFreed; static VSNode *fnNode;
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) { vsx_assert(fnFreed == 0 && ud == &fnCalls, "a freed function is not called"); fnCalls++; a->mapSetInt(out, "r", a->mapGetInt(in, "x", 0, nullptr) + 1, maReplace); }
static void VS_CC fnFree(void *ud) { vsx_assert(fnFreed++ == 0 && ud == &fnCalls, "a function is freed once"); if (fnNode) api->freeNode(fnNode); }
// references released in every order
HARNESS(h_life) {
    setup(0, 1); failNode = nullptr; { VSMap *m = api->createMap(); api->freeMap(m); } api->freeCore(core);
    uint64_t base = vsx_live_objects();
    setup(0, 1);
    {
    LF *d[3]; VSNode *n[3];
    for (int i = 0; i < 3; i++) {
        d[i] = mkLF(i ? d[i - 1] : nullptr);
        VSFilterDependency dep = { i ? n[i - 1] : nullptr, rpStrictSpatial };
        if (i) d[i]->src = api->addNodeRef(n[i - 1]);
        n[i] = api->createVideoFilter2("f", &d[i]->vi, lfGet, lfFree, fmParallel, i ? &dep : nullptr, i ? 1 : 0, d[i], core);
    }
    fnNode = api->addNodeRef(n[1]); fnCalls = fnFreed = 0;
    VSFunction *fn = api->createFunction(fnCall, &fnCalls, fnFree, core);
    VSMap *m = api->createMap(); api->mapSetNode(m, "a", n[1], maReplace); api->mapSetFunction(m, "f", fn, maReplace); api->mapSetInt(m, "x", 41, maReplace);
    VSMap *m2 = api->createMap(); api->copyMap(m, m2);
    const VSFrame *fr = nullptr;
    if (vsx_param("frame", 1)) { fr = api->getFrame(1, n[2], nullptr, 0); vsx_assert(propI(fr, "n") == 1, "the delivered frame is the requested one"); api->getFrame(7, n[2], nullptr, 0); }
    bool own[3] = { true, true, true }, maps[2] = { true, true }, f = true, frame = fr != nullptr, haveCore = true;
    auto check = [&] {
        bool fnLive = f || maps[0] || maps[1];
        bool live[3]; live[2] = own[2]; live[1] = own[1] || live[2] || maps[0] || maps[1] || fnLive; live[0] = own[0] || live[1];
        for (int i = 0; i < 3; i++) vsx_assert(d[i]->freed == (live[i] ? 0 : 1), "an instance is freed exactly when its last reference is gone");
        vsx_assert(fnFreed == (fnLive ? 0 : 1), "a function is freed exactly when its last reference is gone");
    };
    check();
    int total = 7 + (frame ? 1 : 0);
    for (int k = 0; k < total; k++) {
        bool can[8] = { own[0], own[1], own[2], maps[0], maps[1], f, haveCore, frame }; int cnt = 0; for (bool b : can) cnt += b;
        int pick = (int)vsx_choice((uint32_t)cnt, "release"), i = 0; while (!can[i] || pick--) i++;
        if (i < 3) { own[i] = false; api->freeNode(n[i]); }
        else if (i < 5) { maps[i - 3] = false; api->freeMap(i == 3 ? m : m2); }
        else if (i == 5) { f = false; VSMap *in = api->createMap(), *out = api->createMap(); api->mapSetInt(in, "x", 1, maReplace); api->callFunction(fn, in, out); vsx_assert(api->mapGetInt(out, "r", 0, nullptr) == 2, "the function is called"); api->freeMap(in); api->freeMap(out); api->freeFunction(fn); }
        else if (i == 6) { haveCore = false; api->freeCore(core); }
        else { frame = false; vsx_assert(row(fr, 0, 0)[0] == 8, "a frame stays valid until it is released"); api->freeFrame(fr); }
        check();
    }
    for (int i = 0; i < 3; i++) delete d[i];
    }
    lastError = std::string();
    vsx_assert(vsx_live_objects() == base, "everything is released in the end");
    vsx_cover("done");
}
// a long chain is torn down from one release, in order
HARNESS(h_chainfree) {
    setup(0, 1); int len = (int)vsx_param("len", 12);
    std::vector<LF *> d; std::vector<VSNode *> n;
    for (int i = 0; i < len; i++) {
        d.push_back(mkLF(i ? d[i - 1] : nullptr));
        VSFilterDependency dep = { i ? n[i - 1] : nullptr, rpStrictSpatial };
        if (i) d[i]->src = n[i - 1];
        n.push_back(api->createVideoFilter2("f", &d[i]->vi, lfGet, lfFree, fmParallel, i ? &dep : nullptr, i ? 1 : 0, d[i], core));
    }
    int keep = (int)vsx_choice((uint32_t)len, "keep"); api->addNodeRef(n[keep]);
    bool early = vsx_choice(2, "core first"); if (early) api->freeCore(core);
    api->freeNode(n[len - 1]);
    for (int i = 0; i < len; i++) vsx_assert(d[i]->freed == (i > keep), "exactly the unreferenced part of the graph is freed");
    api->freeNode(n[keep]);
    for (int i = 0; i < len; i++) vsx_assert(d[i]->freed == 1, "every instance is freed");
    if (!early) api->freeCore(core);
    vsx_cover("done");
}
// filters and functions that are refused do not leak: creation fails before or after the instance exists
HARNESS(h_leak) {
    setup(0, 1); { LF *d = mkLF(nullptr); VSNode *n = api->createVideoFilter2("f", &d->vi, lfGet, lfFree, fmParallel, nullptr, 0, d, core); for (int r = 0; r < 2; r++) { Args a; a.clip("clip", n).i("first", 1).i("last", 0); VSMap *x = call("Trim", a); vsx_assert(api->mapGetError(x) != nullptr, "refused"); api->freeMap(x); Args b; b.clip("clip", n); x = call("Reverse", b); vsx_assert(!api->mapGetError(x), "accepted"); api->freeMap(x); } api->freeNode(n); delete d; }
    api->freeCore(core);
    lastError = std::string();
    uint64_t base = vsx_live_objects();
    setup(0, 1);
    {
    LF *d = mkLF(nullptr); VSNode *n = api->createVideoFilter2("f", &d->vi, lfGet, lfFree, fmParallel, nullptr, 0, d, core);
    int which = (int)vsx_choice(10, "filter"), bad = (int)vsx_choice(2, "bad");
    static const char *names[] = { "Trim", "CropRel", "SelectEvery", "ShufflePlanes", "Levels", "Convolution", "Loop", "Interleave", "StackVertical", "Lut" };
    Args a;
    switch (which) {
    case 0: a.clip("clip", n).i("first", bad ? 5 : 1); break;
    case 1: a.clip("clip", n).i("left", bad ? 9 : 1); break;
    case 2: a.clip("clip", n).i("cycle", 2).i("offsets", bad ? 2 : 0); break;
    case 3: a.clip("clips", n).i("planes", bad ? 1 : 0).i("colorfamily", cfGray); break;
    case 4: a.clip("clip", n).i("planes", bad ? 3 : 0); break;
    case 5: a.clip("clip", n); for (int i = 0; i < (bad ? 8 : 9); i++) a.f("matrix", 1); break;
    case 6: a.clip("clip", n).i("times", bad ? -1 : 2); break;
    case 7: a.clip("clips", n); if (bad) { CSrc *o = mkCS(4, 32, 8); VSNode *on = api->createVideoFilter2("o", &o->vi, csGet, csDelete, fmParallel, nullptr, 0, o, core); a.clip("clips", on); api->freeNode(on); } else a.clip("clips", n); break;
    case 8: a.clip("clips", n); if (bad) { CSrc *o = mkCS(4, 32, 8); VSNode *on = api->createVideoFilter2("o", &o->vi, csGet, csDelete, fmParallel, nullptr, 0, o, core); a.clip("clips", on); api->freeNode(on); } else a.clip("clips", n); break;
    case 9: a.clip("clip", n); for (int i = 0; i < (bad ? 255 : 256); i++) a.i("lut", i & 255); break;
    }
    VSNode *r = callNode(names[which], a);
    vsx_assert((r != nullptr) == !bad, bad ? "bad arguments are refused" : "good arguments are accepted");
    if (r) {
        if (vsx_choice(2, "use")) { const VSFrame *f = get(r, 0); vsx_assert(f != nullptr, "a frame is delivered"); api->freeFrame(f); }
        api->freeNode(r);
    } else vsx_assert(lastError.find(which == 1 ? "Crop" : names[which]) == 0, "the message names the filter");
    vsx_assert(d->freed == 0, "the input is still referenced");
    api->freeMap(a.m); a.m = nullptr;
    api->freeNode(n); vsx_assert(d->freed == 1, "no reference to the input is left over");
    api->freeCore(core);
    delete d; 
    }
    lastError = std::string(); lastError.shrink_to_fit();
    vsx_assert(vsx_live_objects() == base, "everything is released in the end");
    vsx_cover("done");
}
// ---- C15 ----
struct LH { VSLogHandle *h; std::vector<std::pair<int, int>> got; int freed, inside, nested; };
static std::vector<LH *> handlers;
static int num(const char *p) { int v = 0; while (*p) v = v * 10 + (*p++ - 48); return v; }
static void VS_CC onLog(int type, const char *msg, void *ud) {
    LH *h = (LH *)ud;
    vsx_assert(h->freed == 0, "a removed handler is not called");
    vsx_assert(h->nested || h->inside == 0, "calls of a handler do not overlap"); h->inside++;
    vsx_yield();
    int v = msg[0] == 'm' ? num(msg + 1) : msg[0] == 'L' ? -2 : -1;
    h->got.push_back({ type, v });
    if (h->nested && v >= 0 && v < 100) { std::string m = "m" + std::to_string(v + 100); api->logMessage(mtDebug, m.c_str(), core); }
    h->inside--;
}
static void VS_CC onLogFree(void *ud) { LH *h = (LH *)ud; vsx_assert(h->freed++ == 0, "a handler is freed once"); }
static void logM(int type, int v) { std::string m = "m" + std::to_string(v); api->logMessage(type, m.c_str(), core); }
HARNESS(h_log) {
    setup(0, 1);
    int ops = (int)vsx_param("ops", 4), id = 0;
    std::vector<std::pair<int, int>> stored; std::vector<LH *> on, all; std::vector<std::vector<std::pair<int, int>>> wantv;
    for (int i = 0; i < ops; i++) {
        int op = (int)vsx_choice(5, "op");
        if (op < 2) {
            static const int types[] = { mtDebug, mtInformation, mtWarning, mtCritical };
            int ty = types[op == 0 ? vsx_choice(4, "type") : 3]; logM(ty, id);
            if (on.empty()) stored.push_back({ ty, id }); 
            for (LH *h : on) wantv[std::find(all.begin(), all.end(), h) - all.begin()].push_back({ ty, id });
            id++;
        } else if (op == 2) {
            LH *h = new LH(); all.push_back(h); on.push_back(h); wantv.push_back(stored); stored.clear();
            h->h = api->addLogHandler(onLog, onLogFree, h, core); vsx_assert(h->h != nullptr, "a handle is returned");
        } else {
            int k = op - 3; if (k >= (int)on.size()) { vsx_assume(0); return; }
            LH *h = on[k]; vsx_assert(api->removeLogHandler(h->h, core) != 0, "an installed handler can be removed"); vsx_assert(h->freed == 1, "removal frees the handler");
            vsx_assert(api->removeLogHandler(h->h, core) == 0, "a handler can be removed once"); on.erase(on.begin() + k);
        }
        for (size_t k = 0; k < all.size(); k++) vsx_assert(all[k]->got == wantv[k], "every handler gets every message once, in order, and the first one the stored ones");
    }
    api->freeCore(core);
    for (LH *h : all) vsx_assert(h->freed == 1, "freeing the core frees the handlers");
    vsx_cover("done");
}
HARNESS(h_logcap) {
    setup(0, 1);
    static const int counts[] = { 0, 1, 499, 500, 501, 520 };
    int n = counts[vsx_choice(6, "count")];
    for (int i = 0; i < n; i++) logM(mtDebug, i);
    LH *h = new LH(); h->h = api->addLogHandler(onLog, onLogFree, h, core);
    int k = n < 500 ? n : 500; bool warn = n >= 500;
    vsx_assert((int)h->got.size() == k + warn, "stored messages are delivered to the first handler");
    for (int i = 0; i < k; i++) vsx_assert(h->got[i].second == i && h->got[i].first == mtDebug, "in order");
    if (warn) vsx_assert(h->got.back().first == mtWarning && h->got.back().second == -2, "lost messages are announced");
    LH *g = new LH(); g->h = api->addLogHandler(onLog, onLogFree, g, core); vsx_assert(g->got.empty(), "stored messages are delivered once");
    api->freeCore(core);
    vsx_cover("done");
}
// logging from a handler is allowed
HARNESS(h_lognest) {
    setup(0, 1); LH *h = new LH(), *g = new LH(); h->nested = 1; g->nested = 0;
    bool two = vsx_choice(2, "two"); int pre = (int)vsx_choice(3, "stored"); for (int i = 0; i < pre; i++) logM(mtInformation, 11 + i);
    h->h = api->addLogHandler(onLog, onLogFree, h, core); if (two) { g->nested = 2; g->h = api->addLogHandler(onLog, onLogFree, g, core); }
    for (int i = 0; i < pre; i++) {
        int a = 0, b = 0; for (auto &p : h->got) { a += p.second == 11 + i; b += p.second == 111 + i; }
        vsx_assert(a == 1 && b == 1, "stored messages and messages logged while they are delivered reach the handler exactly once");
    }
    for (auto &p : g->got) vsx_assert(p.second < 0 || p.second > 200, "stored messages reach the first handler only");
    logM(mtWarning, 1);
    int own = 0, nest = 0; for (auto &p : h->got) { own += p.second == 1; nest += p.second == 101; }
    vsx_assert(own == 1 && nest == (two ? 2 : 1), "messages logged by a handler are delivered");
    api->freeCore(core); vsx_cover("done");
}
// two threads log while handlers come and go
static LH *lh[2];
static void logThread(void *p) { int i = (int)(intptr_t)p; for (int k = 0; k < (int)vsx_param("msgs", 2); k++) logM(mtWarning, i * 10 + k); }
HARNESS(h_logconc) {
    setup(0, 1); lh[0] = new LH(); lh[1] = new LH();
    int pre = (int)vsx_param("pre", 1); if (pre) lh[0]->h = api->addLogHandler(onLog, onLogFree, lh[0], core);
    vsx_explore(1);
    int t = vsx_thread_create(logThread, (void *)1);
    if (!pre) { lh[0]->h = api->addLogHandler(onLog, onLogFree, lh[0], core); }
    if (vsx_param("add", 0)) lh[1]->h = api->addLogHandler(onLog, onLogFree, lh[1], core);
    logThread((void *)2);
    if (vsx_param("rem", 0)) { api->removeLogHandler(lh[1]->h, core); vsx_assert(lh[1]->freed == 1, "removal frees the handler"); }
    vsx_thread_join(t);
    vsx_explore(0);
    int m = (int)vsx_param("msgs", 2);
    for (int i = 1; i <= 2; i++) for (int k = 0; k < m; k++) { int c = 0; for (auto &g : lh[0]->got) c += g.second == i * 10 + k; vsx_assert(c == 1, "every message reaches the handler exactly once"); }
    for (LH *h : lh) { int last[3] = { -1, -1, -1 }; for (auto &g : h->got) { int th = g.second / 10, k = g.second % 10; vsx_assert(k > last[th], "messages of one thread stay in order"); last[th] = k; } }
    api->freeCore(core);
    vsx_assert(lh[0]->freed == 1, "freeing the core frees the handlers");
    vsx_cover("done");
}
