// Frame delivery under every bounded schedule.
#include "flt.h"
#include <mutex>
#include <condition_variable>
// a counting source: every frame carries its number
struct Node { VSVideoInfo vi; VSNode *src, *src2; int mode, reqs, failAt, id, dup, early, srcId, srcId2; int64_t adv; int active, activeReady, openFrame, badOrder; int initial[8], ready[8], err[8]; bool serial; };
static void VS_CC nodeFree(void *, VSCore *, const VSAPI *) {}
static const VSFrame *mk(int n, int id, VSCore *c, const VSAPI *a, const VSVideoInfo &vi) {
    VSFrame *f = a->newVideoFrame(&vi.format, vi.width, vi.height, nullptr, c);
    VSMap *m = a->getFramePropertiesRW(f); a->mapSetInt(m, "n", n, maReplace); a->mapSetInt(m, "id", id, maReplace);
    return f;
}
static const VSFrame *VS_CC sGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *c, const VSAPI *a) {
    Node *d = (Node *)inst;
    d->active++;
    if (d->serial) vsx_assert(d->active == 1, "calls into a serialised filter do not overlap");
    if (reason == arInitial) d->initial[n & 7]++;
    vsx_yield();
    if (d->adv) vsx_advance(d->adv);
    d->active--;
    if (reason == arError && (n < 0 || n >= d->vi.numFrames)) return nullptr;
    if (reason != arInitial) { vsx_fail("a source is only activated to produce a frame"); return nullptr; }
    if (n == d->failAt) { a->setFilterError("bang", ctx); return nullptr; }
    return mk(n, d->id, c, a, d->vi);
}
static int sameFrame; // two external requests for one frame may each start it
// requests frames n .. n + reqs - 1 of its input and checks that exactly those arrive
static const VSFrame *VS_CC fGet(int n, int reason, void *inst, void **fd, VSFrameContext *ctx, VSCore *c, const VSAPI *a) {
    Node *d = (Node *)inst; int len = d->vi.numFrames;
    d->active++; if (reason != arInitial) d->activeReady++;
    if (d->mode == fmUnordered || d->mode == fmFrameState) vsx_assert(d->active == 1, "calls into a serialised filter do not overlap");
    if (d->mode == fmParallelRequests) vsx_assert(d->activeReady <= 1, "frame production of a filter with parallel requests does not overlap");
    if (d->mode == fmFrameState) { vsx_assert(reason == arInitial ? d->openFrame == -1 : d->openFrame == n, "a frame state filter finishes one frame before it starts another"); d->openFrame = n; }
    vsx_yield();
    const VSFrame *res = nullptr;
    if (reason == arInitial) {
        bool again = d->initial[n & 7]++ != d->ready[n & 7] + d->err[n & 7];
        if (!sameFrame) vsx_assert(!again, "a frame is started once");
        vsx_assert(*fd == nullptr, "per frame data starts empty"); *fd = (void *)(intptr_t)(n + 100);
        for (int i = 0; i < d->reqs; i++) a->requestFrameFilter(n + i < len ? n + i : len - 1, d->src, ctx);
        if (d->dup) a->requestFrameFilter(n, d->src, ctx);
        if (d->src2) a->requestFrameFilter(n, d->src2, ctx);
    } else if (reason == arAllFramesReady) {
        d->ready[n & 7]++;
        vsx_assert(sameFrame ? d->initial[n & 7] >= d->ready[n & 7] + d->err[n & 7] : d->initial[n & 7] == d->ready[n & 7] + d->err[n & 7], "production follows the request");
        vsx_assert((intptr_t)*fd == n + 100, "per frame data belongs to the frame");
        for (int i = 0; i < d->reqs; i++) {
            int want = n + i < len ? n + i : len - 1;
            const VSFrame *f = a->getFrameFilter(want, d->src, ctx);
            vsx_assert(f != nullptr, "a requested frame is available");
            vsx_assert(propI(f, "n") == want && propI(f, "id") == d->srcId, "the requested frame is the one delivered");
            a->freeFrame(f);
            if (d->early) { a->releaseFrameEarly(d->src, want, ctx); if (!d->dup && i + 1 == d->reqs) vsx_assert(a->getFrameFilter(want, d->src, ctx) == nullptr, "a frame that was released early is gone"); }
        }
        if (d->src2) {
            const VSFrame *f = a->getFrameFilter(n, d->src2, ctx);
            vsx_assert(f != nullptr, "a requested frame is available");
            vsx_assert(propI(f, "n") == n && propI(f, "id") == d->srcId2, "the requested frame is the one delivered");
            a->freeFrame(f);
        }
        if (n == d->failAt) a->setFilterError("boom", ctx); else res = mk(n, d->id, c, a, d->vi);
        d->openFrame = -1;
    } else {
        vsx_assert(reason == arError, "known activation reason");
        d->err[n & 7]++; d->openFrame = -1;
        vsx_assert((intptr_t)*fd == n + 100, "per frame data belongs to the frame");
    }
    if (reason != arInitial) d->activeReady--;
    d->active--;
    return res;
}
static Node *mkNode(int id, int mode, int len, Node *) { Node *d = new Node; memset(d, 0, sizeof *d); d->id = id; d->mode = mode; d->openFrame = -1; d->failAt = -1; d->vi.format = fmtOf(pfGray8); d->vi.width = d->vi.height = 8; d->vi.numFrames = len; d->vi.fpsNum = 1; d->vi.fpsDen = 1; return d; }
static int inCallback; static std::mutex dm; static std::condition_variable dc;
struct Got { int calls, n, ok; int64_t propN, propId; char msg[32]; VSNode *node; } got[8]; static int gotCount;
static void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) {
    Got *g = (Got *)ud;
    vsx_assert(inCallback++ == 0, "completion callbacks do not overlap");
    vsx_yield();
    std::lock_guard<std::mutex> l(dm);
    g->calls++; g->n = n; g->ok = f != nullptr; g->node = node;
    vsx_assert((f != nullptr) != (err != nullptr), "a frame or an error, never both or neither");
    if (f) { g->propN = propI(f, "n"); g->propId = propI(f, "id"); api->freeFrame(f); }
    if (err) { size_t k = err[0] == 'I' ? 20 : strlen(err); if (k > 31) k = 31; memcpy(g->msg, err, k); g->msg[k] = 0; }
    inCallback--;
    gotCount++; dc.notify_all();
}
static VSNode *addNode(Node *d, VSNode *src, const char *name, VSFilterGetFrame get, int mode) {
    VSFilterDependency dep[2] = { { src, d->reqs > 1 ? rpGeneral : rpStrictSpatial }, { d->src2, rpStrictSpatial } };
    d->src = src; d->mode = mode; if (src && !d->srcId) d->srcId = 1;
    return api->createVideoFilter2(name, &d->vi, get, nodeFree, mode, src ? dep : nullptr, src ? (d->src2 ? 2 : 1) : 0, d, core);
}
static const int modes[] = { fmParallel, fmParallelRequests, fmUnordered, fmFrameState };
static void waitAll(int want) { std::unique_lock<std::mutex> l(dm); while (gotCount < want) dc.wait(l); }
// a two node graph, several frames requested at once from several worker threads
HARNESS(h_graph) {
    int threads = (int)vsx_param("threads", 2), frames = (int)vsx_param("frames", 2);
    setup(0, threads);
    int smode = modes[vsx_param("smode", 0)], fmode = modes[vsx_param("fmode", 0)], reqs = (int)vsx_param("reqs", 1), fail = (int)vsx_param("fail", 0);
    Node *s = mkNode(1, smode, 4, nullptr), *f = mkNode(2, fmode, 4, nullptr);
    s->serial = smode != fmParallel && smode != fmParallelRequests; f->reqs = reqs; f->dup = (int)vsx_param("dup", 0); f->early = (int)vsx_param("early", 0); s->adv = vsx_param("adv", 0);
    if (vsx_param("limit", 0)) api->setMaxCacheSize(vsx_param("limit", 0), core);
    if (fail == 1) s->failAt = 1; if (fail == 2) f->failAt = 1;
    VSNode *sn = addNode(s, nullptr, "source", sGet, smode), *fnode = addNode(f, sn, "filter", fGet, fmode);
    if (vsx_param("nocache", 1)) { api->setCacheMode(sn, cmForceDisable); api->setCacheMode(fnode, cmForceDisable); }
    else { api->setCacheMode(sn, cmForceEnable); api->setCacheMode(fnode, cmForceEnable); }
    int same = sameFrame = (int)vsx_param("same", 0);
    vsx_explore(1);
    for (int i = 0; i < frames; i++) api->getFrameAsync(same ? 1 : i, fnode, done, &got[i]);
    if (vsx_param("resize", 0)) api->setThreadCount((int)vsx_param("resize", 0), core);
    waitAll(frames);
    vsx_explore(0);
    for (int i = 0; i < frames; i++) {
        int n = same ? 1 : i;
        vsx_assert(got[i].calls == 1, "every request is answered exactly once");
        vsx_assert(got[i].n == n && got[i].node == fnode, "the answer names the request");
        bool bad = fail == 1 ? (n <= 1 && n + reqs > 1) : fail == 2 ? n == 1 : false;
        vsx_assert(got[i].ok == !bad, "exactly the failing frames are answered with an error");
        if (got[i].ok) vsx_assert(got[i].propN == n && got[i].propId == 2, "the answer is the requested frame");
        else vsx_assert(!strcmp(got[i].msg, fail == 1 ? "bang" : "boom"), "the error message of the failing filter is delivered");
    }
    api->getFrameAsync(3, fnode, done, &got[7]); waitAll(frames + 1); // the graph keeps working
    vsx_assert(got[7].calls == 1 && got[7].n == 3 && got[7].ok && got[7].propN == 3 && got[7].propId == 2, "a request after the others is answered with its frame");
    for (int n = 0; n < 4; n++) vsx_assert(f->initial[n] == f->ready[n] + f->err[n], "every started frame is finished");
    api->freeNode(fnode); api->freeNode(sn);
    if (vsx_param("end", 1)) api->freeCore(core);
    vsx_cover("done");
}

// a source feeding two filters that a third one joins
HARNESS(h_diamond) {
    setup(0, (int)vsx_param("threads", 2));
    int smode = modes[vsx_param("smode", 0)], fmode = modes[vsx_param("fmode", 0)], fail = (int)vsx_param("fail", 0), frames = (int)vsx_param("frames", 1);
    Node *s = mkNode(1, smode, 4, nullptr), *a = mkNode(2, fmParallel, 4, nullptr), *b = mkNode(3, fmParallel, 4, nullptr), *c = mkNode(4, fmode, 4, nullptr);
    s->serial = smode != fmParallel && smode != fmParallelRequests; a->reqs = b->reqs = c->reqs = 1;
    if (fail == 1) s->failAt = 0; if (fail == 2) a->failAt = 0; if (fail == 3) a->failAt = b->failAt = 0; if (fail == 4) c->failAt = 0;
    VSNode *sn = addNode(s, nullptr, "source", sGet, smode), *an = addNode(a, sn, "a", fGet, fmParallel), *bn = addNode(b, sn, "b", fGet, fmParallel);
    c->src2 = bn; c->srcId = 2; c->srcId2 = 3; VSNode *cn = addNode(c, an, "c", fGet, fmode);
    int mode = vsx_param("nocache", 1) ? cmForceDisable : cmAuto; api->setCacheMode(sn, mode); api->setCacheMode(an, mode); api->setCacheMode(bn, mode); api->setCacheMode(cn, mode);
    vsx_explore(1);
    for (int i = 0; i < frames; i++) api->getFrameAsync(i, cn, done, &got[i]);
    waitAll(frames);
    vsx_explore(0);
    for (int i = 0; i < frames; i++) {
        vsx_assert(got[i].calls == 1, "every request is answered exactly once");
        vsx_assert(got[i].n == i && got[i].node == cn, "the answer names the request");
        bool bad = fail && i == 0;
        vsx_assert(got[i].ok == !bad, "exactly the failing frames are answered with an error");
        if (got[i].ok) vsx_assert(got[i].propN == i && got[i].propId == 4, "the answer is the requested frame");
        else vsx_assert(!strcmp(got[i].msg, fail == 1 ? "bang" : "boom"), "the error message of the failing filter is delivered");
    }
    api->getFrameAsync(3, cn, done, &got[7]); waitAll(frames + 1); // the graph keeps working
    vsx_assert(got[7].calls == 1 && got[7].n == 3 && got[7].ok && got[7].propN == 3 && got[7].propId == 4, "a request after the others is answered with its frame");
    for (Node *x : { a, b, c }) for (int n = 0; n < 4; n++) vsx_assert(x->initial[n] == x->ready[n] + x->err[n], "every started frame is finished");
    api->freeNode(cn); api->freeNode(bn); api->freeNode(an); api->freeNode(sn); api->freeCore(core);
    vsx_cover("done");
}
// blocking requests from two application threads; everything is released as soon as the calls return
static VSNode *syncNode; static int syncFail, syncErr[2];
static void syncThread(void *p) {
    int i = (int)(intptr_t)p; char msg[8]; memset(msg, 'x', sizeof msg);
    int n = vsx_param("same", 0) ? 1 : i;
    const VSFrame *f = api->getFrame(n, syncNode, msg, (int)vsx_param("buf", 8));
    bool bad = syncFail && n == 1;
    vsx_assert((f != nullptr) == !bad, "exactly the failing frames are answered with an error");
    if (f) { vsx_assert(propI(f, "n") == n && propI(f, "id") == 2, "the answer is the requested frame"); api->freeFrame(f); vsx_assert(msg[0] == 0, "no message without an error"); }
    else vsx_assert(!strcmp(msg, vsx_param("buf", 8) == 3 ? "bo" : "boom"), "the error message is delivered, cut to the buffer");
}
HARNESS(h_sync) {
    setup(0, (int)vsx_param("threads", 1));
    int fmode = modes[vsx_param("fmode", 0)]; syncFail = (int)vsx_param("fail", 0); sameFrame = (int)vsx_param("same", 0);
    Node *s = mkNode(1, fmParallel, 4, nullptr), *f = mkNode(2, fmode, 4, nullptr); f->reqs = 1; if (syncFail) f->failAt = 1;
    VSNode *sn = addNode(s, nullptr, "source", sGet, fmParallel); syncNode = addNode(f, sn, "filter", fGet, fmode);
    vsx_explore(1);
    int second = (int)vsx_param("second", 1), t = 0;
    if (second) t = vsx_thread_create(syncThread, (void *)1);
    syncThread((void *)0);
    if (second) vsx_thread_join(t);
    api->freeNode(syncNode); api->freeNode(sn); api->freeCore(core);
    vsx_explore(0);
    vsx_cover("done");
}
// the completion callback asks for the next frame
static VSNode *chainNode; static int chainLen, chainAt;
static void VS_CC chainDone(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) {
    vsx_assert(f && !err && n == chainAt && node == chainNode && propI(f, "n") == n, "the answer is the requested frame");
    api->freeFrame(f);
    if (++chainAt < chainLen) api->getFrameAsync(chainAt, node, chainDone, ud);
    else { std::lock_guard<std::mutex> l(dm); gotCount = 1; dc.notify_all(); }
}
HARNESS(h_chain) {
    setup(0, (int)vsx_param("threads", 2));
    Node *s = mkNode(1, fmParallel, 4, nullptr), *f = mkNode(2, modes[vsx_param("fmode", 0)], 4, nullptr); f->reqs = 1;
    VSNode *sn = addNode(s, nullptr, "source", sGet, fmParallel); chainNode = addNode(f, sn, "filter", fGet, f->mode); chainLen = (int)vsx_param("len", 2);
    vsx_explore(1);
    api->getFrameAsync(0, chainNode, chainDone, nullptr);
    waitAll(1);
    api->freeNode(chainNode); api->freeNode(sn); api->freeCore(core);
    vsx_explore(0);
    vsx_cover("done");
}
// any frame number: out of range requests are answered with an error and never reach the filter
HARNESS(h_range) {
    setup(0, 1);
    Node *s = mkNode(1, fmParallel, 4, nullptr); VSNode *sn = addNode(s, nullptr, "source", sGet, fmParallel);
    int n = vsx_any<int>("n"); bool sync = vsx_choice(2, "sync"), ok = n >= 0 && n < 4;
    if (sync) {
        char m[64]; memset(m, 'x', sizeof m);
        if (ok) n = (int)vsx_concretize((uint64_t)n);
        const VSFrame *f = api->getFrame(n, sn, m, 64);
        vsx_assert((f != nullptr) == ok, "exactly existing frames are delivered");
        if (f) { vsx_assert(propI(f, "n") == n, "the answer is the requested frame"); api->freeFrame(f); } else vsx_assert(!memcmp(m, "Invalid frame number", 20), "the error names the problem");
    } else {
        if (ok) n = (int)vsx_concretize((uint64_t)n);
        api->getFrameAsync(n, sn, done, &got[0]); waitAll(1);
        vsx_assert(got[0].calls == 1 && got[0].n == n, "every request is answered exactly once");
        vsx_assert(got[0].ok == ok, "exactly existing frames are delivered");
        if (!ok) vsx_assert(!memcmp(got[0].msg, "Invalid frame number", 20), "the error names the problem");
        if (ok) vsx_assert(got[0].propN == n, "the answer is the requested frame");
    }
    int tot = 0; for (int i = 0; i < 8; i++) tot += s->initial[i];
    vsx_assert(tot == (ok ? 1 : 0), "a request out of range never starts production");
    if (ok) vsx_cover("ok"); else vsx_cover("refused");
}
// cache controls and graph changes from the application while frames are being produced
HARNESS(h_cachectl) {
    setup(0, (int)vsx_param("threads", 2)); int op = (int)vsx_param("op", 0), frames = (int)vsx_param("frames", 2);
    Node *s = mkNode(1, fmParallel, 4, nullptr), *f = mkNode(2, fmParallel, 4, nullptr), *g = mkNode(3, fmParallel, 4, nullptr); f->reqs = 2; g->reqs = 1; s->adv = vsx_param("adv", 0);
    if (vsx_param("limit", 0)) api->setMaxCacheSize(vsx_param("limit", 0), core);
    VSNode *sn = addNode(s, nullptr, "source", sGet, fmParallel), *fnode = addNode(f, sn, "filter", fGet, fmParallel), *gn = nullptr;
    if (op == 6) gn = addNode(g, sn, "other", fGet, fmParallel);
    vsx_explore(1);
    for (int i = 0; i < frames; i++) api->getFrameAsync(i, fnode, done, &got[i]);
    if (op == 1) api->clearNodeCache(sn);
    else if (op == 2) api->clearCoreCaches(core);
    else if (op == 3) { api->setCacheMode(sn, cmForceDisable); api->setCacheMode(sn, cmForceEnable); }
    else if (op == 4) { api->setCacheOptions(sn, 1, 1, 0); api->setCacheOptions(sn, 1, 0, 0); }
    else if (op == 5) { gn = addNode(g, sn, "other", fGet, fmParallel); }
    else if (op == 6) { api->freeNode(gn); gn = nullptr; }
    else if (op == 7) { api->setMaxCacheSize(1, core); }
    waitAll(frames);
    vsx_explore(0);
    for (int i = 0; i < frames; i++) { vsx_assert(got[i].calls == 1 && got[i].n == i, "every request is answered exactly once"); vsx_assert(got[i].ok && got[i].propN == i && got[i].propId == 2, "the answer is the requested frame"); }
    api->freeNode(gn); api->freeNode(fnode); api->freeNode(sn);
    VSCoreInfo2 ci; api->getCoreInfo2(core, &ci); bool none = ci.usedFramebufferSize == 0;
    api->freeCore(core);
    (void)none;
    vsx_cover("done");
}
