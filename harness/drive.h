// Calls a filter's frame function directly, the way the scheduler does, with an arbitrary (symbolic) frame number.
#pragma once
#include "flt.h"
#include <map>
#include <set>
#include <list>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
#include <filesystem>
#include <random>
#include <chrono>
#include <algorithm>
#include <cassert>
#define private public
#include "vscore.h"
#undef private
// an input that only exists as a description; its frames are made on demand by the driver
static inline VSNode *mkInput(const VSVideoFormat &vf, int w, int h, int len, int64_t fpsNum = 24, int64_t fpsDen = 1) {
    Src *s = new Src; memset(&s->vi, 0, sizeof s->vi);
    s->vi.format = vf; s->vi.width = w; s->vi.height = h; s->vi.numFrames = len; s->vi.fpsNum = fpsNum; s->vi.fpsDen = fpsDen;
    s->node = api->createVideoFilter2("input", &s->vi, srcGet, srcFree, fmParallel, nullptr, 0, s, core);
    return s->node;
}
static inline VSNode *mkAudioInput(const VSAudioFormat &af, int rate, int64_t samples) {
    VSAudioInfo ai; memset(&ai, 0, sizeof ai); ai.format = af; ai.sampleRate = rate; ai.numSamples = samples;
    return api->createAudioFilter2("input", &ai, srcGet, srcFree, fmParallel, nullptr, 0, new Src, core);
}
struct Req { VSNode *node; int n; const VSFrame *f; };
typedef const VSFrame *(*MakeFrame)(VSNode *node, int n, void *ud);
struct Drive {
    std::vector<Req> reqs; std::string error; const VSFrame *res = nullptr; int rounds = 0; bool undeclared = false; // undeclared: clips chosen by a script may be asked
    ~Drive() { for (auto &r : reqs) api->freeFrame(r.f); api->freeFrame(res); }
    const VSFrame *run(VSNode *node, int n, MakeFrame mf, void *ud = nullptr) {
        VSFrameContext *ctx = new VSFrameContext(n, node, nullptr, nullptr, true, false);
        const VSAPI *a = &vs_internal_vsapi;
        res = node->filterGetFrame(n, arInitial, node->instanceData, ctx->frameContext, ctx, core, a);
        while (!res && !ctx->hasError() && ctx->reqList.size()) {
            vsx_assert(++rounds < 8, "production ends");
            size_t first = reqs.size();
            for (size_t i = 0; i < ctx->reqList.size(); i++) {
                VSNode *in = ctx->reqList[i].first; int k = ctx->reqList[i].second; const VSFrame *known = nullptr; bool dep = false;
                int len = in->getNodeType() == mtVideo ? in->getVideoInfo().numFrames : in->getAudioInfo().numFrames;
                vsx_assert(k >= 0 && k < len, "only existing frames are requested");
                for (size_t j = 0; j < node->getNumDependencies(); j++) if (node->getDependency((int)j)->source == in) { dep = true; if (node->getDependency((int)j)->requestPattern == rpStrictSpatial) vsx_assert(k == (n < len ? n : len - 1), "a strictly spatial filter requests the frame of its own number"); }
                vsx_assert(dep || undeclared, "requested nodes are declared dependencies");
                for (auto &r : reqs) if (r.node == in && r.n == k) known = r.f; // a frame is the same each time it is asked for
                reqs.push_back({ in, k, known ? api->addFrameRef(known) : mf(in, k, ud) });
            }
            ctx->reqList.clear();
            for (size_t i = first; i < reqs.size(); i++) { PVSFrame p(const_cast<VSFrame *>(reqs[i].f), true); ctx->availableFrames.push_back({ NodeOutputKey(reqs[i].node, reqs[i].n), p }); }
            res = node->filterGetFrame(n, arAllFramesReady, node->instanceData, ctx->frameContext, ctx, core, a);
        }
        if (ctx->hasError()) error = ctx->getErrorMessage();
        vsx_assert((res != nullptr) != ctx->hasError(), "a frame or an error");
        ctx->release();
        return res;
    }
};
// the formats the filter harnesses are run with
static inline VSVideoFormat fmtNo(int i) {
    static const uint32_t ids[] = { pfGray8, pfYUV420P8, pfYUV422P16, pfRGBS, pfYUV444P10, pfGrayH, pfGray32, pfGrayS, pfYUV410P8, pfGray16, pfGray12, pfRGB24, pfYUV444PS, pfYUV440P8, pfYUV420P10, pfRGBH, pfYUV444P8, pfYUV444P16 };
    return fmtOf(ids[i]);
}
static inline VSVideoFormat fmtParam(const char *name = "fmt", int def = 0) { return fmtNo((int)vsx_param(name, def)); }
// cpu=0..3: none, sse2, avx2, avx512
static inline void startF() {
    setup(0, 1);
    static const char *const lv[] = { "none", "sse2", "avx2", "avx512" }; Args a; a.s("cpu", lv[vsx_param("cpu", 0)]); api->freeMap(call("SetMaxCPU", a));
}
// a frame of the input with arbitrary contents; every frame of a run has contents of its own
static inline const VSFrame *anyFrame(VSNode *node, int n, void *) {
    const VSVideoInfo *vi = api->getVideoInfo(node); VSFrame *f = api->newVideoFrame(&vi->format, vi->width, vi->height, nullptr, core);
    fillAny(f, "pixel"); assumeDepth(f); api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace);
    return f;
}
static inline int frameNo(VSNode *node, const char *name = "n") { int n = vsx_any<int>(name); vsx_assume(n >= 0 && n < api->getVideoInfo(node)->numFrames); return n; }
static inline int64_t sat(int64_t v) { return v > 0x7fffffff ? 0x7fffffff : v < -0x7fffffffLL - 1 ? -0x7fffffffLL - 1 : v; }
static inline int64_t anyArg(Args &a, const char *key, const char *name) { int64_t v = vsx_any<int64_t>(name); a.i(key, v); return sat(v); }
// drives a chain of filters: the frames of every filter node on the way are produced the same way, those of inputs are made once each
struct Tree {
    std::map<std::pair<VSNode *, int>, const VSFrame *> in; MakeFrame mf; void *ud; std::string error; int depth = 0;
    explicit Tree(MakeFrame mf, void *ud = nullptr) : mf(mf), ud(ud) {}
    ~Tree() { for (auto &i : in) api->freeFrame(i.second); }
    static const VSFrame *make(VSNode *node, int n, void *t) { return ((Tree *)t)->get(node, n); }
    const VSFrame *get(VSNode *node, int n) {
        if (node->filterGetFrame != srcGet) { Drive d; const VSFrame *g = d.run(node, n, make, this); if (!g) error = d.error; return g ? api->addFrameRef(g) : nullptr; }
        auto i = in.find({ node, n }); if (i == in.end()) i = in.insert({ { node, n }, mf(node, n, ud) }).first; return api->addFrameRef(i->second);
    }
    const VSFrame *source() { vsx_assert(in.size() == 1, "one frame of the source"); return in.begin()->second; }
};
