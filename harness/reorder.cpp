// Frame number mappings of the reordering filters, for every clip length, every argument and every frame number.
#include "drive.h"
static int len(VSNode *n) { return api->getVideoInfo(n)->numFrames; }
static VSVideoFormat g8;
static const VSFrame *tag(VSNode *node, int n, void *) {
    VSFrame *f = api->newVideoFrame(&g8, 16, 16, nullptr, core); VSMap *m = api->getFramePropertiesRW(f);
    api->mapSetInt(m, "n", n, maReplace); api->mapSetInt(m, "_DurationNum", 1, maReplace); api->mapSetInt(m, "_DurationDen", 24, maReplace);
    return f;
}
struct Out { VSNode *src; int n; int64_t dn, dd; };
// which input frame output frame n shows
static Out map1(VSNode *node, int n) {
    Drive d; const VSFrame *f = d.run(node, n, tag);
    vsx_assert(f != nullptr, "frames in range are produced");
    vsx_assert(d.reqs.size() == 1, "one input frame is requested");
    vsx_assert(propI(f, "n") == d.reqs[0].n, "the requested frame is the one returned");
    return { d.reqs[0].node, d.reqs[0].n, propI(f, "_DurationNum"), propI(f, "_DurationDen") };
}
static int pattern(VSNode *node, VSNode *src) { for (size_t i = 0; i < node->getNumDependencies(); i++) if (node->getDependency((int)i)->source == src) return node->getDependency((int)i)->requestPattern; return -1; }
static VSNode *in(const char *name) { int maxLen = (int)vsx_param("maxlen", 0x7fffffff), n = vsx_any<int>(name); vsx_assume(n >= 1 && n <= maxLen); return mkInput(g8, 16, 16, n); }
static void start() { setup(0, 1); g8 = fmtOf(pfGray8); }
// two different output frames never show the same input frame unless frames may be reused
static void reuse(VSNode *node) {
    int a = frameNo(node, "a"), b = frameNo(node, "b"); vsx_assume(a < b);
    Out x = map1(node, a), y = map1(node, b);
    if (x.src == y.src && x.n == y.n) { int p = pattern(node, x.src); vsx_assert(p == rpGeneral || (p == rpFrameReuseLastOnly && x.n == len(x.src) - 1), "a frame is only requested again if that was declared"); }
}
HARNESS(h_trim) {
    start(); VSNode *c = in("len"); int N = len(c);
    bool hf = vsx_choice(2, "hasFirst"), hl = vsx_choice(2, "hasLast"), hg = vsx_choice(2, "hasLength");
    int64_t first = 0, last = 0, length = 0; Args a; a.clip("clip", c);
    if (hf) first = anyArg(a, "first", "first"); if (hl) last = anyArg(a, "last", "last"); if (hg) length = anyArg(a, "length", "length");
    VSNode *t = callNode("Trim", a);
    bool ok = first >= 0 && first < N && !(hl && hg) && (!hl || (last >= first && last < N)) && (!hg || (length >= 1 && length <= N - first));
    vsx_assert((t != nullptr) == ok, "exactly ranges inside the clip are accepted");
    if (!t) { vsx_assert(lastError.size() > 0, "a reason is given"); vsx_cover("refused"); return; }
    int want = (int)(hl ? last - first + 1 : hg ? length : N - first);
    vsx_assert(len(t) == want, "the clip has the requested length");
    if (t == c) { vsx_assert(want == N, "the clip itself is only returned if nothing is removed"); vsx_cover("same"); return; }
    int n = frameNo(t); Out o = map1(t, n);
    vsx_assert(o.src == c && o.n == n + first, "output frame n is input frame n + first");
    if (!hg) reuse(t);
    vsx_cover("mapped");
}
HARNESS(h_reverse) {
    start(); VSNode *c = in("len"); Args a; a.clip("clip", c); VSNode *t = callNode("Reverse", a);
    vsx_assert(t && len(t) == len(c), "reversing keeps the length");
    int n = frameNo(t); Out o = map1(t, n); vsx_assert(o.n == len(c) - 1 - n, "output frame n is the nth from the end");
    reuse(t); vsx_cover("mapped");
}
HARNESS(h_loop) {
    start(); static const int lens[] = { 1, 2, 3, 7, 1000, 46341 }; bool fix = vsx_param("fixlen", 0);
    VSNode *c = fix ? mkInput(g8, 16, 16, lens[vsx_choice(6, "lenidx")]) : in("len"); int N = len(c); int64_t times = 0; Args a; a.clip("clip", c);
    if (vsx_choice(2, "hasTimes")) times = anyArg(a, "times", "times");
    VSNode *t = callNode("Loop", a);
    bool ok = times >= 0 && (times == 0 || N <= 0x7fffffff / (int)times);
    vsx_assert((t != nullptr) == ok, "exactly counts that give a representable length are accepted");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == (times == 0 ? 0x7fffffff : (int)times * N), "the length is the product, or the maximum for endless looping");
    if (t == c) return;
    if (!fix && times) return;
    int n = frameNo(t); Out o = map1(t, n);
    vsx_assert(o.n == n % N, "frame numbers wrap around"); vsx_assert(o.n >= 0 && o.n < N, "input frames exist");
    vsx_cover("mapped");
}
HARNESS(h_interleave) {
    start(); int k = (int)vsx_param("clips", 2); VSNode *c[3]; Args a; int64_t mx = 0, want = 0;
    bool ext = vsx_param("extend", 0); int md = (int)vsx_choice(3, "duration");
    for (int i = 0; i < k; i++) { c[i] = in("len"); a.clip("clips", c[i]); int64_t l = len(c[i]); mx = std::max(mx, l); want = std::max(want, (l - 1) * k + i + 1); }
    if (ext) { a.i("extend", 1); want = mx * k; }
    if (md) a.i("modify_duration", md - 1);
    VSNode *t = callNode("Interleave", a);
    vsx_assert((t != nullptr) == (want <= 0x7fffffff), "exactly representable lengths are accepted");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == want, "the length follows from the clips");
    int n = frameNo(t); Out o = map1(t, n); int w = n / k; VSNode *s = c[n % k]; if (w >= len(s)) w = len(s) - 1;
    vsx_assert(o.src == s && o.n == w, "frames are taken from the clips in turn");
    const VSVideoInfo *vi = api->getVideoInfo(t);
    if (md == 1) vsx_assert(o.dn == 1 && o.dd == 24 && vi->fpsNum == 24 && vi->fpsDen == 1, "durations are kept on request");
    else vsx_assert(o.dn == 1 && o.dd == 24 * k && vi->fpsNum == 24 * k && vi->fpsDen == 1, "durations shrink so that the total stays");
    if (md == 1) reuse(t);
    vsx_cover("mapped");
}
HARNESS(h_select) {
    start(); VSNode *c = in("len"); int N = len(c), k = (int)vsx_param("num", 2); Args a; a.clip("clip", c);
    int cyc = (int)vsx_param("cycle", 2), md = (int)vsx_choice(3, "duration"); a.i("cycle", cyc); int64_t off[4]; bool ok = true, dup = false;
    for (int i = 0; i < k; i++) { off[i] = anyArg(a, "offsets", "offset"); ok = ok && off[i] >= 0 && off[i] < cyc; }
    if (md) a.i("modify_duration", md - 1);
    VSNode *t = callNode("SelectEvery", a);
    if (!ok) { vsx_assert(t == nullptr, "offsets outside the cycle are refused"); vsx_cover("refused"); return; }
    int64_t want = (int64_t)(N / cyc) * k; for (int i = 0; i < k; i++) want += off[i] < N % cyc;
    ok = want > 0 && want <= 0x7fffffff;
    vsx_assert((t != nullptr) == ok, "exactly non-empty representable results are accepted");
    if (!t) return;
    vsx_assert(len(t) == want, "the length counts the selected frames");
    int n = frameNo(t); Out o = map1(t, n); int base = n / k * cyc, j = n % k, w = -1;
    for (int i = 0; i < k; i++) if (base + off[i] < N && base <= 0x7fffffff) { if (j == 0) { w = base + (int)off[i]; break; } j--; }
    vsx_assert(o.n == w, "output frames are the selected frames of each cycle in the order of the offsets");
    const VSVideoInfo *vi = api->getVideoInfo(t);
    int64_t num = 24 * k, den = cyc; vsh::reduceRational(&num, &den); int64_t dn = cyc, dd = 24 * k; vsh::reduceRational(&dn, &dd);
    if (md == 1) vsx_assert(o.dn == 1 && o.dd == 24 && vi->fpsNum == 24 && vi->fpsDen == 1, "durations are kept on request");
    else vsx_assert(o.dn == dn && o.dd == dd && vi->fpsNum == num && vi->fpsDen == den, "durations stretch so that the total stays");
    if (md == 1) reuse(t);
    vsx_cover("mapped");
}
HARNESS(h_selcycle) {
    start(); int N = 1 + (int)vsx_choice(8, "len"); VSNode *c = mkInput(g8, 16, 16, N); Args a; a.clip("clip", c); int64_t cyc = anyArg(a, "cycle", "cycle"); a.i("offsets", 0).i("modify_duration", 0);
    VSNode *t = callNode("SelectEvery", a);
    vsx_assert((t != nullptr) == (cyc > 1), "cycles have at least two frames");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == (N - 1) / cyc + 1, "the length counts the selected frames");
    int n = frameNo(t); n = (int)vsx_concretize((uint64_t)n); Out o = map1(t, n); vsx_assert(o.n == n * cyc, "the first frame of each cycle");
    vsx_cover("mapped");
}
HARNESS(h_splice) {
    start(); int k = 2 + (int)vsx_choice(2, "clips"); VSNode *c[3]; Args a; int64_t tot = 0;
    for (int i = 0; i < k; i++) { c[i] = in("len"); a.clip("clips", c[i]); tot += len(c[i]); }
    VSNode *t = callNode("Splice", a);
    vsx_assert((t != nullptr) == (tot <= 0x7fffffff), "exactly representable lengths are accepted");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == tot, "the lengths add up");
    int n = frameNo(t); Out o = map1(t, n); int j = 0, r = n; while (j < k - 1 && r >= len(c[j])) r -= len(c[j++]);
    vsx_assert(o.src == c[j] && o.n == r, "clips follow one another");
    if (k == 2) reuse(t);
    vsx_cover("mapped");
}
HARNESS(h_dup) {
    start(); VSNode *c = in("len"); int N = len(c), k = 1 + (int)vsx_choice(vsx_param("num", 2), "count"); Args a; a.clip("clip", c); int64_t d[4]; bool ok = true;
    for (int i = 0; i < k; i++) { d[i] = anyArg(a, "frames", "frame"); ok = ok && d[i] >= 0 && d[i] < N; }
    VSNode *t = callNode("DuplicateFrames", a); ok = ok && (int64_t)N + k <= 0x7fffffff;
    vsx_assert((t != nullptr) == ok, "exactly existing frames can be duplicated");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == N + k, "each duplicate adds a frame");
    int n = frameNo(t); Out o = map1(t, n); int64_t before = 0, upto = 0; for (int i = 0; i < k; i++) { before += d[i] < o.n; upto += d[i] <= o.n; }
    vsx_assert(n >= o.n + before && n <= o.n + upto, "duplicates directly follow their frame");
    vsx_cover("mapped");
}
HARNESS(h_del) {
    start(); VSNode *c = in("len"); int N = len(c), k = 1 + (int)vsx_choice(vsx_param("num", 2), "count"); Args a; a.clip("clip", c); int64_t d[4]; bool ok = k < N;
    for (int i = 0; i < k; i++) { d[i] = anyArg(a, "frames", "frame"); ok = ok && d[i] >= 0 && d[i] < N; for (int j = 0; j < i; j++) ok = ok && d[i] != d[j]; }
    VSNode *t = callNode("DeleteFrames", a);
    vsx_assert((t != nullptr) == ok, "exactly distinct existing frames can be deleted, but not all");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == N - k, "each deletion removes a frame");
    int n = frameNo(t); Out o = map1(t, n); int64_t before = 0; for (int i = 0; i < k; i++) { before += d[i] < o.n; vsx_assert(d[i] != o.n, "deleted frames do not appear"); }
    vsx_assert(n + before == o.n, "the other frames keep their order");
    vsx_cover("mapped");
}
HARNESS(h_freeze) {
    start(); VSNode *c = in("len"); int N = len(c), k = 1 + (int)vsx_choice(vsx_param("num", 2), "count"); Args a; a.clip("clip", c); int64_t f[3], l[3], r[3]; bool ok = true;
    for (int i = 0; i < k; i++) {
        f[i] = anyArg(a, "first", "first"); l[i] = anyArg(a, "last", "last"); r[i] = anyArg(a, "replacement", "replacement");
        if (f[i] > l[i]) { int64_t x = f[i]; f[i] = l[i]; l[i] = x; }
        ok = ok && f[i] >= 0 && l[i] < N && r[i] >= 0 && r[i] < N;
        for (int j = 0; j < i; j++) ok = ok && (f[i] > l[j] || f[j] > l[i]);
    }
    VSNode *t = callNode("FreezeFrames", a);
    vsx_assert((t != nullptr) == ok, "exactly disjoint ranges of existing frames can be frozen");
    if (!t) { vsx_cover("refused"); return; }
    vsx_assert(len(t) == N, "freezing keeps the length");
    int n = frameNo(t); Out o = map1(t, n); int64_t w = n; for (int i = 0; i < k; i++) if (n >= f[i] && n <= l[i]) w = r[i];
    vsx_assert(o.n == w, "frames in a range are replaced, others stay");
    vsx_cover("mapped");
}
