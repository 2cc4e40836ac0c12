// The audio filters, compiled for audio frames of a few samples (VS_AUDIO_FRAME_SAMPLES), so that whole frames of arbitrary clips can be compared
#include "pix.h"
static const int64_t FS = VS_AUDIO_FRAME_SAMPLES, MAXS = 2147483647ll * FS;
static VSAudioFormat afmt(int st, int bits, uint64_t layout) { VSAudioFormat f; memset(&f, 0, sizeof f); vsx_assert(api->queryAudioFormat(&f, st, bits, layout, core) != 0, "an audio format"); return f; }
static VSAudioFormat afParam(uint64_t layout) { int k = param("af", 0); return afmt(k == 2 ? stFloat : stInteger, k == 0 ? 16 : k == 1 ? 24 : 32, layout); }
static const VSAudioInfo *ai(VSNode *n) { return api->getAudioInfo(n); }
static std::vector<VSNode *> clips; // the number of a clip is part of its samples
static int idOf(VSNode *n) { for (size_t i = 0; i < clips.size(); i++) if (clips[i] == n) return (int)i; return -1; }
static VSNode *clip(const VSAudioFormat &f, int64_t samples, int rate = 48000) { VSNode *n = mkAudioInput(f, rate, samples); vsx_assert(n != nullptr, "an input"); clips.push_back(n); return n; }
static int32_t val(int id, int ch, int64_t idx) { return (int32_t)(uint32_t)(idx * 64 + ch * 8 + id); }
static int lenOf(VSNode *node, int n) { return (int)std::min<int64_t>(FS, ai(node)->numSamples - n * FS); }
static const VSFrame *sounds(VSNode *node, int n, void *) {
    const VSAudioInfo *a = ai(node); int l = lenOf(node, n); VSFrame *f = api->newAudioFrame(&a->format, l, nullptr, core);
    for (int c = 0; c < a->format.numChannels; c++) for (int i = 0; i < FS; i++) { int32_t v = i < l ? val(idOf(node), c, n * FS + i) : 0x55555555; if (a->format.bytesPerSample == 2) ((int16_t *)api->getWritePtr(f, c))[i] = (int16_t)v; else ((int32_t *)api->getWritePtr(f, c))[i] = v; }
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
static int32_t smp(const VSFrame *f, int c, int i) { return api->getAudioFrameFormat(f)->bytesPerSample == 2 ? ((const int16_t *)api->getReadPtr(f, c))[i] : ((const int32_t *)api->getReadPtr(f, c))[i]; }
static int32_t cut(const VSFrame *f, int32_t v) { return api->getAudioFrameFormat(f)->bytesPerSample == 2 ? (int16_t)v : v; }
static int64_t fork(int64_t v, int64_t lo, int64_t hi) { for (int64_t k = lo; k < hi; k++) if (vsx_concretize(v == k)) return k; return hi; } // one path per value
static bool sameSample(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static bool sameAF(const VSAudioFormat &a, const VSAudioFormat &b) { return a.sampleType == b.sampleType && a.bitsPerSample == b.bitsPerSample && a.bytesPerSample == b.bytesPerSample && a.numChannels == b.numChannels && a.channelLayout == b.channelLayout; }
// the frame exists, has the promised length and format
static void shape(VSNode *r, int n, const VSFrame *g) { vsx_assert(g != nullptr, "produced"); vsx_assert(sameAF(*api->getAudioFrameFormat(g), ai(r)->format), "the promised format"); vsx_assert(api->getFrameLength(g) == lenOf(r, n), "the promised length"); }
static int anyN(VSNode *r, const char *name = "n") { int n = vsx_any<int>(name); vsx_assume(n >= 0 && n < ai(r)->numFrames); return n; }
// 0..: absent, arbitrary multiple of a frame plus r, anything
static int64_t aligned(const char *name, int64_t &off) { static const int rs[] = { 0, 1, 3, 7 }; int r = param(name, -1); if (r < 0) r = rs[vsx_choice(FS > 4 ? 4 : 3, name)]; int64_t q = vsx_any<int>(name); vsx_assume((q >= 0) & (q < 1ll << param("qb", 31))); off = r; return q * FS + r; }
static int64_t ceilF(int64_t v) { return (v + FS - 1) / FS; }

HARNESS(h_trim) {
    startF(); int64_t o; int64_t N = aligned("len", o); vsx_assume(N >= 1 && N <= MAXS); VSNode *c = clip(afParam(3), N); Args a; a.clip("clip", c); int mode = param("mode", -1); if (mode < 0) mode = (int)vsx_choice(6, "mode"); int64_t first = 0, last = N - 1; bool ok = true;
    if (mode & 1) { first = aligned("first", o); a.i("first", first); }
    if (mode < 2) { } else if (mode < 4) { last = aligned("last", o); a.i("last", last); ok = last >= first && last < N; } else { int64_t l = aligned("length", o); a.i("length", l); ok = l >= 1 && first + l <= N; last = first + l - 1; }
    ok = ok & (first < N); VSNode *r = callNode("AudioTrim", a); vsx_assert((r != nullptr) == ok, "exactly the parts of the clip are accepted"); if (!r) { vsx_cover("refused"); return; }
    int64_t T = last - first + 1; vsx_assert(ai(r)->numSamples == T && ai(r)->numFrames == ceilF(T) && ai(r)->sampleRate == 48000 && sameAF(ai(r)->format, ai(c)->format), "the length"); if (T == N) { vsx_assert(r == c, "the clip itself"); vsx_cover("whole"); return; }
    int n = anyN(r); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g); for (int ch = 0; ch < 2; ch++) for (int i = 0; i < api->getFrameLength(g); i++) vsx_assert(smp(g, ch, i) == cut(g, val(0, ch, first + n * FS + i)), "the sample of that place"); vsx_cover("trimmed");
}
HARNESS(h_trim_any) { // every number
    startF(); VSNode *c = clip(afmt(stInteger, 16, 1), 21); Args a; a.clip("clip", c); int mode = 1 + (int)vsx_choice(7, "given"); __int128 first = 0, last = 20; bool ok = true; int64_t v;
    if (mode & 1) { v = vsx_any<int64_t>("first"); a.i("first", v); first = v; ok = ok & (v >= 0) & (v < 21); } if (mode & 2) { v = vsx_any<int64_t>("last"); a.i("last", v); last = v; ok = ok & (last >= first) & (last < 21); } if (mode & 4) { v = vsx_any<int64_t>("length"); a.i("length", v); ok = ok & (v >= 1) & (first + v <= 21); last = first + v - 1; } if ((mode & 6) == 6) ok = false;
    VSNode *r = callNode("AudioTrim", a); vsx_assert((r != nullptr) == ok, "exactly the parts of the clip are accepted"); if (r) { vsx_assert(ai(r)->numSamples == (int64_t)(last - first + 1), "the length"); vsx_cover("accepted"); } else vsx_cover("refused");
}
static void checkCat(VSNode *r, int n, const VSFrame *g, const std::vector<std::pair<int, int64_t>> &parts, bool loop = false) { // parts: clip, length
    for (int i = 0; i < api->getFrameLength(g); i++) { int64_t k = n * FS + i; size_t p = 0; while (k >= parts[p].second) { k -= parts[p].second; p++; vsx_assert(p < parts.size(), "within the clips"); } for (int c = 0; c < ai(r)->format.numChannels; c++) vsx_assert(smp(g, c, i) == cut(g, val(parts[p].first, c, k)), "the sample of that place"); }
}
HARNESS(h_splice) {
    startF(); int nc = param("clips", 3); VSAudioFormat f = afParam(1); Args a; std::vector<std::pair<int, int64_t>> parts; int64_t T = 0; bool repeat = param("repeat", 0);
    for (int i = 0; i < nc; i++) { int64_t o, l; if (param("big", 0)) { l = aligned("len", o); vsx_assume(l >= 1 && l <= MAXS); } else { static const int ls[] = { 1, 3, 4, 5, 8, 9 }, l4[] = { 1, 3, 6 }; l = nc > 3 ? l4[vsx_choice(3, "len")] : ls[vsx_choice(6, "len")]; } if (repeat && i && vsx_choice(2, "the first again")) { parts.push_back(parts[0]); a.clip("clips", clips[0]); T += parts[0].second; continue; } a.clip("clips", clip(f, l)); parts.push_back({ (int)clips.size() - 1, l }); T += l; }
    VSNode *r = callNode("AudioSplice", a); vsx_assert((r != nullptr) == (T <= MAXS), "refused if and only if too long"); if (!r) { vsx_cover("refused"); return; }
    if (nc == 1) { vsx_assert(r == clips[0], "the clip itself"); return; } vsx_assert(ai(r)->numSamples == T && ai(r)->numFrames == ceilF(T) && ai(r)->sampleRate == 48000 && sameAF(ai(r)->format, f), "the sum of the lengths");
    int n = anyN(r); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g); checkCat(r, n, g, parts); vsx_cover("spliced");
}
HARNESS(h_loop_args) { // every number of repetitions
    startF(); static const int64_t ls[] = { 1, 3, 4, 1000000, MAXS / 2, MAXS / 2 + 1, MAXS }; int64_t L = ls[vsx_choice(7, "len")]; VSNode *c = clip(afmt(stInteger, 16, 1), L); Args a; a.clip("clip", c); int64_t t = vsx_any<int64_t>("times"); a.i("times", t); int64_t m = 0; if (L == 3) m = MAXS / 3; else m = MAXS / L; bool ok = (t >= 0) & (t <= m);
    VSNode *r = callNode("AudioLoop", a); vsx_assert((r != nullptr) == ok, "exactly the possible numbers are accepted"); if (!r) { vsx_cover("refused"); return; } int64_t T = ai(r)->numSamples; vsx_assert(t == 0 ? T == MAXS : T == (int64_t)((uint64_t)t * (uint64_t)L), "the length"); vsx_assert(ai(r)->numFrames == ceilF(T), "the frames"); vsx_cover("accepted");
}
HARNESS(h_loop) {
    startF(); static const int ls[] = { 1, 3, 4, 5, 7, 8, 9, 11, 12 }, ts[] = { 0, 1, 2, 3, 11 }; int64_t L = ls[vsx_choice(9, "len")], times = ts[vsx_choice(5, "times")]; VSNode *c = clip(afParam(3), L); Args a; a.clip("clip", c); if (times || vsx_choice(2, "given")) a.i("times", times);
    VSNode *r = callNode("AudioLoop", a); vsx_assert(r != nullptr, "made"); if (times == 1) { vsx_assert(r == c, "the clip itself"); return; }
    int64_t T = times ? times * L : MAXS; vsx_assert(ai(r)->numSamples == T && ai(r)->numFrames == ceilF(T), "the length"); int n = anyN(r); if (!times) vsx_assume((n < param("nmax", 64)) | (n >= ai(r)->numFrames - param("last", 2))); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g);
    int64_t k0 = fork(n * FS % L, 0, L - 1); for (int i = 0; i < api->getFrameLength(g); i++) for (int ch = 0; ch < 2; ch++) vsx_assert(smp(g, ch, i) == cut(g, val(0, ch, (k0 + i) % L)), "the sample of that place"); vsx_cover("looped");
}
HARNESS(h_reverse) { startF(); int64_t o, N = aligned("len", o); vsx_assume(N >= 1 && N <= MAXS); VSNode *c = clip(afParam(3), N); Args a; a.clip("clip", c); VSNode *r = callNode("AudioReverse", a); vsx_assert(r && ai(r)->numSamples == N && sameAF(ai(r)->format, ai(c)->format), "same length"); int n = anyN(r); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g); for (int i = 0; i < api->getFrameLength(g); i++) for (int ch = 0; ch < 2; ch++) vsx_assert(smp(g, ch, i) == cut(g, val(0, ch, N - 1 - (n * FS + i))), "the sample of that place"); vsx_cover("reversed"); }
HARNESS(h_rate) {
    startF(); VSNode *c = clip(afParam(3), 21), *s = clip(afmt(stFloat, 32, 1), 5, 8000); Args a; a.clip("clip", c); int k = (int)vsx_choice(4, "given"); int64_t v = 0; if (k & 1) { v = vsx_any<int64_t>("rate"); a.i("samplerate", v); } if (k & 2) a.clip("src", s); VSNode *r = callNode("AssumeSampleRate", a); bool ok = k == 2 || (k == 1 && v >= 1);
    vsx_assert((r != nullptr) == ok, "exactly one positive rate"); if (!r) { vsx_cover("refused"); return; } int64_t w = k == 2 ? 8000 : std::min<int64_t>(v, 0x7fffffff); vsx_assert(ai(r)->sampleRate == w && ai(r)->numSamples == 21 && sameAF(ai(r)->format, ai(c)->format), "only the rate changes"); int n = anyN(r); Drive d; const VSFrame *g = d.run(r, n, sounds); vsx_assert(d.reqs.size() == 1 && g == d.reqs[0].f && d.reqs[0].n == n, "the same frames"); vsx_cover("set");
}
// channels: which channel of which clip goes where
HARNESS(h_shuffle) {
    startF(); static const uint64_t lay[] = { 1, 3, 0x2B, 2 }; static const int ls[] = { 5, 8, 3 }; int nc = 1 + (int)vsx_choice(2, "clips"), nch = 1 + (int)vsx_choice(param("nch", 2), "channels"); Args a; int id[4], in[4], out[4]; uint64_t L[2]; int len[2];
    for (int i = 0; i < nc; i++) { L[i] = lay[vsx_choice(4, "layout")]; len[i] = ls[vsx_choice(i ? 3 : 2, "len") + (i ? 0 : 1)]; a.clip("clips", clip(afParam(L[i]), len[i])); } static const int ins[] = { 0, 1, 3, -1, -2, -4, -64, 64, -65 }, outs[] = { 0, 1, 5, 63, 64, -1 };
    bool range = true, present = true, twice = false; uint64_t ol = 0; for (int i = 0; i < nch; i++) { id[i] = std::min(nc - 1, i); in[i] = ins[vsx_choice(i ? 7 : 9, "in")]; out[i] = outs[vsx_choice(i ? 4 : 6, "out")]; a.i("channels_in", in[i]).i("channels_out", out[i]); if (in[i] < -64 || in[i] > 63 || out[i] < 0 || out[i] > 63) range = false; else { uint64_t l = L[id[i]]; if (in[i] < 0 ? __builtin_popcountll(l) <= -in[i] - 1 : in[i] > 0 && !(l >> in[i] & 1)) present = false; if (ol >> out[i] & 1) twice = true; ol |= 1ull << out[i]; } }
    VSNode *r = callNode("ShuffleChannels", a); bool ok = nc <= nch && range && present && !twice; vsx_assert((r != nullptr) == ok, "exactly the possible assignments are accepted"); if (!r) { vsx_cover("refused"); return; }
    int64_t T = len[id[0]]; for (int i = 0; i < nch; i++) T = std::max<int64_t>(T, len[id[i]]); vsx_assert(ai(r)->numSamples == T && ai(r)->format.channelLayout == ol && ai(r)->format.numChannels == nch && ai(r)->sampleRate == 48000 && ai(r)->format.bitsPerSample == ai(clips[0])->format.bitsPerSample, "the longest clip, the given channels");
    for (size_t j = 0; j < r->getNumDependencies(); j++) { auto *d = r->getDependency((int)j); vsx_assert(d->requestPattern == rpGeneral || d->requestPattern == (ai(d->source)->numFrames < ai(r)->numFrames ? rpFrameReuseLastOnly : rpStrictSpatial), "dependencies are declared truthfully"); }
    int n = anyN(r); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g); for (int i = 0; i < nch; i++) { int p = __builtin_popcountll(ol & ((1ull << out[i]) - 1)), s = in[i] < 0 ? -in[i] - 1 : __builtin_popcountll(L[id[i]] & ((1ull << in[i]) - 1)); for (int k = 0; k < api->getFrameLength(g); k++) { int64_t x = n * FS + k; vsx_assert(smp(g, p, k) == (x < len[id[i]] ? cut(g, val(id[i], s, x)) : 0), "the samples of that channel, silence after its end"); } } vsx_cover("shuffled");
}
HARNESS(h_split) {
    startF(); static const uint64_t lay[] = { 1, 3, 0x2B, 4, 1ull << 40 | 1 }; uint64_t l = lay[vsx_choice(5, "layout")]; VSNode *c = clip(afParam(l), 13); Args a; a.clip("clip", c); VSMap *m = call("SplitChannels", a); int nch = __builtin_popcountll(l); vsx_assert(!api->mapGetError(m) && api->mapNumElements(m, "clip") == nch, "one clip per channel");
    int k = 0; for (int b = 0; b < 64; b++) if (l >> b & 1) { VSNode *r = api->mapGetNode(m, "clip", k, nullptr); vsx_assert(ai(r)->numSamples == 13 && ai(r)->format.channelLayout == 1ull << b && ai(r)->format.numChannels == 1, "one channel"); int n = (int)vsx_choice(2, "frame"); const VSFrame *g; Drive d; if (nch == 1) { vsx_assert(r == c, "the clip itself"); g = sounds(c, n, nullptr); } else g = d.run(r, n, sounds); shape(r, n, g); for (int i = 0; i < api->getFrameLength(g); i++) vsx_assert(smp(g, 0, i) == cut(g, val(0, k, n * FS + i)), "the samples of that channel"); k++; } vsx_cover("split");
}
// arithmetic: samples of `bits` significant arbitrary bits, left aligned
static const VSFrame *noise(VSNode *node, int n, void *) {
    const VSAudioInfo *a = ai(node); int l = lenOf(node, n), sb = param("sb", 16); VSFrame *f = api->newAudioFrame(&a->format, l, nullptr, core);
    for (int c = 0; c < a->format.numChannels; c++) for (int i = 0; i < l; i++) { int v = sb == 16 ? vsx_any<int16_t>("sample") : vsx_range<int16_t>((int16_t)-(1 << (sb - 1)), (int16_t)((1 << (sb - 1)) - 1), "sample"); if (a->format.sampleType == stFloat) { float w = (float)v / 4096.f; memcpy(api->getWritePtr(f, c) + i * 4, &w, 4); } else if (a->format.bytesPerSample == 2) ((int16_t *)api->getWritePtr(f, c))[i] = (int16_t)(v * (65536 >> sb)); else { int low = param("low", 0); ((int32_t *)api->getWritePtr(f, c))[i] = low ? v * (1 << (32 - a->format.bitsPerSample)) : v * (int)(1u << (32 - sb)); } }
    return f;
}
static float fsmp(const VSFrame *f, int c, int i) { float v; memcpy(&v, api->getReadPtr(f, c) + i * 4, 4); return v; }
static int64_t rnd(double v) { return (int64_t)std::floor(std::fabs(v) + .5) * (v < 0 ? -1 : 1); } // exact for the values used
// value in container units -> what is stored, and whether it does not fit
static double quant(double v, const VSAudioFormat &f, bool &clip) { double step = (double)(1ll << (f.bytesPerSample * 8 - f.bitsPerSample)), M = (double)(1ll << (f.bitsPerSample - 1)), q = v / step, lo = std::floor(q), fr = q - lo; bool up = (fr > .5) | ((fr == .5) & (q > 0)); double r = lo + (up ? 1. : 0.); clip = clip | (r > M - 1) | (r < -M); r = r > M - 1 ? M - 1 : r < -M ? -M : r; return r * step; }
static int warnings; static void VS_CC onLog(int t, const char *, void *) { if (t == mtWarning) warnings++; }
HARNESS(h_gain) {
    startF(); static const double gs[] = { 0, .5, -1, 1, 1.5, 2, -.25, 3.75, 1e10, 0.3 }; VSAudioFormat f = afParam(3); int l = param("l", 1); VSNode *c = clip(f, l); Args a; a.clip("clip", c); int k = 1 + (int)vsx_choice(3, "gains"); double g[2]; for (int i = 0; i < k; i++) { double v = gs[vsx_choice(i ? 3 : 10, "gain")]; if (i < 2) g[i] = v; a.f("gain", v); } if (k == 1) g[1] = g[0]; int oe = (int)vsx_choice(2, "overflow_error"); if (oe) a.i("overflow_error", 1);
    api->addLogHandler(onLog, nullptr, nullptr, core); VSNode *r = callNode("AudioGain", a); vsx_assert((r != nullptr) == (k < 3), "one gain, or one per channel"); if (!r) { vsx_cover("refused"); return; } vsx_assert(ai(r)->numSamples == l && sameAF(ai(r)->format, f), "same clip"); Drive d; const VSFrame *o = d.run(r, 0, noise); const VSFrame *s = d.reqs[0].f; bool clipped = false; double e[2][4];
    for (int ch = 0; ch < 2; ch++) for (int i = 0; i < l; i++) { if (f.sampleType == stFloat) { float w = fsmp(s, ch, i) * (float)g[ch]; vsx_assert(o != nullptr && sameSample(fsmp(o, ch, i), w), "the product"); } else e[ch][i] = quant((double)smp(s, ch, i) * g[ch], f, clipped); }
    if (f.sampleType != stFloat) { vsx_assert((o == nullptr) == (clipped & (oe != 0)), "an error exactly if asked for and a sample does not fit"); if (!o) { vsx_cover("error"); return; } for (int ch = 0; ch < 2; ch++) for (int i = 0; i < l; i++) vsx_assert((double)smp(o, ch, i) == e[ch][i], "the rounded product, limited"); vsx_assert(warnings == (int)clipped, "one warning if a sample does not fit"); }
    shape(r, 0, o); vsx_cover("scaled");
}
HARNESS(h_mix) { // clip 0: one or two channels, clip 1: one channel
    startF(); static const double ws[] = { 0, 1, -1, .5, .75, 2 }; VSAudioFormat f0 = afParam(vsx_choice(2, "stereo") ? 3 : 1), f1 = afParam(1); int nc = 1 + (int)vsx_choice(2, "clips"), no = 1 + (int)vsx_choice(2, "outputs"); int ni = f0.numChannels + (nc == 2 ? 1 : 0); VSNode *c0 = clip(f0, 1), *c1 = clip(f1, 1); Args a; a.clip("clips", c0); if (nc == 2) a.clip("clips", c1); static const int outs[] = { 0, 1, 9 }; int oc[2]; double w[2][3]; int wn = param("weights", 3);
    for (int o = 0; o < no; o++) { oc[o] = outs[vsx_choice(3, "out")]; a.i("channels_out", oc[o]); for (int i = 0; i < ni; i++) { w[o][i] = ws[i + o < 2 ? vsx_choice(wn + 3 > 6 ? 6 : wn + 3, "weight") : 1 + vsx_choice(wn > 2 ? 2 : 1, "weight")]; a.f("matrix", w[o][i]); } } int oe = (int)vsx_choice(2, "overflow_error"); if (oe) a.i("overflow_error", 1); bool ok = no == 1 || oc[0] != oc[1]; uint64_t ol = 1ull << oc[0] | (no == 2 ? 1ull << oc[1] : 0);
    api->addLogHandler(onLog, nullptr, nullptr, core); VSNode *r = callNode("AudioMix", a); vsx_assert((r != nullptr) == ok, "different output channels"); if (!r) { vsx_cover("refused"); return; } vsx_assert(ai(r)->numSamples == 1 && ai(r)->format.channelLayout == ol && ai(r)->format.bitsPerSample == f0.bitsPerSample && ai(r)->format.sampleType == f0.sampleType && ai(r)->sampleRate == 48000, "the given channels");
    Drive d; const VSFrame *g = d.run(r, 0, noise); const VSFrame *s[2] = {}; for (auto &q : d.reqs) s[q.node == c1] = q.f; bool clipped = false; double e[2]; for (int o = 0; o < no; o++) { double t = 0; for (int i = 0; i < ni; i++) { const VSFrame *q = i < f0.numChannels ? s[0] : s[1]; int ch = i < f0.numChannels ? i : 0; t += (f0.sampleType == stFloat ? (double)fsmp(q, ch, 0) : (double)smp(q, ch, 0)) * w[o][i]; } e[o] = f0.sampleType == stFloat ? t : quant(t, f0, clipped); }
    vsx_assert((g == nullptr) == (clipped & (oe != 0)), "an error exactly if asked for and a sample does not fit"); if (!g) { vsx_cover("error"); return; } shape(r, 0, g); for (int o = 0; o < no; o++) { int p = no == 2 && oc[1 - o] < oc[o] ? 1 : 0; if (f0.sampleType == stFloat) vsx_assert(std::fabs((double)fsmp(g, p, 0) - e[o]) <= 1e-5, "the weighted sum"); else vsx_assert((double)smp(g, p, 0) == e[o], "the rounded weighted sum, limited"); } if (f0.sampleType != stFloat) vsx_assert(warnings == (int)clipped, "one warning if a sample does not fit"); vsx_cover("mixed");
}
HARNESS(h_mix_args) {
    startF(); Args a; int k = (int)vsx_choice(8, "what"); bool ok = true; VSAudioFormat f = afmt(stInteger, 16, 3); VSNode *c = clip(f, 9); a.clip("clips", c); int nm = 2, oc = 0; switch (k) { case 0: a.clip("clips", clip(f, 8)); ok = false; nm = 4; break; case 1: a.clip("clips", clip(f, 9, 44100)); ok = false; nm = 4; break; case 2: a.clip("clips", clip(afmt(stInteger, 24, 3), 9)); ok = false; nm = 4; break; case 3: a.clip("clips", clip(afmt(stFloat, 32, 3), 9)); ok = false; nm = 4; break; case 4: nm = 1 + (int)vsx_choice(4, "weights"); ok = nm == 2; break; case 5: oc = (int)vsx_any<int8_t>("channel"); ok = oc >= 0 && oc < 64; break; case 6: a.clip("clips", clip(f, 9)); nm = 4; break; default: a.clip("clips", c); nm = 4; }
    for (int i = 0; i < nm; i++) a.f("matrix", .25); a.i("channels_out", oc); VSNode *r = callNode("AudioMix", a); vsx_assert((r != nullptr) == ok, "exactly the matching clips, weights and channels are accepted"); if (r) vsx_cover("accepted"); else vsx_cover("refused");
}
HARNESS(h_blank_audio) {
    startF(); Args a; int64_t o; bool src = vsx_choice(2, "clip"); VSAudioFormat sf = afmt(stFloat, 32, 7); if (src) a.clip("clip", clip(sf, 21, 8000)); int st = src ? stFloat : stInteger, bits = src ? 32 : 16; uint64_t lay = src ? 7 : 3; int64_t rate = src ? 8000 : 44100, N = src ? 21 : -1; bool ok = true; int64_t v;
    int fk = param("fk", -1), ck = param("ck", -1); if (fk < 0) fk = (int)vsx_choice(4, "format"); if (ck < 0) ck = (int)vsx_choice(4, "channels"); switch (fk) { case 0: break; case 1: st = stFloat; bits = 32; a.i("sampletype", 1).i("bits", 32); break; case 2: st = stInteger; a.i("sampletype", 0); v = vsx_any<int64_t>("bits"); a.i("bits", v); ok = v >= 16 && v <= 32; bits = (int)sat(v); break; default: a.i("bits", 24).i("sampletype", src ? 0 : 5); bits = 24; if (!src) ok = false; st = stInteger; }
    switch (ck) { case 0: break; case 1: a.i("channels", 3).i("channels", 0); lay = 9; break; case 2: v = vsx_any<int64_t>("channel"); a.i("channels", v); if (v < 0 || v > 63) ok = false; else { v = fork(v, 0, 63); lay = 1ull << v; } break; default: a.i("channels", 1).i("channels", 1); ok = false; }
    int rl = param("rl", -1); if (rl < 0) rl = (int)vsx_choice(4, "rate, length"); if (rl & 1) { rate = vsx_any<int64_t>("rate"); a.i("samplerate", rate); if (rate < 1) ok = false; rate = std::min<int64_t>(rate, 0x7fffffff); } if (N < 0) N = rate * 10; if (rl & 2) { static const int64_t far[] = { INT64_MIN, INT64_MAX, 1ll << 32, 1ll << 40, (1ll << 32) + 5 }; if (int fr = (int)vsx_choice(6, "far")) N = far[fr - 1]; else { N = vsx_any<int64_t>("length"); vsx_assume((N >= -9) & (N <= MAXS + 9)); } a.i("length", N); } if (N < 1 || N > MAXS) ok = false; int keep = (int)vsx_choice(2, "keep"); if (keep) a.i("keep", 1);
    VSNode *r = callNode("BlankAudio", a); vsx_assert((r != nullptr) == ok, "exactly the possible clips are made"); if (!r) { vsx_cover("refused"); return; } vsx_assert(ai(r)->numSamples == N && ai(r)->numFrames == ceilF(N) && ai(r)->sampleRate == rate && ai(r)->format.sampleType == st && ai(r)->format.bitsPerSample == bits && ai(r)->format.channelLayout == lay, "the clip described");
    for (int k = 0; k < 1 + keep; k++) { static const int ns[] = { 0, 1, 1000000 }; int F = ai(r)->numFrames, n = k == keep ? anyN(r) : std::min(ns[vsx_choice(3, "first")], F - 1); Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g); for (int c = 0; c < ai(r)->format.numChannels; c++) for (int i = 0; i < api->getFrameLength(g); i++) vsx_assert(smp(g, c, i) == 0, "silence"); } vsx_cover("made");
}
HARNESS(h_wave) {
    startF(); static const char *const wf[] = { "none", "slope", "sine", "square", "triangle", "saw" }; static const double fr[] = { 440, 6000, -1000, 50000, 0 }, am[] = { 1, .5, 2, -1 }; int w = (int)vsx_choice(6, "waveform"); double F = fr[vsx_choice(5, "frequency")], A = am[vsx_choice(4, "amplitude")]; VSAudioFormat f = afParam(3); Args a; a.clip("clip", clip(f, 1000, 48000)).s("waveform", wf[w]).f("frequency", F).f("amplitude", A); if (vsx_choice(2, "keep")) a.i("keep", 1);
    VSNode *r = callNode("BlankAudio", a); vsx_assert((r != nullptr) == (w != 5), "a known waveform"); if (!r) { vsx_cover("refused"); return; } static const int ns[] = { 0, 1, 2, 17 }; double M = (double)(1ll << (f.bitsPerSample - 1)), st = (double)(1ll << (f.bytesPerSample * 8 - f.bitsPerSample));
    for (int k = 0; k < 2; k++) { int n = ns[vsx_choice(4, "frame")]; if (k) n = ai(r)->numFrames - 1; Drive d; const VSFrame *g = d.run(r, n, sounds); shape(r, n, g);
        for (int i = 0; i < api->getFrameLength(g); i++) { double x = F / 48000. * (double)(n * FS + i); x -= std::floor(x); bool edge = (w == 1 && (x < 1e-6 || x > 1 - 1e-6)) || (w == 3 && (std::fabs(x - .5) < 1e-6 || x < 1e-6 || x > 1 - 1e-6)); if (edge && F != 0) continue; double v = w == 1 ? 2 * x - 1 : w == 2 ? std::sin(6.283185307179586 * x) : w == 3 ? (x < .5 ? 1 : -1) : w == 4 ? (x < .25 ? 4 * x : x < .75 ? 2 - 4 * x : 4 * x - 4) : 0; v *= A;
            for (int c = 0; c < 2; c++) { if (f.sampleType == stFloat) vsx_assert(std::fabs(fsmp(g, c, i) - v) < 1e-5, "the waveform"); else { double q = v * M; q = q > M - 1 ? M - 1 : q < -M ? -M : q; double o = smp(g, c, i) / st; vsx_assert(std::fabs(o - q) <= .5 + M * 1e-9 && o == std::rint(o), "the waveform"); } } } } vsx_cover("made");
}
