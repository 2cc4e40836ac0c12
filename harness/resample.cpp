// AudioResample: format conversion, dither, channel mixing and sample rate conversion
#include "audio.cpp"
static const char *const dnames[] = { "none", "rectangular", "triangular" };
static VSAudioFormat fmtK(int k, uint64_t layout) { return afmt(k == 2 ? stFloat : stInteger, k == 0 ? 16 : k == 1 ? 24 : k == 4 ? 20 : 32, layout); }
static double stepOf(const VSAudioFormat &f) { return (double)(1ll << (f.bytesPerSample * 8 - f.bitsPerSample)); }
// a stored sample in units of full scale
static double level(const VSFrame *f, int c, int i) { const VSAudioFormat *a = api->getAudioFrameFormat(f); return a->sampleType == stFloat ? (double)fsmp(f, c, i) : (double)smp(f, c, i) / (double)(1ll << (a->bytesPerSample * 8 - 1)); }
static double halfRange(const VSAudioFormat &f) { return (double)(1ll << (f.bytesPerSample * 8 - 1)); }
static bool aligned(const VSFrame *f, int c, int i) { const VSAudioFormat *a = api->getAudioFrameFormat(f); return a->sampleType == stFloat || a->bytesPerSample == 2 || (smp(f, c, i) & (int)(stepOf(*a) - 1)) == 0; }
HARNESS(h_rs_convert) { // without dither, or where none is due
    startF(); VSAudioFormat s = fmtK(param("af", 0), param("lay", 3)), t = fmtK(param("to", 0), param("lay", 3)); bool lossy = t.sampleType == stInteger && (s.sampleType == stFloat || s.bitsPerSample > t.bitsPerSample); int dt = lossy ? 0 : (int)vsx_choice(4, "dither"), oe = (int)vsx_choice(2, "overflow_error"), l = param("l", 1); VSNode *c = clip(s, FS + l); Args a; a.clip("clip", c).i("sampletype", t.sampleType).i("bits", t.bitsPerSample); if (dt < 3) a.s("dither_type", dnames[dt]); if (oe) a.i("overflow_error", 1);
    api->addLogHandler(onLog, nullptr, nullptr, core); VSNode *r = callNode("AudioResample", a); vsx_assert(r != nullptr, "made"); if (sameAF(s, t)) { vsx_assert(r == c, "the clip itself"); vsx_cover("converted"); return; } vsx_assert(sameAF(ai(r)->format, t) && ai(r)->numSamples == FS + l && ai(r)->sampleRate == 48000, "only the format changes"); vsx_assert(r->getDependency(0)->requestPattern == rpStrictSpatial || r->getDependency(0)->requestPattern == rpGeneral, "dependencies");
    bool last = l == 1; Drive d; const VSFrame *o = d.run(r, last ? 1 : 0, noise); vsx_assert(d.reqs.size() == 1, "one frame"); const VSFrame *f = d.reqs[0].f; bool clipped = false; double e[2][16]; int len = api->getFrameLength(f); for (int ch = 0; ch < t.numChannels; ch++) for (int i = 0; i < len; i++) { double v = level(f, ch, i); e[ch][i] = t.sampleType == stFloat ? v : quant(v * halfRange(t), t, clipped); }
    vsx_assert((o == nullptr) == (clipped & (oe != 0)), "an error exactly if asked for and a sample does not fit"); if (!o) { vsx_cover("error"); return; } shape(r, last ? 1 : 0, o); for (int ch = 0; ch < t.numChannels; ch++) for (int i = 0; i < len; i++) vsx_assert(t.sampleType == stFloat ? fsmp(o, ch, i) == (float)e[ch][i] : (double)smp(o, ch, i) == e[ch][i], "the nearest value"); vsx_assert(warnings == (int)clipped, "one warning if a sample does not fit"); vsx_cover("converted");
}
// the same frame each time it is asked for
static std::map<std::pair<int, int>, const VSFrame *> kept;
static const VSFrame *keptNoise(VSNode *node, int n, void *ud) { auto k = std::make_pair(idOf(node), n); auto i = kept.find(k); if (i == kept.end()) { VSFrame *f = const_cast<VSFrame *>(noise(node, n, ud)); if (ai(node)->format.sampleType == stFloat) for (int c = 0; c < 2; c++) for (int i = 0; i < api->getFrameLength(f); i++) { float w = fsmp(f, c, i) / 32; memcpy(api->getWritePtr(f, c) + i * 4, &w, 4); } i = kept.insert({ k, f }).first; } return api->addFrameRef(i->second); }
HARNESS(h_rs_dither) {
    startF(); VSAudioFormat s = fmtK(param("af", 2), 3), t = fmtK(param("to", 0), 3); int dt = 1 + (int)vsx_choice(2, "dither"); bool name = dt == 1 || vsx_choice(2, "by name"); VSNode *c = clip(s, 8 * FS + 2); static const int ns[] = { 0, 3, 8 }; int n = ns[vsx_choice(3, "frame")], before = ns[vsx_choice(3, "frame before")];
    VSNode *r[2]; for (auto &x : r) { Args a; a.clip("clip", c).i("sampletype", t.sampleType).i("bits", t.bitsPerSample); if (name) a.s("dither_type", dnames[dt]); x = callNode("AudioResample", a); vsx_assert(x != nullptr, "made"); }
    Drive d0, d1, d2; const VSFrame *g = d0.run(r[0], n, keptNoise); d1.run(r[1], before, keptNoise); const VSFrame *h = d2.run(r[1], n, keptNoise); shape(r[0], n, g); shape(r[1], n, h); double st = stepOf(t), M = (double)(1ll << (t.bitsPerSample - 1)), m = dt == 1 ? 1. : 1.5;
    for (int ch = 0; ch < 2; ch++) for (int i = 0; i < api->getFrameLength(g); i++) { vsx_assert(smp(g, ch, i) == smp(h, ch, i), "independent of the frames before"); double v = level(d0.reqs[0].f, ch, i) * M, o = (double)smp(g, ch, i) / st; v = v > M - 1 ? M - 1 : v < -M ? -M : v; vsx_assert(((o - v) <= m) & ((o - v) >= -m), "close to the value"); vsx_assert(aligned(g, ch, i), "aligned"); } vsx_cover("dithered");
}
static const VSFrame *constant(VSNode *node, int n, void *ud) { const VSAudioInfo *a = ai(node); int l = lenOf(node, n); VSFrame *f = api->newAudioFrame(&a->format, l, nullptr, core); float v = *(float *)ud; for (int c = 0; c < a->format.numChannels; c++) for (int i = 0; i < l; i++) memcpy(api->getWritePtr(f, c) + i * 4, &v, 4); return f; }
HARNESS(h_rs_noise) { // the noise has no bias, and is different in every channel and frame
    startF(); int dt = 1 + (int)vsx_choice(2, "dither"), frames = 1024 / (int)FS; static const float qs[] = { 0, .25f, .5f, -.75f }; float q = qs[vsx_choice(4, "level")], v = q / 32768.f; VSNode *c = clip(afmt(stFloat, 32, 3), frames * FS); Args a; a.clip("clip", c).i("sampletype", 0).i("bits", 16).s("dither_type", dnames[dt]); VSNode *r = callNode("AudioResample", a); vsx_assert(r != nullptr, "made");
    double sum = 0, sq = 0, cc = 0, cf = 0, cs = 0; double prev[2][16] = {}; for (int n = 0; n < frames; n++) { Drive d; const VSFrame *g = d.run(r, n, constant, &v); vsx_assert(g != nullptr, "made"); double e[2][16]; for (int ch = 0; ch < 2; ch++) for (int i = 0; i < FS; i++) { double o = smp(g, ch, i) - q; e[ch][i] = o; sum += o; sq += o * o; if (i) cs += o * e[ch][i - 1]; cf += o * prev[ch][i]; if (ch) cc += o * e[0][i]; } memcpy(prev, e, sizeof e); }
    double N = 2. * frames * FS, var = sq / N; vsx_assert(sum / N < .05 && sum / N > -.05, "no bias"); double want = dt == 2 ? .25 : (std::fabs(q) - std::floor(std::fabs(q))) * (1 - (std::fabs(q) - std::floor(std::fabs(q)))); vsx_assert(var > want - .05 && var < want + .05, "the variance of the noise"); vsx_assert(std::fabs(cc) < .15 * N / 2 * (want + .02), "independent channels"); vsx_assert(std::fabs(cf) < .1 * N * (want + .02), "independent frames"); vsx_assert(std::fabs(cs) < .1 * N * (want + .02), "independent samples"); vsx_cover("noise");
}
// mixing
typedef std::vector<std::pair<int, double>> Dest;
static Dest destOf(int ch, uint64_t out) { // where a channel goes: the first row whose channels all exist
    const double s = 0.70710678118654752440; if (out >> ch & 1) return { { ch, 1 } };
    static const int up[][2] = { { acTopFrontLeft, acFrontLeft }, { acWideLeft, acFrontLeft }, { acStereoLeft, acFrontLeft }, { acTopFrontRight, acFrontRight }, { acWideRight, acFrontRight }, { acStereoRight, acFrontRight }, { acTopFrontCenter, acFrontCenter }, { acTopCenter, acFrontCenter }, { acTopBackLeft, acBackLeft }, { acSurroundDirectLeft, acBackLeft }, { acTopBackRight, acBackRight }, { acSurroundDirectRight, acBackRight }, { acTopBackCenter, acBackCenter } };
    for (auto &u : up) if (u[0] == ch) { ch = u[1]; break; }
    struct Row { int ch; Dest d; }; const int L = acFrontLeft, R = acFrontRight, C = acFrontCenter, BL = acBackLeft, BR = acBackRight, SL = acSideLeft, SR = acSideRight, LC = acFrontLeftOFCenter, RC = acFrontRightOFCenter;
    const Row rows[] = { { C, { { L, s }, { R, s } } }, { C, { { L, s } } }, { C, { { R, s } } }, { L, { { C, s } } }, { L, { { R, s } } }, { R, { { C, s } } }, { R, { { L, s } } }, { BL, { { SL, 1 } } }, { BL, { { L, s } } }, { BL, { { C, .5 } } }, { SL, { { BL, 1 } } }, { SL, { { L, s } } }, { SL, { { C, .5 } } }, { BR, { { SR, 1 } } }, { BR, { { R, s } } }, { BR, { { C, .5 } } }, { SR, { { BR, 1 } } }, { SR, { { R, s } } }, { SR, { { C, .5 } } },
        { acBackCenter, { { BL, s }, { BR, s } } }, { acBackCenter, { { SL, s }, { SR, s } } }, { acBackCenter, { { L, .5 }, { R, .5 } } }, { acBackCenter, { { C, s } } }, { LC, { { L, s }, { C, s } } }, { LC, { { L, 1 } } }, { LC, { { C, 1 } } }, { RC, { { R, s }, { C, s } } }, { RC, { { R, 1 } } }, { RC, { { C, 1 } } }, { acLowFrequency, { { acLowFrequency2, 1 } } }, { acLowFrequency2, { { acLowFrequency, 1 } } } };
    if (out >> ch & 1) return { { ch, 1 } };
    for (auto &r : rows) if (r.ch == ch) { bool all = true; for (auto &x : r.d) all = all && (out >> x.first & 1); if (all) return r.d; }
    return {};
}
static uint64_t bitsOf(std::initializer_list<int> l) { uint64_t r = 0; for (int i : l) r |= 1ull << i; return r; }
static uint64_t layoutNo(int k) {
    switch (k) {
    case 0: return bitsOf({ acFrontCenter }); case 1: return 3; case 2: return bitsOf({ 0, 1, 2, 3, acSideLeft, acSideRight }); case 3: return bitsOf({ 0, 1, 2, 3, acBackLeft, acBackRight }); case 4: return bitsOf({ 0, 1, 2, 3, acBackLeft, acBackRight, acSideLeft, acSideRight }); case 5: return bitsOf({ acFrontLeft }); case 6: return bitsOf({ acFrontRight, acBackCenter, acLowFrequency2 });
    case 7: return bitsOf({ 0, 1, acBackLeft, acBackRight }); case 8: return bitsOf({ acFrontLeftOFCenter, acFrontRightOFCenter, acTopCenter, acTopBackCenter }); case 9: return bitsOf({ acTopFrontLeft, acTopFrontRight, acTopBackLeft, acTopBackRight, acTopFrontCenter }); case 10: return bitsOf({ acStereoLeft, acStereoRight, acWideLeft, acWideRight, acSurroundDirectLeft, acSurroundDirectRight }); case 11: return bitsOf({ acFrontCenter, acFrontLeft }); case 12: return bitsOf({ acSideLeft, acSideRight, acLowFrequency }); case 13: return bitsOf({ acFrontRight, acFrontLeftOFCenter, acBackCenter }); case 14: return bitsOf({ 3, 50, 63 });
    default: return bitsOf({ acFrontRight, acBackRight }); }
}
struct Mix { std::vector<int> ic, oc; std::vector<std::vector<double>> w; }; // rows: outputs
static Mix mixOf(uint64_t in, uint64_t out, bool norm) {
    Mix m; for (int i = 0; i < 64; i++) { if (in >> i & 1) m.ic.push_back(i); if (out >> i & 1) m.oc.push_back(i); } m.w.assign(m.oc.size(), std::vector<double>(m.ic.size(), 0)); for (size_t i = 0; i < m.ic.size(); i++) for (auto &x : destOf(m.ic[i], out)) for (size_t o = 0; o < m.oc.size(); o++) if (m.oc[o] == x.first) m.w[o][i] += x.second;
    double top = 1; for (auto &r : m.w) { double t = 0; for (double x : r) t += x; if (t > top) top = t; } if (norm) for (auto &r : m.w) for (double &x : r) x /= top; return m;
}
HARNESS(h_rs_mix) { // the samples: 3 bits per channel
    startF(); int L = param("layouts", 16), fixed = param("in", -1), in = fixed >= 0 ? fixed : (int)vsx_choice(L, "from"), to = (int)vsx_choice(L, "to"); if (in == to) return; uint64_t il = layoutNo(in), ol = layoutNo(to); VSAudioFormat s = fmtK(param("af", 2), il), t = fmtK(param("to", 2), ol); int nk = (int)vsx_choice(3, "normalize"), dk = t.sampleType == stInteger ? (int)vsx_choice(2, "dither") : 0, oe = param("oe", 0); VSNode *c = clip(s, 2 * FS + 1); Args a; a.clip("clip", c).i("sampletype", t.sampleType).i("bits", t.bitsPerSample); for (int b = 63; b >= 0; b--) if (ol >> b & 1) a.i("channels", b);
    if (nk < 2) a.i("normalize", nk); if (!dk) a.s("dither_type", "none"); if (oe) a.i("overflow_error", 1); Mix m = mixOf(il, ol, nk == 2 ? t.sampleType == stInteger : nk == 1); api->addLogHandler(onLog, nullptr, nullptr, core); VSNode *r = callNode("AudioResample", a); vsx_assert(r != nullptr, "made"); vsx_assert(sameAF(ai(r)->format, t) && ai(r)->numSamples == 2 * FS + 1 && ai(r)->sampleRate == 48000, "only the layout and the format change");
    Drive d; const VSFrame *g = d.run(r, 2, noise); double M = (double)(1ll << (t.bitsPerSample - 1)), st = stepOf(t); const VSFrame *f = d.reqs[0].f; bool far = false, clip = false; double e[16]; for (size_t o = 0; o < m.oc.size(); o++) { e[o] = 0; for (size_t i = 0; i < m.ic.size(); i++) e[o] += m.w[o][i] * level(f, (int)i, 0); if (t.sampleType == stInteger) { clip = clip | (e[o] * M > M - .4) | (e[o] * M < -M - .6); far = far | ((e[o] * M > M - 2) & (e[o] * M < M + 1)) | ((e[o] * M < -M + 1) & (e[o] * M > -M - 2)); } } vsx_assume(!far); // no decision at the very limit
    vsx_assert((g == nullptr) == (clip & (oe != 0)), "an error exactly if asked for and a sample does not fit"); if (!g) { vsx_cover("error"); return; } shape(r, 2, g);
    for (size_t o = 0; o < m.oc.size(); o++) { bool fed = false; for (double x : m.w[o]) fed = fed || x != 0; if (!fed) { vsx_assert(smp(g, (int)o, 0) == 0, "digital silence"); vsx_cover("silent"); continue; } if (t.sampleType == stFloat) vsx_assert((level(g, (int)o, 0) - e[o] <= 1e-6) & (level(g, (int)o, 0) - e[o] >= -1e-6), "the weighted sum"); else { double q = e[o] * M, x = (double)smp(g, (int)o, 0) / st, tol = (dk ? 1.5 : .5) + M * 2e-7; q = q > M - 1 ? M - 1 : q < -M ? -M : q; vsx_assert((x - q <= tol) & (x - q >= -tol), "the weighted sum, rounded and limited"); vsx_assert(aligned(g, (int)o, 0), "aligned"); } } if (t.sampleType == stInteger && !dk) vsx_assert(warnings == (int)clip, "one warning if a sample does not fit"); vsx_cover("mixed");
}
// sample rate conversion
static double i0(double x) { double s = 0, t = 1; for (int k = 1; k < 60; k++) { s += t; t *= (x / 2) / k; t *= (x / 2) / k; } return s; }
static double kernel(double t, double ratio) { // Kaiser window (beta 9) of 64 zero crossings a side, passband .91
    double half = std::ceil(64 / ratio), w = t / half; if (!(w > -1 && w < 1)) return 0; double fc = ratio * .91, x = 3.14159265358979323846 * fc * t; return (x == 0 ? 1 : std::sin(x) / x) * i0(9 * std::sqrt(1 - w * w));
}
struct Pulse { int64_t k[2]; int32_t v[2][2]; int nc; }; // two samples per channel that are not silent: place, value
static const VSFrame *pulses(VSNode *node, int n, void *ud) {
    Pulse *p = (Pulse *)ud; const VSAudioInfo *a = ai(node); int l = lenOf(node, n); VSFrame *f = api->newAudioFrame(&a->format, l, nullptr, core);
    for (int c = 0; c < a->format.numChannels; c++) { memset(api->getWritePtr(f, c), 0, l * a->format.bytesPerSample); for (int i = 0; i < l; i++) for (int j = 0; j < 2; j++) if (p->k[j] == (int64_t)n * FS + i) { if (a->format.sampleType == stFloat) { float w = (float)p->v[c][j] / 64.f; memcpy(api->getWritePtr(f, c) + i * 4, &w, 4); } else ((int16_t *)api->getWritePtr(f, c))[i] = (int16_t)(p->v[c][j] * 512); } } return f;
}
static const int ratios[][2] = { { 1, 2 }, { 2, 1 }, { 3, 2 }, { 2, 3 }, { 8, 5 }, { 1, 7 }, { 48000, 44100 }, { 44100, 48000 } };
HARNESS(h_rs_rate) {
    startF(); const int *q = ratios[param("ratio", 0)]; int from = q[0], to = q[1]; bool mono = param("mono", 0), integer = param("int", 0); static const int64_t Ns[] = { 1, 2, 9, 301, 0 }; int64_t N = Ns[vsx_choice(4 + (param("big", 1) ? 1 : 0), "len")]; if (!N) N = MAXS * from / to < MAXS ? (int64_t)(MAXS * from / to) - 5 : MAXS; VSNode *c = clip(integer ? afmt(stInteger, 16, 3) : afmt(stFloat, 32, 3), N, from); Args a; a.clip("clip", c).i("samplerate", to); if (mono) a.i("channels", acFrontCenter); if (!integer) a.i("normalize", 0); if (integer) a.s("dither_type", "none").i("normalize", 0);
    VSNode *r = callNode("AudioResample", a); vsx_assert(r != nullptr, "made"); int64_t O = ai(r)->numSamples; vsx_assert(O * from >= N * to && (O - 1) * from < N * to && ai(r)->sampleRate == to && ai(r)->numFrames == ceilF(O), "the scaled length, rounded up");
    vsx_assert(r->getDependency(0)->requestPattern == rpGeneral, "other frames are needed"); int F = ai(r)->numFrames; int nk = (int)vsx_choice(5, "frame"); static const int fs[] = { 0, 1, 17 }; int n = nk < 3 ? fs[nk] : nk == 3 ? F / 2 : F - 1; if (n >= F) n = F - 1; int len = lenOf(r, n);
    double ratio = std::min(1., (double)to / from); int64_t half = (int64_t)std::ceil(64 / ratio); int64_t centre = (int64_t)(n * FS * from / to), off[] = { 0, 1, -1, 5, -half + 1, half, half + 1 }; Pulse p; p.nc = 2; p.k[0] = centre + off[vsx_choice(7, "place")]; p.k[1] = centre + (len > 1 ? 2 : 1); if (p.k[1] == p.k[0]) p.k[1] = p.k[0] - 3; for (int ch = 0; ch < 2; ch++) for (int j = 0; j < 2; j++) p.v[ch][j] = vsx_range<int8_t>(-4, 3, "sample");
    Drive d; const VSFrame *g = d.run(r, n, pulses, &p); shape(r, n, g); for (int i = 0; i < len; i++) { int64_t m = (int64_t)n * FS + i; int64_t pos = m * from; int64_t base = (int64_t)(pos / to); double frac = (double)(pos % to) / to, sum = 0; for (int64_t k = base - half + 1; k <= base + half; k++) sum += kernel(frac + (double)(base - k), ratio); double w[2]; for (int j = 0; j < 2; j++) w[j] = p.k[j] < 0 || p.k[j] >= N ? 0 : kernel(frac + (double)(base - p.k[j]), ratio) / sum;
        double e[2]; for (int ch = 0; ch < 2; ch++) e[ch] = (w[0] * p.v[ch][0] + w[1] * p.v[ch][1]) / 64; if (mono) e[0] = (e[0] + e[1]) * 0.70710678118654752440; for (int ch = 0; ch < (mono ? 1 : 2); ch++) { double o = level(g, ch, i), tol = integer ? .5 / 32768 + 1e-7 : 1e-6; vsx_assert((o - e[ch] <= tol) & (o - e[ch] >= -tol), "the filtered signal at that time"); } } vsx_cover("resampled");
}
HARNESS(h_rs_dc) { // a constant stays the constant away from the ends, a silent clip silent
    startF(); const int *q = ratios[param("ratio", 0)]; int64_t N = 2000; float v = (float)vsx_range<int8_t>(-3, 3, "level") * .25f; VSNode *c = clip(afmt(stFloat, 32, 3), N, q[0]); Args a; a.clip("clip", c).i("samplerate", q[1]); VSNode *r = callNode("AudioResample", a); vsx_assert(r != nullptr, "made"); int n = ai(r)->numFrames / 2; Drive d; const VSFrame *g = d.run(r, n, constant, &v); shape(r, n, g); for (int ch = 0; ch < 2; ch++) for (int i = 0; i < FS; i++) { float o = fsmp(g, ch, i); vsx_assert((o - v < 1e-5f) & (o - v > -1e-5f), "the constant"); } vsx_cover("constant");
}
HARNESS(h_rs_length) { // every length
    startF(); const int *q = ratios[param("ratio", 0)]; int from = q[0], to = q[1]; int64_t N = vsx_any<int64_t>("len"); vsx_assume((N >= 1) & (N <= MAXS)); if (int b = param("qb", 0)) vsx_assume(N < 1ll << b); VSNode *c = clip(afmt(stInteger, 16, 3), N, from); Args a; a.clip("clip", c).i("samplerate", to); VSNode *r = callNode("AudioResample", a); bool fits = N * to <= MAXS * from; vsx_assert((r != nullptr) == fits, "refused exactly if too long"); if (!r) { vsx_cover("refused"); return; } int64_t O = ai(r)->numSamples; vsx_assert((O * from >= N * to) & ((O - 1) * from < N * to), "the scaled length, rounded up"); vsx_cover("made");
}
HARNESS(h_rs_args) {
    startF(); int k = (int)vsx_choice(6, "argument"); VSAudioFormat s = fmtK(param("af", 0), 3); VSNode *c = clip(s, 9); Args a; a.clip("clip", c); bool ok = true, same = true; int st = s.sampleType, bits = s.bitsPerSample, rate = 48000; int64_t N = 9; uint64_t lay = 3; int64_t v;
    switch (k) {
    case 0: { static const int64_t rs[] = { INT64_MIN, -1, 0, 48000, 24000, 750, 749, 1, 96001, INT64_MAX, 1ll << 32 }; static const int oks[] = { 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0 }; int i = (int)vsx_choice(11, "rate"); a.i("samplerate", rs[i]); ok = oks[i]; same = i == 3; rate = (int)rs[i]; N = i == 4 ? 5 : i == 5 ? 1 : 9; break; }
    case 1: v = vsx_any<int64_t>("sampletype"); a.i("sampletype", v); st = v ? stFloat : stInteger; bits = v ? 32 : bits; same = st == s.sampleType; break;
    case 2: v = vsx_any<int64_t>("bits"); a.i("bits", v); ok = s.sampleType == stFloat ? v == 32 : (v >= 16) & (v <= 32); bits = (int)sat(v); same = bits == s.bitsPerSample; break;
    case 3: { int n = 1 + (int)vsx_choice(3, "channels"); lay = 0; for (int i = 0; i < n; i++) { v = i == 0 ? vsx_any<int64_t>("channel") : (int64_t)vsx_choice(3, "channel") * 2; a.i("channels", v); if (!((v >= 0) & (v < 64))) { ok = false; continue; } v = i ? v : fork(v, 0, 63); if (lay >> v & 1) ok = false; lay |= 1ull << v; } same = lay == 3; break; }
    case 4: { static const char *const ds[] = { "none", "rectangular", "triangular", "", "None", "tri", "triangular " }; int i = (int)vsx_choice(7, "dither"); a.s("dither_type", ds[i]); ok = i < 3; break; }
    default: a.i("normalize", 1).i("overflow_error", 1); }
    VSNode *r = callNode("AudioResample", a); vsx_assert((r != nullptr) == ok, "exactly the possible conversions are accepted"); if (!r) { vsx_cover("refused"); return; } vsx_assert((r == c) == same, "the clip itself if nothing changes"); vsx_assert(ai(r)->numSamples == N && ai(r)->numFrames == ceilF(N) && ai(r)->sampleRate == rate && ai(r)->format.sampleType == st && ai(r)->format.bitsPerSample == bits && ai(r)->format.channelLayout == lay, "exactly what was asked for changes"); vsx_cover("accepted");
}
