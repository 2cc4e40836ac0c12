// vspipe: the whole program over a script stand-in, with recorded files, and its helpers.
#include "flt.h"
#include "VSScript4.h"
#include <map>
#include <set>
#include <list>
#include <mutex>
#include <condition_variable>
#include <algorithm>
#include <chrono>
#include <charconv>
#include <filesystem>
#include <cinttypes>
#include <cstring>
#include <string_view>
#include <signal.h>
#include <unistd.h>
#include <bitset>
#include <array>
#include <functional>
#ifndef VSX_NATIVE
extern "C" int vsx_fmt(char *buf, size_t n, unsigned long kind, unsigned long bits) noexcept;
extern "C" long vsx_parse_num(const char *s, int kind, void *out) noexcept;
static std::to_chars_result fixedChars(char *a, char *b, double v, unsigned long kind) { unsigned long u; memcpy(&u, &v, 8); int k = vsx_fmt(a, (size_t)(b - a), kind, u); if (k < 0) return { b, std::errc::value_too_large }; return { a + k, std::errc() }; }
namespace std {
inline to_chars_result vsx_to_chars(char *a, char *b, double v, chars_format) { return ::fixedChars(a, b, v, 8); }
inline to_chars_result vsx_to_chars(char *a, char *b, double v, chars_format, int p) { return ::fixedChars(a, b, v, 9 + p); }
}
#define to_chars vsx_to_chars
static double parseD(const char *s) { double d; vsx_parse_num(s, 1, &d); return d; }
#else
static double parseD(const char *s) { return strtod(s, nullptr); }
#endif
// ---- recorded files
struct VFile { uint8_t buf[8192]; size_t len; int writes, failAt; bool open, text; };
static VFile vout, verr, vfile[4]; static int opened; static int failWrite = -1;
static VFile *vf_open(const char *p, const char *) {
    vsx_assert(opened < 4, "files are opened once");
    if (!strcmp(p, "bad")) return nullptr;
    int i = !strcmp(p, "o") ? 0 : !strcmp(p, "t") ? 1 : !strcmp(p, "j") ? 2 : 3; VFile *f = &vfile[i]; vsx_assert(!f->open, "a file is opened once"); f->open = true; f->failAt = i == 0 ? failWrite : -1; opened++; return f;
}
static size_t vf_put(VFile *f, const void *p, size_t n) {
    vsx_check_range(p, n);
    if (f == &verr) { f->len += n; return n; }
    vsx_assert(f == &vout || f->open, "only open files are written");
    if (f->writes++ == f->failAt) return 0;
    if (f->len + n > sizeof f->buf) { vsx_fail("more is written than there is to output"); return n; }
    memcpy(f->buf + f->len, p, n); f->len += n; return n;
}
static size_t vf_write(const void *p, size_t s, size_t n, VFile *f) { return vf_put(f, p, s * n) / s; }
struct VArg { int kind; long long i; const char *s; };
static VArg va(const char *s) { return { 1, 0, s }; } static VArg va(char *s) { return { 1, 0, s }; } static VArg va(double) { return { 2, 0, nullptr }; }
static VArg va(int v) { return { 0, v, nullptr }; } static VArg va(long v) { return { 0, v, nullptr }; } static VArg va(long long v) { return { 0, v, nullptr }; } static VArg va(size_t v) { return { 0, (long long)v, nullptr }; }
template <class... A> static int vf_print(VFile *f, const char *fmt, A... a) {
    VArg v[] = { VArg{}, va(a)... }; size_t k = 1; std::string o;
    for (; *fmt; fmt++) {
        if (*fmt != '%') { o += *fmt; continue; }
        if (*++fmt == '%') { o += '%'; continue; }
        while (!strchr("sdiuf", *fmt)) fmt++;
        const VArg &x = v[k++]; if (x.kind == 1) o += x.s; else if (x.kind == 2) o += '#'; else if (f == &verr) o += '#'; else o += std::to_string(x.i);
    }
    vsx_assert(k == sizeof v / sizeof *v, "every argument of a format is printed");
    return vf_put(f, o.data(), o.size()) == o.size() ? (int)o.size() : -1;
}
static int vf_close(VFile *f) { vsx_assert(f->open, "an open file is closed once"); f->open = false; return 0; }
#undef stdout
#undef stderr
#undef errno
#define FILE VFile
#define fopen vf_open
#define fwrite vf_write
#define fprintf vf_print
#define printf(...) vf_print(&vout, __VA_ARGS__)
#define fflush(f) 0
#define fclose vf_close
#define stdout (&vout)
#define stderr (&verr)
#define errno 0
#define sigemptyset(x) 0
#define sigaction(a, b, c) 0
#define main vspipe_main
#define doubleToString jsonDoubleToString
#include "vspipe/vsjson.cpp"
#undef doubleToString
#include "vspipe/printgraph.cpp"
#include "common/wave.cpp"
#include "vspipe/vspipe.cpp"
#undef main
#undef sigaction
// ---- the script: one video or audio output, possibly with alpha
struct Px { VSVideoInfo vi; VSAudioInfo ai; bool audio; std::vector<const VSFrame *> fr; std::vector<std::vector<uint8_t>> bytes; int failAt, asked[8]; };
static int made, freed, coresFreed; static Px *mainPx, *alphaPx; static VSNode *mainNode, *alphaNode; static VSAPI myApi; static int nthreads; static const VSMap *gotVars; static int scriptFails, scriptsFreed;
static void VS_CC pxFree(void *inst, VSCore *, const VSAPI *a) { Px *p = (Px *)inst; for (auto f : p->fr) a->freeFrame(f); p->fr.clear(); freed++; }
static const VSFrame *VS_CC pxGet(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *a) {
    Px *p = (Px *)inst; if (reason != arInitial) return nullptr;
    vsx_assert(n >= 0 && n < (int)p->fr.size(), "only frames of the clip are requested"); p->asked[n & 7]++;
    vsx_yield();
    if (n == p->failAt) { a->setFilterError("bang", ctx); return nullptr; }
    return a->addFrameRef(p->fr[n]);
}
static int64_t durN[4] = { 1, 1, 3, 1 }, durD[4] = { 4, 2, 8, 8 }; static int noDur = -1;
static VSNode *mkVideo(Px *p, uint32_t id, int w, int h, int frames, int tag) {
    p->vi.format = fmtOf(id); p->vi.width = w; p->vi.height = h; p->vi.numFrames = frames; p->vi.fpsNum = 24; p->vi.fpsDen = 1; p->failAt = -1;
    int np = p->vi.format.numPlanes, bps = p->vi.format.bytesPerSample;
    for (int i = 0; i < frames; i++) {
        VSFrame *f = api->newVideoFrame(&p->vi.format, w, h, nullptr, core); fillAny(f, "px");
        VSMap *m = api->getFramePropertiesRW(f); api->mapSetInt(m, "idx", i * 10 + tag, maReplace);
        if (i != noDur) { api->mapSetInt(m, "_DurationNum", durN[i & 3], maReplace); api->mapSetInt(m, "_DurationDen", durD[i & 3], maReplace); }
        std::vector<uint8_t> b; static const int gbr[] = { 1, 2, 0 };
        for (int q = 0; q < np; q++) { int pl = p->vi.format.colorFamily == cfRGB ? gbr[q] : q; for (int y = 0; y < api->getFrameHeight(f, pl); y++) { const uint8_t *r = row(f, pl, y); b.insert(b.end(), r, r + api->getFrameWidth(f, pl) * bps); } }
        p->fr.push_back(f); p->bytes.push_back(b);
    }
    made++; return api->createVideoFilter2("source", &p->vi, pxGet, pxFree, fmParallel, nullptr, 0, p, core);
}
static VSNode *mkAudio(Px *p, int flt, int bits, uint64_t layout, int samples) {
    p->audio = true; p->failAt = -1; vsx_assert(api->queryAudioFormat(&p->ai.format, flt, bits, layout, core), "audio format"); p->ai.sampleRate = 44100; p->ai.numSamples = samples; p->ai.numFrames = (samples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES;
    int ch = p->ai.format.numChannels, bps = p->ai.format.bytesPerSample, ob = (bits + 7) / 8;
    for (int i = 0; i < p->ai.numFrames; i++) {
        int len = std::min(samples - i * VS_AUDIO_FRAME_SAMPLES, VS_AUDIO_FRAME_SAMPLES); VSFrame *f = api->newAudioFrame(&p->ai.format, len, nullptr, core); std::vector<uint8_t> b;
        for (int c = 0; c < ch; c++) vsx_symbolic(api->getWritePtr(f, c), len, bps, "s");
        for (int s = 0; s < len; s++) for (int c = 0; c < ch; c++) { const uint8_t *r = api->getReadPtr(f, c) + s * bps; b.insert(b.end(), r + bps - ob, r + bps); }
        p->fr.push_back(f); p->bytes.push_back(b);
    }
    made++; return api->createAudioFilter2("source", &p->ai, pxGet, pxFree, fmParallel, nullptr, 0, p, core);
}
static const uint32_t pfmts[] = { pfGray8, pfYUV420P8, pfRGB24, pfGray16, pfYUV444PS, pfYUV422P10, pfRGBS, pfYUV411P8, pfYUV410P8, pfYUV440P8, pfGrayS, pfYUV444PH, pfYUV420P16 };
static const char *const y4mId[] = { "mono", "420", nullptr, "mono16", "444ps", "422p10", nullptr, "411", "410", "440", nullptr, "444ph", "420p16" };
static const VSAPI *VS_CC s_api(int) noexcept { return &myApi; }
static VSCore *VS_CC my_create(int flags) noexcept { core = getVapourSynthAPI(VAPOURSYNTH_API_VERSION)->createCore(flags | ccfDisableAutoLoading); api->setThreadCount(nthreads, core); return core; }
static void VS_CC my_free(VSCore *c) noexcept { coresFreed++; api->freeCore(c); }
static VSScript *VS_CC s_create(VSCore *c) noexcept { vsx_assert(c == core, "the script gets the created core"); return (VSScript *)&mainPx; }
static VSCore *VS_CC s_core(VSScript *) noexcept { return core; }
static int VS_CC s_eval(VSScript *, const char *f) noexcept {
    vsx_assert(!strcmp(f, "s.vpy"), "the named script is evaluated");
    if (scriptFails) return 1;
    mainPx = new Px(); alphaPx = nullptr; mainNode = alphaNode = nullptr;
    int frames = (int)vsx_param("frames", 3);
    if (vsx_param("audio", 0)) mainNode = mkAudio(mainPx, (int)vsx_param("flt", 0), (int)vsx_param("bits", 16), (uint64_t)vsx_param("layout", 3), (int)vsx_param("samples", 6));
    else {
        mainNode = mkVideo(mainPx, pfmts[vsx_param("fmt", 0)], (int)vsx_param("w", 3), (int)vsx_param("h", 2), frames, 0);
        if (vsx_param("alpha", 0)) { alphaPx = new Px(); alphaNode = mkVideo(alphaPx, pfGray8, (int)vsx_param("w", 3), (int)vsx_param("h", 2), frames, 1); }
    }
    int fail = (int)vsx_param("fail", 0); // 1: some frame of the clip, 2: some frame of its alpha
    if (fail) (fail == 2 ? alphaPx : mainPx)->failAt = (int)vsx_choice(fail == 3 ? 1 : (uint32_t)(fail == 2 ? alphaPx : mainPx)->fr.size(), "failAt");
    vsx_explore(1);
    return 0;
}
static const char *VS_CC s_err(VSScript *) noexcept { return scriptFails ? "no" : nullptr; }
static int VS_CC s_exit(VSScript *) noexcept { return scriptFails - 1; }
static int VS_CC s_setvars(VSScript *, const VSMap *m) noexcept { VSMap *c = api->createMap(); api->copyMap(m, c); gotVars = c; return 0; }
static VSNode *VS_CC s_node(VSScript *, int i) noexcept { return i == (int)vsx_param("index", 0) ? api->addNodeRef(mainNode) : nullptr; }
static VSNode *VS_CC s_alpha(VSScript *, int i) noexcept { return i == (int)vsx_param("index", 0) && alphaNode ? api->addNodeRef(alphaNode) : nullptr; }
static int VS_CC s_alt(VSScript *, int) noexcept { return 0; }
static void VS_CC s_free(VSScript *) noexcept { scriptsFreed++; vsx_explore(0); if (mainNode) api->freeNode(mainNode); if (alphaNode) api->freeNode(alphaNode); api->freeCore(core); }
static void VS_CC s_wd(VSScript *, int) noexcept {}
static int VS_CC s_avail(VSScript *, int n, int *d) noexcept { if (n && d) d[0] = (int)vsx_param("index", 0); return 1; }
static VSSCRIPTAPI script;
extern "C" const VSSCRIPTAPI *getVSScriptAPI(int) noexcept { return &script; }
extern "C" const char *getVSScriptAPILastError() noexcept { return ""; }
static void pipeSetup() {
    vout.failAt = -1; api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION); myApi = *api; myApi.createCore = my_create; myApi.freeCore = my_free; nthreads = (int)vsx_param("threads", 1);
    script.getVSAPI = s_api; script.createScript = s_create; script.getCore = s_core; script.evaluateFile = s_eval; script.getError = s_err; script.getExitCode = s_exit; script.setVariables = s_setvars; script.getOutputNode = s_node; script.getOutputAlphaNode = s_alpha; script.getAltOutputMode = s_alt; script.freeScript = s_free; script.evalSetWorkingDir = s_wd; script.getAvailableOutputNodes = s_avail;
}
struct Cmd { std::vector<std::string> a; std::vector<char *> p; Cmd() { a.push_back("vspipe"); } Cmd &operator()(const std::string &s) { a.push_back(s); return *this; } int run() { for (auto &s : a) p.push_back(&s[0]); p.push_back(nullptr); return vspipe_main((int)a.size(), p.data()); } };
static void afterwards() {
    vsx_explore(0);
    vsx_assert(made == freed, "every node is released in the end");
    vsx_assert(scriptsFreed == 1, "the script is released once");
}
// the bytes of frames first .. last (main frame, then alpha frame), each with its header
static std::vector<size_t> cuts; // output length after each frame
static std::vector<uint8_t> expected(const std::string &head, bool frameHead, int first, int last) {
    std::vector<uint8_t> o(head.begin(), head.end()); cuts.push_back(o.size());
    for (int i = first; i <= last; i++) {
        if (frameHead) for (char c : { 'F', 'R', 'A', 'M', 'E', '\n' }) o.push_back((uint8_t)c);
        o.insert(o.end(), mainPx->bytes[i].begin(), mainPx->bytes[i].end()); if (alphaPx) o.insert(o.end(), alphaPx->bytes[i].begin(), alphaPx->bytes[i].end());
        cuts.push_back(o.size());
    }
    return o;
}
static void eqBytes(const VFile &f, const std::vector<uint8_t> &e, const char *msg) { vsx_assert(f.len == e.size(), msg); if (!e.empty()) vsx_assert_eqmem(f.buf, e.data(), e.size(), 1, msg); }
static std::string u(int64_t v) { return std::to_string(v); }
static void le(std::vector<uint8_t> &o, uint64_t v, int n) { for (int i = 0; i < n; i++) o.push_back((uint8_t)(v >> (8 * i))); }
static void tag(std::vector<uint8_t> &o, const char *s) { o.insert(o.end(), s, s + 4); }
static void guid(std::vector<uint8_t> &o, const char *s, bool first) { tag(o, s); static const uint8_t r[12] = { 0x2E, 0x91, 0xCF, 0x11, 0xA5, 0xD6, 0x28, 0xDB, 0x04, 0xC1, 0, 0 }, q[12] = { 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A }; o.insert(o.end(), first ? r : q, (first ? r : q) + 12); }
static void wfx(std::vector<uint8_t> &o, int flt, int bits, uint32_t rate, uint32_t mask, int ch) {
    int ob = (bits + 7) / 8; le(o, 0xFFFE, 2); le(o, ch, 2); le(o, rate, 4); le(o, (uint32_t)(rate * (uint32_t)(ch * ob)), 4); le(o, ch * ob, 2); le(o, ob * 8, 2); le(o, 22, 2); le(o, bits, 2); le(o, mask, 4);
    static const uint8_t g[14] = { 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71 }; le(o, flt ? 3 : 1, 2); o.insert(o.end(), g, g + 14);
}
static std::vector<uint8_t> wavHead(bool w64, int flt, int bits, uint32_t rate, uint32_t mask, int ch, uint64_t samples) {
    std::vector<uint8_t> o; uint64_t data = samples * (uint64_t)(ch * ((bits + 7) / 8));
    if (w64) { guid(o, "riff", true); le(o, data + 128, 8); guid(o, "wave", false); guid(o, "fmt ", false); le(o, 64, 8); wfx(o, flt, bits, rate, mask, ch); guid(o, "data", false); le(o, data + 24, 8); }
    else { tag(o, "RIFF"); le(o, data + 60, 4); tag(o, "WAVE"); tag(o, "fmt "); le(o, 40, 4); wfx(o, flt, bits, rate, mask, ch); tag(o, "data"); le(o, data, 4); }
    return o;
}
static int popc(uint64_t v) { int k = 0; for (; v; v &= v - 1) k++; return k; }
// the whole program: any clip, header, range and request count, any schedule
HARNESS(h_pipe) {
    pipeSetup();
    bool audio = vsx_param("audio", 0); int head = (int)vsx_param("head", 0), fmt = (int)vsx_param("fmt", 0), frames = (int)vsx_param("frames", 3), idx = (int)vsx_param("index", 0), extra = (int)vsx_param("files", 0), range = (int)vsx_param("range", 0), fail = (int)vsx_param("fail", 0), reqs = (int)vsx_param("reqs", 0);
    noDur = (int)vsx_param("nodur", -1); failWrite = (int)vsx_param("failwrite", -1);
    Cmd c; int len = audio ? (int)vsx_param("samples", 6) : frames, first = 0, last = len - 1; bool ok = true;
    static const char *const heads[] = { nullptr, "y4m", "wav", "w64" };
    if (head) c("-c")(heads[head]);
    if (range & 1) { uint32_t d = vsx_choice((uint32_t)len + 2, "start"); c("--start")(u(d)); first = (int)d; }
    if (range & 2) { uint32_t d = vsx_choice((uint32_t)len + 2, "end"); c("-e")(u(d)); last = (int)d; }
    if (reqs) c("--requests")(u(reqs));
    if (idx) c("-o")(u(idx));
    if (vsx_param("progress", 0)) c("-p");
    if (extra & 1) c("-t")("t"); if (extra & 2) c("--json")("j");
    bool none = vsx_param("none", 0);
    c("s.vpy")(none ? "--" : "o");
    int rc = c.run();
    afterwards();
    if (first > last || first >= len || last >= len) ok = false;
    if (head == 1 && (audio || !y4mId[fmt] || alphaPx)) ok = false;
    if (head >= 2 && !audio) ok = false;
    if (!ok) { vsx_assert(rc == 1 && vfile[0].len == 0 && verr.len, "what cannot be output is refused with a message before anything is written"); vsx_cover("refused"); return; }
    std::string h; std::vector<uint8_t> e;
    if (head == 1) h = std::string("YUV4MPEG2 C") + y4mId[fmt] + " W" + u(mainPx->vi.width) + " H" + u(mainPx->vi.height) + " F24:1 Ip A0:0 XLENGTH=" + u(last - first + 1) + "\n";
    if (audio) {
        if (head >= 2) e = wavHead(head == 3, mainPx->ai.format.sampleType == stFloat, mainPx->ai.format.bitsPerSample, 44100, (uint32_t)mainPx->ai.format.channelLayout, mainPx->ai.format.numChannels, (uint64_t)(last - first + 1));
        cuts.push_back(e.size()); int per = mainPx->ai.format.numChannels * ((mainPx->ai.format.bitsPerSample + 7) / 8), at = 0;
        for (auto &b : mainPx->bytes) for (size_t s = 0; s < b.size() / per; s++, at++) if (at >= first && at <= last) { e.insert(e.end(), b.begin() + s * per, b.begin() + (s + 1) * per); if ((at - first) % VS_AUDIO_FRAME_SAMPLES == VS_AUDIO_FRAME_SAMPLES - 1 || at == last) cuts.push_back(e.size()); }
    } else e = expected(h, head == 1, first, last);
    bool bad = fail || failWrite >= 0 || (noDur >= 0 && (extra & 1));
    if (!bad) {
        vsx_assert(rc == 0, "complete output is reported as success");
        if (none) vsx_assert(opened == (extra & 1) + (extra >> 1), "nothing is written without an output file"); else eqBytes(vfile[0], e, "the output holds every sample of every frame once, in order");
        if (!audio && !range) for (Px *p : { mainPx, alphaPx }) if (p) for (int i = 0; i < frames; i++) vsx_assert(p->asked[i] == 1, "every frame is requested once");
        if (extra & 1) {
            std::string t = "# timecode format v2\n"; double ms = 0;
            for (int i = first; i <= last; i++) { t += u((int64_t)ms) + ".00000000000000000000\n"; ms += 1000.0 * (double)durN[i & 3] / (double)durD[i & 3]; }
            eqBytes(vfile[1], std::vector<uint8_t>(t.begin(), t.end()), "the timecodes are the times at which the frames start");
        }
        if (extra & 2) {
            std::string t = "[\n";
            for (int i = first; i <= last; i++) t += "\t{\"_DurationDen\": " + u(durD[i & 3]) + ", \"_DurationNum\": " + u(durN[i & 3]) + ", \"idx\": " + u(i * 10) + "}" + (i == last ? "\n" : ",\n");
            t += "]\n"; eqBytes(vfile[2], std::vector<uint8_t>(t.begin(), t.end()), "the JSON file lists the properties of every frame in order");
        }
        vsx_cover("complete");
    } else {
        vsx_assert(rc == 1 && verr.len, "a failure is reported");
        bool whole = failWrite >= 0; int at = fail == 2 ? alphaPx->failAt : fail ? mainPx->failAt : noDur >= 0 && (extra & 1) ? noDur + 1 : 0; size_t n = vfile[0].len;
        vsx_assert(n <= e.size(), "at most the expected output is written");
        if (!whole) { bool cut = false; for (int i = 0; i <= at && i < (int)cuts.size(); i++) cut = cut || cuts[i] == n; vsx_assert(cut, "only whole frames before the failed one are written"); }
        if (n) vsx_assert_eqmem(vfile[0].buf, e.data(), n, 1, "what was written is the start of the complete output");
        vsx_cover("failed");
    }
}
// every command line number of up to n characters
HARNESS(h_number) {
    int n = (int)vsx_param("n", 3), big = (int)vsx_param("big", 0); char s[32]; const char *pre = big == 1 ? "92233720368547758" : big == 2 ? "-92233720368547758" : big == 3 ? "21474836" : big == 4 ? "-21474836" : ""; size_t k = strlen(pre); memcpy(s, pre, k);
    for (int i = 0; i < n; i++) { s[k + i] = vsx_any<char>("ch"); if (big) vsx_assume((s[k + i] >= '0') & (s[k + i] <= '9')); }
    size_t L = k + n; bool neg = L && s[0] == '-', num = L > (neg ? 1u : 0u); unsigned __int128 v = 0; bool over = false;
    for (size_t i = neg; i < L; i++) { if (s[i] < '0' || s[i] > '9') { num = false; break; } if (!big || i >= k) v = v * 10 + (unsigned)(s[i] - '0'); else v = v * 10 + (unsigned)(pre[i] - '0'); }
    bool narrow = big == 3 || big == 4; 
    uint64_t lim = narrow ? 0x7fffffffull : 0x7fffffffffffffffull; if (num) over = v > (unsigned __int128)lim + neg;
    bool ok; int64_t got = 77;
    if (narrow) { int r = 77; ok = svToInt(std::string_view(s, L), r); got = r; } else ok = svToInt64(std::string_view(s, L), got);
    vsx_assert(ok == (num && !over), "exactly decimal numbers in range are accepted");
    if (ok) vsx_assert(got == (neg ? (int64_t)(0 - (uint64_t)v) : (int64_t)(uint64_t)v), "a number has its value");
    if (ok) vsx_cover("number"); else vsx_cover("refused");
}
// wave headers: any rate, length and channels
HARNESS(h_wave) {
    int bits = (int)vsx_param("bits", 16), flt = (int)vsx_param("flt", 0); bool w64 = vsx_param("w64", 0);
    uint32_t rate = vsx_any<uint32_t>("rate"); uint64_t mask = (uint64_t)vsx_param("mask", 3), samples = vsx_any<uint64_t>("samples"); vsx_assume(samples <= 0x7fffffffull * VS_AUDIO_FRAME_SAMPLES); vsx_assume(rate <= 0x7fffffff);
    int ch = popc(mask); uint64_t per = (uint64_t)ch * ((bits + 7) / 8); bool high = mask >> 32;
    bool fits = w64 || samples * per + 68 <= 0xFFFFFFFEull;
    if (w64) { Wave64Header hd; bool ok = CreateWave64Header(hd, flt, bits, (int)rate, mask, (int64_t)samples); vsx_assert(ok == !high, "exactly representable layouts get a header"); if (ok) { auto e = wavHead(true, flt, bits, rate, (uint32_t)mask, ch, samples); vsx_assert(e.size() == sizeof hd, "header size"); vsx_assert_eqmem(&hd, e.data(), e.size(), 1, "the w64 header describes the clip"); vsx_cover("ok"); } else vsx_cover("refused"); }
    else { WaveHeader hd; bool ok = CreateWaveHeader(hd, flt, bits, (int)rate, mask, (int64_t)samples); vsx_assert(ok == (fits & !high), "exactly what fits into a wav file gets a header"); if (ok) { auto e = wavHead(false, flt, bits, rate, (uint32_t)mask, ch, samples); vsx_assert(e.size() == sizeof hd, "header size"); vsx_assert_eqmem(&hd, e.data(), e.size(), 1, "the wav header describes the clip"); vsx_cover("ok"); } else vsx_cover("refused"); }
}
// ---- JSON
static const char *jp, *je; static bool jbad;
static void jexpect(const char *t) { size_t k = strlen(t); if ((size_t)(je - jp) < k || memcmp(jp, t, k)) jbad = true; else jp += k; }
static std::string jstring() {
    std::string o; jexpect("\"");
    while (!jbad && jp < je && *jp != '"') {
        unsigned char c = (unsigned char)*jp++;
        if (c < 0x20) { jbad = true; break; }
        if (c != '\\') { o += (char)c; continue; }
        if (jp >= je) { jbad = true; break; }
        char e = *jp++;
        if (e == 'n') o += '\n'; else if (e == 't') o += '\t'; else if (e == 'r') o += '\r'; else if (e == 'b') o += '\b'; else if (e == 'f') o += '\f'; else if (e == '"' || e == '\\' || e == '/') o += e;
        else if (e == 'u') { unsigned v = 0; for (int i = 0; i < 4; i++) { if (jp >= je) { jbad = true; break; } unsigned char d = (unsigned char)*jp++; unsigned x = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : 99; if (x == 99) { jbad = true; break; } v = v * 16 + x; } if (v > 0x7f) jbad = true; o += (char)v; }
        else jbad = true;
    }
    jexpect("\""); return o;
}
// a number of the JSON grammar
static double jnumber() {
    const char *b = jp; if (jp < je && *jp == '-') jp++;
    const char *d = jp; while (jp < je && *jp >= '0' && *jp <= '9') jp++;
    if (jp == d || (*d == '0' && jp - d > 1)) jbad = true;
    if (jp < je && *jp == '.') { d = ++jp; while (jp < je && *jp >= '0' && *jp <= '9') jp++; if (jp == d) jbad = true; }
    if (jp < je && (*jp == 'e' || *jp == 'E')) { jp++; if (jp < je && (*jp == '+' || *jp == '-')) jp++; d = jp; while (jp < je && *jp >= '0' && *jp <= '9') jp++; if (jp == d) jbad = true; }
    return parseD(std::string(b, jp).c_str());
}
static const double dvals[] = { 0, 0.5, -1.25, 1e300, -1e300, 5e-324, 0.1, 1.0 / 3, 123456789.125, __builtin_inf(), -__builtin_inf(), __builtin_nan(""), 1e22, -2.2250738585072014e-308 };
HARNESS(h_json) {
    setup(0, 1); int kind = (int)vsx_param("kind", 0), n = (int)vsx_param("n", 1), chars = (int)vsx_param("chars", 2); VSMap *m = api->createMap(); std::vector<double> dv; std::vector<int64_t> iv; std::vector<std::string> sv; int hint = 0;
    api->mapSetInt(m, "a", 5, maReplace);
    if (kind == 0) for (int i = 0; i < n; i++) { int64_t v = vsx_range<int64_t>(-12, 120, "v"); api->mapSetInt(m, "k", v, maAppend); iv.push_back(v); }
    if (kind == 1) for (int i = 0; i < n; i++) { double v = dvals[vsx_choice(sizeof dvals / 8, "v")]; api->mapSetFloat(m, "k", v, maAppend); dv.push_back(v); }
    if (kind == 2) { hint = (int)vsx_choice(3, "hint") - 1; for (int i = 0; i < n; i++) { std::string s = "ab"; for (int c = 0; c < chars; c++) s += vsx_any<char>("c"); s += "y"; api->mapSetData(m, "k", s.data(), (int)s.size(), hint, maAppend); sv.push_back(s); } }
    if (kind == 3) for (int i = 0; i < n; i++) { VSFrame *f = api->newAudioFrame([] { static VSAudioFormat a; api->queryAudioFormat(&a, stInteger, 16, 3, core); return &a; }(), 4, nullptr, core); api->mapConsumeFrame(m, "k", f, maAppend); }
    if (kind == 4) api->mapSetEmpty(m, "k", ptInt);
    if (kind == 5) { std::string s(vsx_choice(2, "long") ? 200 : 199, 'x'); hint = dtUnknown; api->mapSetData(m, "k", s.data(), (int)s.size(), hint, maAppend); sv.push_back(s); n = 1; }
    api->mapSetInt(m, "z", 7, maReplace);
    std::string o = convertVSMapToJSON(m, &*api); jp = o.data(); je = jp + o.size();
    jexpect("{\"a\": 5, \"k\": ");
    if (kind == 4) n = 0, jexpect("null");
    if (n > 1) jexpect("[");
    for (int i = 0; i < n && !jbad; i++) {
        if (i) jexpect(", ");
        if (kind == 0) { double d = 0; bool neg = jp < je && *jp == '-'; if (neg) jp++; int64_t v = 0; const char *b = jp; while (jp < je && *jp >= '0' && *jp <= '9') v = v * 10 + (*jp++ - '0'); (void)d; vsx_assert(jp > b && (neg ? -v : v) == iv[i], "an integer is written with its value"); }
        if (kind == 1) { if (dv[i] - dv[i] != 0) jexpect("null"); else { double d = jnumber(); vsx_assert(!jbad && d == dv[i], "a number is written with its value"); } }
        if (kind == 2 || kind == 5) {
            bool printable = sv[i].size() < 200; for (char c : sv[i]) printable = printable && c >= 0x20 && c <= 0x7e;
            std::string r = jstring(); bool text = hint == dtUtf8 || (hint == dtUnknown && printable);
            if (text) vsx_assert(!jbad && r.size() == sv[i].size() && !memcmp(r.data(), sv[i].data(), r.size()), "text is written so that it reads back unchanged");
            else vsx_assert(!jbad && r == "[binary data size: " + u((int64_t)sv[i].size()) + "]", "other data are named by their size");
        }
        if (kind == 3) jexpect("null");
    }
    if (n > 1) jexpect("]");
    jexpect(", \"z\": 7}"); vsx_assert(!jbad && jp == je, "the properties are valid JSON");
    api->freeMap(m); vsx_cover("json");
}
// --info
HARNESS(h_info) {
    pipeSetup(); Cmd c; bool toFile = vsx_choice(2, "file"); c("-i")("s.vpy"); if (toFile) c("o");
    int rc = c.run(); afterwards(); vsx_assert(rc == 0, "information is printed");
    VFile &f = toFile ? vfile[0] : vout; std::string e = "Output Index: " + u(vsx_param("index", 0)) + "\n"; char nm[32];
    if (mainPx->audio) { const VSAudioFormat &a = mainPx->ai.format; api->getAudioFormatName(&a, nm); e += "Type: Audio\nSamples: " + u(mainPx->ai.numSamples) + "\nSample Rate: 44100\nFormat Name: " + nm + "\nSample Type: " + (a.sampleType == stFloat ? "Float" : "Integer") + "\nBits: " + u(a.bitsPerSample) + "\nChannels: " + u(a.numChannels) + "\nLayout: " + (a.channelLayout == 3 ? "Front Left, Front Right" : a.channelLayout == 4 ? "Center" : "?") + "\n"; }
    else { const VSVideoFormat &v = mainPx->vi.format; api->getVideoFormatName(&v, nm); e += "Type: Video\nWidth: " + u(mainPx->vi.width) + "\nHeight: " + u(mainPx->vi.height) + "\nFrames: " + u(mainPx->vi.numFrames) + "\nFPS: 24/1 (# fps)\nFormat Name: " + nm + "\nColor Family: " + (v.colorFamily == cfGray ? "Gray" : v.colorFamily == cfRGB ? "RGB" : "YUV") + "\nAlpha: " + (alphaPx ? "Yes" : "No") + "\nSample Type: " + (v.sampleType == stFloat ? "Float" : "Integer") + "\nBits: " + u(v.bitsPerSample) + "\nSubSampling W: " + u(v.subSamplingW) + "\nSubSampling H: " + u(v.subSamplingH) + "\n"; }
    if (vsx_param("dbg", 0)) { for (size_t i = 0; i < f.len; i++) if (i >= e.size() || e[i] != (char)f.buf[i]) { vsx_print(e.substr(i).c_str(), i); break; } f.buf[f.len] = 0; vsx_print((char *)f.buf, f.len); }
    eqBytes(f, std::vector<uint8_t>(e.begin(), e.end()), "the information describes the output"); vsx_cover("info");
}
// other command lines
HARNESS(h_args) {
    pipeSetup(); static const struct { const char *a[6]; int rc; } t[] = {
        { { "-s" }, 1 }, { { "-e", "x", "s.vpy", "o" }, 1 }, { { "-s", "-1", "s.vpy", "o" }, 1 }, { { "-e", "-2", "s.vpy", "o" }, 1 }, { { "-s", "", "s.vpy", "o" }, 1 }, { { "-r", "1x", "s.vpy", "o" }, 1 }, { { "-o", "3000000000", "s.vpy", "o" }, 1 }, { { "-s", "99999999999999999999", "s.vpy", "o" }, 1 },
        { { "-c", "avi", "s.vpy", "o" }, 1 }, { { "-g", "tiny", "s.vpy", "o" }, 1 }, { { "-a", "novalue", "s.vpy", "o" }, 1 }, { { "s.vpy" }, 1 }, { { "--bogus", "s.vpy", "o" }, 1 }, { { "-v", "s.vpy" }, 1 }, { { "-i", "-g", "full", "s.vpy" }, 1 }, { { "-g", "full", "-i", "s.vpy" }, 1 }, { { "s.vpy", "o", "more" }, 1 }, { { "-j", "bad", "s.vpy", "--" }, 1 }, { { "s.vpy", "bad" }, 1 }, { { "-h" }, 0 }, { { nullptr }, 0 } };
    uint32_t k = vsx_choice(sizeof t / sizeof *t, "line"); Cmd c; for (const char *s : t[k].a) if (s) c(s);
    int rc = c.run(); vsx_assert(rc == t[k].rc && verr.len && !made && !vfile[0].len, "an unusable command line is refused before the script runs"); vsx_cover("line");
}
HARNESS(h_script) {
    pipeSetup(); Cmd c; bool twice = vsx_choice(2, "twice"); scriptFails = (int)vsx_param("err", 0) ? 1 + (int)vsx_choice(3, "code") : 0;
    c("-a")("x=1=2"); if (twice) c("--arg")("y="); c("s.vpy")("o"); if (vsx_param("wrong", 0)) c("-o")("5");
    int rc = c.run(); vsx_explore(0); vsx_assert(scriptsFreed == 1 && made == freed, "everything is released in the end");
    vsx_assert(gotVars && api->mapNumKeys(gotVars) == 1 + twice && !strcmp(api->mapGetData(gotVars, "x", 0, nullptr), "1=2") && (!twice || api->mapGetDataSize(gotVars, "y", 0, nullptr) == 0), "the script gets the given arguments");
    vsx_assert(rc == (scriptFails ? std::max(1, scriptFails - 1) : vsx_param("wrong", 0) ? 1 : 0), "the exit code tells whether the script worked"); vsx_cover("script");
}
