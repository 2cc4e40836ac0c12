// The text filters
#include "pix.h"
#include "ter-116n.h"
static const VSFrame *pattern(VSNode *node, int n, void *ud) {
    if (param("sym", 0)) return anyFrame(node, n, ud);
    const VSVideoInfo *v = vi(node); VSFrame *f = api->newVideoFrame(&v->format, v->width, v->height, nullptr, core); for (int p = 0; p < v->format.numPlanes; p++) for (int y = 0; y < ph(f, p); y++) for (int x = 0; x < pw(f, p); x++) put(f, p, x, y, (x * 7 + y * 13 + p * 31 + n) & 127);
    api->mapSetInt(api->getFramePropertiesRW(f), "idx", n, maReplace); return f;
}
// a white (1) or black (0) letter sample, or none (-1)
struct Canvas { int w, h; std::vector<signed char> px; signed char &at(int x, int y) { return px[(size_t)y * w + x]; } };
static void typeset(Canvas &k, const std::string &text, int al, int sc) {
    std::vector<std::string> lines(1); for (size_t i = 0; i < text.size(); i++) { unsigned char c = (unsigned char)text[i]; if (c == '\r' && i + 1 < text.size() && text[i + 1] == '\n') continue; if (c == '\r' || c == '\n') { lines.emplace_back(); continue; } static const unsigned char gaps[] = { 129, 141, 143, 144, 157 }; int at = c; bool gap = c < 32; for (unsigned char g : gaps) { gap = gap || c == g; if (c > g) at--; } lines.back() += (char)(gap ? '_' : at); }
    size_t cols = (size_t)((k.w - 32) / (8 * sc)), rows = (size_t)((k.h - 32) / (16 * sc)); std::vector<std::string> out; for (auto &l : lines) { size_t at = 0; do { out.push_back(l.substr(at, cols)); at += cols; } while (at < l.size()); } if (out.size() > rows) out.resize(rows);
    int tall = (int)out.size() * 16 * sc, y0 = al >= 7 ? 16 : al >= 4 ? (k.h - tall) / 2 : k.h - tall - 16; for (size_t r = 0; r < out.size(); r++) { int wide = (int)out[r].size() * 8 * sc, x0 = al % 3 == 1 ? 16 : al % 3 == 2 ? (k.w - wide) / 2 : k.w - wide - 16; for (int y = 0; y < 16 * sc; y++) for (int x = 0; x < wide; x++) k.at(x0 + x, y0 + (int)r * 16 * sc + y) = __font_bitmap__[(unsigned char)out[r][x / (8 * sc)] * 16 + y / sc] >> (7 - x / sc % 8) & 1; }
}
static const char *const texts[] = { "A", "Wrapping of long lines", "a\nb", "x\r\ny\rz\n", "", "\n\n", "\x81\xff\x9e\x80\x07", "ab\n\ncdefghijkl", "123456" };
static void drawn(VSNode *c, const VSFrame *g, const VSFrame *s, const std::string &text, int al, int sc) {
    const VSVideoFormat *f = api->getVideoFrameFormat(s); Canvas k; k.w = pw(s, 0); k.h = ph(s, 0); k.px.assign((size_t)k.w * k.h, -1); typeset(k, text, al, sc); int inked = 0; for (int p = 0; p < f->numPlanes; p++) { bool letters = p == 0 || f->colorFamily == cfRGB; int W = pw(s, p), H = ph(s, p); std::vector<char> box((size_t)W * H, 0); if (!letters) for (int y = 0; y < k.h; y++) for (int x = 0; x < k.w; x++) if (k.at(x, y) >= 0) box[(size_t)(y >> f->subSamplingH) * W + (x >> f->subSamplingW)]++;
        int all = 1 << (f->subSamplingW + f->subSamplingH); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int m = letters ? k.at(x, y) : box[(size_t)y * W + x] ? (box[(size_t)y * W + x] == all ? 2 : 3) : -1; if (m == 3) continue; // only partly covered chroma
            if (m < 0) { vsx_assert_eqmem(row(g, p, y) + x * f->bytesPerSample, row(s, p, y) + x * f->bytesPerSample, 1, f->bytesPerSample, "nothing else changes"); continue; } inked++; if (f->sampleType == stFloat) vsx_assert(fpx(g, p, x, y) == (m == 2 ? 0 : m), "the letters"); else vsx_assert((int)ipx(g, p, x, y) == (m == 2 ? 128 : m ? 235 : 16) << (f->bitsPerSample - 8), "the letters"); } }
    (void)c; if (inked) vsx_cover("letters");
}
HARNESS(h_text) {
    startF(); VSVideoFormat f = fmtParam(); static const int ws[] = { 40, 56, 84, 68 }, hs[] = { 48, 64, 100 }; int w = ws[vsx_choice(param("sizes", 4), "width")], h = hs[vsx_choice(param("heights", 3), "height")], al = param("al", 0) ? param("al", 0) : 1 + (int)vsx_choice(9, "alignment"), sc = 1 + (int)vsx_choice(param("scales", 2), "scale"); VSNode *c = mkInput(f, w, h, 10); std::string t = texts[param("any", 0) ? 0 : vsx_choice(9, "text")]; if (int a1 = param("any", 0)) { int ch = vsx_range<uint8_t>(1, 255, "letter"); int v = 1; while (v < 255 && !vsx_concretize(ch == v)) v++; t = std::string(1, (char)v); if (a1 > 1) t = "a" + t + "\n"; }
    Args a; a.clip("clip", c).s("text", t.c_str()); if (al != 7 || vsx_choice(2, "given")) a.i("alignment", al); if (sc != 1) a.i("scale", sc); VSNode *o = callNode("Text", a, "text"); vsx_assert(o != nullptr, "accepted"); vsx_assert(vi(o)->width == w && vi(o)->height == h && vi(o)->numFrames == 10 && sameFmt(vi(o)->format, f), "video info is kept"); Drive d; const VSFrame *g = d.run(o, 3, pattern); bool fits = w >= 32 + 8 * sc && h >= 32 + 16 * sc; vsx_assert((g != nullptr) == fits, "an error if and only if not even a letter fits"); if (!g) { vsx_cover("small"); return; } common(o, c, g, frameOf(d, c)); drawn(c, g, frameOf(d, c), t, al, sc);
}
HARNESS(h_text_args) {
    startF(); VSVideoFormat f = pick("format"); VSNode *c = mkInput(f, f.colorFamily == cfUndefined ? 0 : 64, f.colorFamily == cfUndefined ? 0 : 64, 10); Args a; a.clip("clip", c); static const char *const fn[] = { "Text", "FrameNum", "FrameProps", "ClipInfo", "CoreInfo" }; int k = (int)vsx_choice(5, "filter"); if (!k) a.s("text", "t"); int64_t al = 7, sc = 1; if (vsx_choice(2, "alignment")) al = anyArg(a, "alignment", "alignment"); if (vsx_choice(2, "scale")) sc = anyArg(a, "scale", "scale"); VSNode *o = callNode(fn[k], a, "text");
    bool ok = (f.colorFamily == cfUndefined || okFormat(f)) & (al >= 1) & (al <= 9) & (sc >= 1) & (sc <= 65536); vsx_assert((o != nullptr) == ok, "exactly valid arguments are accepted"); if (refused(o)) return; vsx_cover("accepted");
}
// the convenience functions print the text that describes the frame
static int kinds; static std::string expected;
static const VSFrame *described(VSNode *node, int n, void *) {
    VSFrame *f = api->newVideoFrame(&vi(node)->format, vi(node)->width ? vi(node)->width : 480, vi(node)->height ? vi(node)->height : 420, nullptr, core); for (int p = 0; p < vi(node)->format.numPlanes; p++) memset(api->getWritePtr(f, p), 77, (size_t)api->getStride(f, p) * ph(f, p)); VSMap *m = api->getFramePropertiesRW(f); (void)n;
    auto I = [&](const char *k, int64_t v) { api->mapSetInt(m, k, v, maAppend); };
    if (param("what", 0) == 2) { int k = kinds; if (k & 1) { I("i", -5); I("i", INT64_MAX); I("i", INT64_MIN); } if (k & 2) { api->mapSetFloat(m, "f", 1.5, maAppend); api->mapSetFloat(m, "f", -0.25, maAppend); } if (k & 4) { api->mapSetData(m, "s", "text", -1, dtUtf8, maAppend); api->mapSetData(m, "s", std::string(100, 'u').c_str(), 100, dtUnknown, maAppend); api->mapSetData(m, "s", std::string(101, 'l').c_str(), 101, dtUtf8, maAppend); api->mapSetData(m, "s", "\1\2", 2, dtBinary, maAppend); } if (k & 8) { VSFrame *x = api->newVideoFrame(&vi(node)->format, 8, 8, nullptr, core); api->mapSetFrame(m, "v", x, maAppend); if (k & 1) api->mapSetFrame(m, "v", x, maAppend); api->freeFrame(x); } return f; }
    static const struct { const char *key; int64_t v; const char *line, *text; } T[] = { { "_Matrix", 0, "Matrix: ", "sRGB" }, { "_Matrix", 1, "Matrix: ", "BT.709" }, { "_Matrix", 4, "Matrix: ", "FCC" }, { "_Matrix", 5, "Matrix: ", "BT.601" }, { "_Matrix", 6, "Matrix: ", "BT.601" }, { "_Matrix", 7, "Matrix: ", "SMPTE 240M" }, { "_Matrix", 8, "Matrix: ", "YCoCg" }, { "_Matrix", 9, "Matrix: ", "BT.2020 NCL" }, { "_Matrix", 10, "Matrix: ", "BT.2020 CL" }, { "_Matrix", 14, "Matrix: ", "ICtCp" }, { "_Matrix", 2, "Matrix: ", "Unknown" },
        { "_Primaries", 1, "Primaries: ", "BT.709" }, { "_Primaries", 4, "Primaries: ", "BT.470M" }, { "_Primaries", 5, "Primaries: ", "BT.470BG" }, { "_Primaries", 6, "Primaries: ", "SMPTE ST 170" }, { "_Primaries", 7, "Primaries: ", "SMPTE ST 240" }, { "_Primaries", 8, "Primaries: ", "FILM" }, { "_Primaries", 9, "Primaries: ", "BT.2020" }, { "_Primaries", 10, "Primaries: ", "SMPTE ST 428-1" }, { "_Primaries", 11, "Primaries: ", "SMPTE RP 431-2" }, { "_Primaries", 12, "Primaries: ", "SMPTE EG 432-1" }, { "_Primaries", 22, "Primaries: ", "JEDEC P22" },
        { "_Transfer", 1, "Transfer: ", "BT.709" }, { "_Transfer", 4, "Transfer: ", "Gamma 2.2" }, { "_Transfer", 5, "Transfer: ", "Gamma 2.8" }, { "_Transfer", 6, "Transfer: ", "SMPTE ST 170" }, { "_Transfer", 7, "Transfer: ", "SMPTE ST 240" }, { "_Transfer", 8, "Transfer: ", "Linear" }, { "_Transfer", 9, "Transfer: ", "Logarithmic (100:1 range)" }, { "_Transfer", 11, "Transfer: ", "IEC 61966-2-4" }, { "_Transfer", 13, "Transfer: ", "IEC 61966-2-1" }, { "_Transfer", 14, "Transfer: ", "BT.2020 for 10 bit system" }, { "_Transfer", 15, "Transfer: ", "BT.2020 for 12 bit system" }, { "_Transfer", 16, "Transfer: ", "SMPTE ST 2084" }, { "_Transfer", 17, "Transfer: ", "SMPTE ST 428-1" }, { "_Transfer", 18, "Transfer: ", "ARIB STD-B67" },
        { "_Range", 0, "Range: ", "Limited range" }, { "_Range", 1, "Range: ", "Full range" }, { "_ChromaLocation", 0, "Chroma Location: ", "Left" }, { "_ChromaLocation", 1, "Chroma Location: ", "Center" }, { "_ChromaLocation", 2, "Chroma Location: ", "Top left" }, { "_ChromaLocation", 3, "Chroma Location: ", "Top" }, { "_ChromaLocation", 4, "Chroma Location: ", "Bottom left" }, { "_ChromaLocation", 5, "Chroma Location: ", "Bottom" }, { "_FieldBased", 0, "Field handling: ", "Frame based" }, { "_FieldBased", 1, "Field handling: ", "Bottom field first" }, { "_FieldBased", 2, "Field handling: ", "Top field first" }, { "_FieldBased", 3, "Field handling: ", "Unknown" } };
    static const char *const keys[] = { "_Matrix", "_Primaries", "_Transfer", "_Range", "_ChromaLocation", "_FieldBased" }; static const char *const lines[] = { "Matrix: ", "Primaries: ", "Transfer: ", "Range: ", "Chroma Location: ", "Field handling: " }; const int nT = sizeof T / sizeof *T; bool var = vi(node)->width == 0; char t[64];
    std::string e = "Clip info:\nWidth: 480 px"; e += var ? " (may vary)" : ""; e += "\nHeight: 420 px"; e += var ? " (may vary)" : ""; bool sar = kinds & 1; if (sar) { I("_SARNum", 4); I("_SARDen", 3); } else if (kinds & 2) I("_SARDen", 3); e += std::string("\nSample aspect ratio: ") + (sar ? "4:3" : "Unknown") + "\nLength: 10 frames\nFormat name: "; api->getVideoFormatName(&vi(node)->format, t); e += t; const VSVideoFormat &vf = vi(node)->format; snprintf(t, sizeof t, "%d", vf.bitsPerSample); e += std::string("\nColor family: ") + (vf.colorFamily == cfGray ? "Gray" : vf.colorFamily == cfRGB ? "RGB" : "YUV") + "\nSample type: " + (vf.sampleType == stFloat ? "Float" : "Integer") + "\nBits per sample: " + t + "\nSubsampling Height/Width: "; e += vf.subSamplingH ? "2x/" : "1x/"; e += vf.subSamplingW ? "2x\n" : "1x\n";
    int shift = (int)vsx_choice(24, "values"), at = 0; for (int k = 0; k < 6; k++) { int n0 = at; while (at < nT && !strcmp(T[at].key, keys[k])) at++; int cnt = at - n0, pick = shift % (cnt + 1); if (pick < cnt) { I(keys[k], T[n0 + pick].v); e += std::string(lines[k]) + T[n0 + pick].text + "\n"; } else e += std::string(lines[k]) + "Unknown\n"; }
    if (kinds & 2) { api->mapSetData(m, "_PictType", "B", -1, dtUtf8, maReplace); e += "Picture type: B\n"; } else e += "Picture type: Unknown\n"; e += kinds & 4 ? "Fps: Unknown\n" : "Fps: 30000/1001 (29.970030)\n"; if (kinds & 1) { I("_DurationNum", 1); I("_DurationDen", 4); e += "Frame duration: 1/4 (0.250000)\n"; } else e += "Frame duration: Unknown\n"; expected = e; return f;
}
static const VSFrame *sameAgain; static const VSFrame *again(VSNode *, int, void *) { return api->addFrameRef(sameAgain); }
HARNESS(h_info) { // what: 0 FrameNum, 1 ClipInfo, 2 FrameProps
    startF(); int what = param("what", 0); kinds = (int)vsx_choice(what == 2 ? 16 : what ? 8 : 1, "properties"); bool var = what == 1 && vsx_choice(2, "variable size"), nofps = what == 1 && kinds & 4; VSNode *c = mkInput(fmtParam(), var ? 0 : what ? 480 : 160, var ? 0 : what ? 420 : 64, what ? 10 : 2147483647, nofps ? 0 : 30000, nofps ? 0 : 1001); static const char *const fn[] = { "FrameNum", "ClipInfo", "FrameProps" }; Args a; a.clip("clip", c); int al = what == 0 ? 1 + (int)vsx_choice(9, "alignment") : 7; if (al != 7) a.i("alignment", al); static const char *const names[] = { "s", "nothing", "i" }; int np = what == 2 ? (int)vsx_choice(4, "names") : 0; for (int i = 0; i < np; i++) a.s("props", names[i]);
    static const int ns[] = { 0, 7, 10, 2147483646, 1000000, 98765 }; int n = what ? 3 : ns[vsx_choice(6, "frame")]; VSNode *o = callNode(fn[what], a, "text"); vsx_assert(o != nullptr, "accepted"); Drive d; const VSFrame *g = d.run(o, n, described); vsx_assert(g != nullptr, "produced"); const VSFrame *s = frameOf(d, c); std::string e; if (what == 0) { char t[16]; snprintf(t, sizeof t, "%d", n); e = t; }
    if (what == 1) e = expected;
    if (what == 2) { e = "Frame properties:\n"; const char *order[] = { "f", "i", "s", "v" }; std::vector<std::string> ks; if (np) for (int i = 0; i < np; i++) ks.push_back(names[i]); else for (int i = 0; i < api->mapNumKeys(api->getFramePropertiesRO(s)); i++) ks.push_back(api->mapGetKey(api->getFramePropertiesRO(s), i)); (void)order; for (auto &k : ks) { e += k + ":"; if (k == "i" && kinds & 1) e += " -5 9223372036854775807 -9223372036854775808"; else if (k == "f") e += " 1.500000 -0.250000"; else if (k == "s" && kinds & 4) e += " text " + std::string(100, 'u') + " <property too long (101 bytes)> <binary data (2 bytes)>"; else if (k == "v") e += kinds & 1 ? "2 video frames" : "1 video frame"; else e += " <no such property>"; e += "\n"; } }
    sameAgain = s; Args b; b.clip("clip", c).s("text", e.c_str()).i("alignment", al); VSNode *q = callNode("Text", b, "text"); Drive d2; const VSFrame *h = d2.run(q, n, again); vsx_assert(h != nullptr, "produced"); for (int p = 0; p < vi(c)->format.numPlanes; p++) eqPlane(g, p, h, p, "the text that describes the frame"); vsx_cover("described");
}
