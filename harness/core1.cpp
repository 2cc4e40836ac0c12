// Formats, frame allocation and frame isolation.
#include "flt.h"
static bool wantValid(int64_t cf, int64_t st, int64_t bits, int64_t sw, int64_t sh) {
    if (cf != cfGray && cf != cfRGB && cf != cfYUV) return false;
    if (st != stInteger && st != stFloat) return false;
    if (st == stFloat ? (bits != 16 && bits != 32) : (bits < 8 || bits > 32)) return false;
    if (sw < 0 || sw > 4 || sh < 0 || sh > 4) return false;
    if (cf != cfYUV && (sw || sh)) return false;
    return true;
}
static void checkFmt(const VSVideoFormat &f, int cf, int st, int bits, int sw, int sh) {
    vsx_assert(f.colorFamily == cf && f.sampleType == st && f.bitsPerSample == bits, "queried format has the requested family, type and depth");
    vsx_assert(f.subSamplingW == sw && f.subSamplingH == sh, "queried format has the requested subsampling");
    vsx_assert(f.numPlanes == (cf == cfGray ? 1 : 3), "plane count follows from the family");
    vsx_assert(f.bytesPerSample == (bits <= 8 ? 1 : bits <= 16 ? 2 : 4), "bytes per sample is the smallest power of two that holds the depth");
}
// every combination of 32 bit arguments
HARNESS(h_query) {
    setup();
    int cf = vsx_any<int>("family"), st = vsx_any<int>("type"), bits = vsx_any<int>("bits"), sw = vsx_any<int>("ssw"), sh = vsx_any<int>("ssh");
    vsx_assume(cf != cfUndefined);
    VSVideoFormat f; memset(&f, 0x5a, sizeof f);
    int ok = api->queryVideoFormat(&f, cf, st, bits, sw, sh, core);
    bool want = wantValid(cf, st, bits, sw, sh);
    vsx_assert((ok != 0) == want, "exactly the valid formats can be queried");
    uint32_t id = api->queryVideoFormatID(cf, st, bits, sw, sh, core);
    vsx_assert((id != 0) == want, "exactly the valid formats have an id");
    if (want) {
        vsx_cover("valid");
        checkFmt(f, cf, st, bits, sw, sh);
        VSVideoFormat g; memset(&g, 0xa5, sizeof g);
        int ok2 = api->getVideoFormatByID(&g, id, core);
        vsx_assert(ok2 != 0, "an id can be looked up");
        checkFmt(g, cf, st, bits, sw, sh);
    } else vsx_cover("refused");
}
// every 32 bit id whose family bits are set names at most one format, and that format has this id
HARNESS(h_id) {
    setup();
    uint32_t id = vsx_any<uint32_t>("id");
    vsx_assume((id >> 28) != 0);
    VSVideoFormat f; memset(&f, 0x5a, sizeof f);
    int ok = api->getVideoFormatByID(&f, id, core);
    vsx_assert((ok != 0) == wantValid(id >> 28, (id >> 24) & 15, (id >> 16) & 255, (id >> 8) & 255, id & 255), "exactly the ids of valid formats are accepted");
    if (ok) { vsx_cover("accepted"); vsx_assert(api->queryVideoFormatID(f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, core) == id, "id round trip"); }
    else vsx_cover("refused");
}
HARNESS(h_idundef) {
    setup();
    uint32_t id = vsx_range<uint32_t>(0, 0x0fffffff, "id");
    if (vsx_choice(2, "part")) vsx_assume((id >> 24) != 0); else vsx_assume(id == 0);
    VSVideoFormat f; memset(&f, 0x5a, sizeof f);
    int ok = api->getVideoFormatByID(&f, id, core);
    if (ok) vsx_assert(f.colorFamily == cfUndefined && f.numPlanes == 0 && f.bytesPerSample == 0 && f.bitsPerSample == 0, "the undefined format is empty");
    vsx_cover("done");
}
// names: two different valid formats never share a name
HARNESS(h_name) {
    setup();
    VSVideoFormat f[2]; char nm[2][40]; int ok[2];
    static const int fam[] = { cfGray, cfRGB, cfYUV };
    int bits0 = 0;
    for (int i = 0; i < 2; i++) {
        memset(nm[i], 0x5a, sizeof nm[i]);
        int cf = fam[vsx_choice(3, "family")], st = vsx_choice(2, "type");
        static const int db[] = { 8, 9, 12, 16, 24, 32 };
        int bits = st == stFloat ? (vsx_choice(2, "half") ? 16 : 32) : db[vsx_choice(6, "bits")];
        int sw = cf == cfYUV ? vsx_choice(3, "ssw") : 0, sh = cf == cfYUV ? vsx_choice(3, "ssh") : 0;
        if (i == 1 && (cf != f[0].colorFamily)) vsx_done();
        ok[i] = api->queryVideoFormat(&f[i], cf, st, bits, sw, sh, core);
        vsx_assert(ok[i] != 0, "format is valid");
        int r = api->getVideoFormatName(&f[i], nm[i]);
        vsx_assert(r != 0, "format has a name");
        int term = 0; for (int k = 0; k < 32; k++) if (!nm[i][k]) { term = 1; break; }
        vsx_assert(term, "name fits into 32 characters");
        for (int k = 32; k < 40; k++) vsx_assert(nm[i][k] == 0x5a, "nothing is written past 32 characters");
        (void)bits0;
    }
    bool same = f[0].colorFamily == f[1].colorFamily && f[0].sampleType == f[1].sampleType && f[0].bitsPerSample == f[1].bitsPerSample && f[0].subSamplingW == f[1].subSamplingW && f[0].subSamplingH == f[1].subSamplingH;
    vsx_assert(same == !strcmp(nm[0], nm[1]), "formats and names correspond one to one");
    vsx_cover(same ? "same" : "different");
}
// frame geometry for every dimension up to the bound
HARNESS(h_alloc) {
    setup();
    static const uint32_t ids[] = { pfGray8, pfGray16, pfGrayS, pfYUV420P8, pfYUV422P10, pfYUV444PS, pfYUV410P8, pfRGB24, pfRGBH, pfYUV440P8, pfGray32, pfYUV411P8, pfYUV420P16, pfRGBS };
    VSVideoFormat f = fmtOf(ids[vsx_choice(vsx_param("nf", 8), "format")]);
    int maxd = (int)vsx_param("max", 32000);
    int w = vsx_range<int>(1, maxd, "width"), h = vsx_range<int>(1, maxd, "height");
    vsx_assume(((w >> f.subSamplingW) > 0) & ((h >> f.subSamplingH) > 0));
    VSFrame *fr = api->newVideoFrame(&f, w, h, nullptr, core);
    vsx_assert(fr != nullptr, "frame created");
    for (int p = 0; p < f.numPlanes; p++) {
        int ww = p ? w >> f.subSamplingW : w, hh = p ? h >> f.subSamplingH : h;
        vsx_assert(api->getFrameWidth(fr, p) == ww, "plane width");
        vsx_assert(api->getFrameHeight(fr, p) == hh, "plane height");
        ptrdiff_t st = api->getStride(fr, p);
        vsx_assert(st >= (ptrdiff_t)ww * f.bytesPerSample, "a row fits into the stride");
        vsx_assert(st % 32 == 0, "rows are aligned");
        uint8_t *d = api->getWritePtr(fr, p);
        vsx_assert((uintptr_t)d % 32 == 0, "planes are aligned");
        const uint8_t *rd = api->getReadPtr(fr, p);
        vsx_assert(rd == d, "read and write pointer agree");
        // the whole visible area is inside the allocation (checked by the executor on access)
        vsx_check_range(d, (uint64_t)(st * hh));
        d[0] = (uint8_t)(p + 1);
    }
    for (int p = 0; p < f.numPlanes; p++) for (int q = 0; q < p; q++) vsx_assert(api->getReadPtr(fr, p) != api->getReadPtr(fr, q), "planes are distinct");
    const VSVideoFormat *g = api->getVideoFrameFormat(fr);
    checkFmt(*g, f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH);
    for (int p = 0; p < f.numPlanes; p++) vsx_assert(api->getReadPtr(fr, p)[0] == p + 1, "planes do not overlap");
    api->freeFrame(fr);
    vsx_cover("done");
}
HARNESS(h_badplane) {
    setup();
    VSVideoFormat f = fmtOf(vsx_choice(2, "format") ? pfYUV420P8 : pfGray8);
    VSFrame *fr = api->newVideoFrame(&f, 16, 16, nullptr, core);
    int p = vsx_any<int>("plane"); vsx_assume((p < 0) | (p >= f.numPlanes));
    vsx_assert(api->getReadPtr(fr, p) == nullptr, "no read pointer for a plane that does not exist");
    vsx_assert(api->getWritePtr(fr, p) == nullptr, "no write pointer for a plane that does not exist");
    vsx_assert(api->getStride(fr, p) == 0, "no stride for a plane that does not exist");
    vsx_cover("done");
}
// isolation: references, copies and frames that share planes, under any sequence of writes
struct Slot { const VSFrame *f; uint8_t model[3][8]; int64_t prop; bool own; };
HARNESS(h_cow) {
    setup();
    int ops = (int)vsx_param("ops", 3);
    VSVideoFormat f = fmtOf(vsx_param("gray", 0) ? pfGray8 : pfYUV444P8);
    Slot s[5]; memset(s, 0, sizeof s); int n = 1;
    VSFrame *a = api->newVideoFrame(&f, 4, 2, nullptr, core);
    for (int p = 0; p < f.numPlanes; p++) for (int y = 0; y < 2; y++) { vsx_symbolic(api->getWritePtr(a, p) + y * api->getStride(a, p), 4, 1, "pix"); memcpy(&s[0].model[p][y * 4], api->getReadPtr(a, p) + y * api->getStride(a, p), 4); }
    s[0].prop = vsx_any<int64_t>("prop"); api->mapSetInt(api->getFramePropertiesRW(a), "k", s[0].prop, maReplace);
    s[0].f = a; s[0].own = true;
    for (int o = 0; o < ops; o++) {
        int which = vsx_choice(n, "slot");
        switch (vsx_choice(n < 5 ? 6 : 3, "op")) {
        case 0: { // write one pixel
            int p = vsx_choice(f.numPlanes, "plane"); int at = vsx_range<int>(0, 7, "at"); uint8_t v = vsx_any<uint8_t>("val");
            uint8_t *d = api->getWritePtr((VSFrame *)s[which].f, p);
            vsx_assert(d != nullptr, "write pointer");
            d[(at >> 2) * api->getStride(s[which].f, p) + (at & 3)] = v; s[which].model[p][at] = v;
            break; }
        case 1: { int64_t v = vsx_any<int64_t>("pv"); api->mapSetInt(api->getFramePropertiesRW((VSFrame *)s[which].f), "k", v, maReplace); s[which].prop = v; break; }
        case 2: { if (n > 1) { api->freeFrame(s[which].f); s[which] = s[n - 1]; n--; } break; }
        case 3: { s[n] = s[which]; s[n].f = api->copyFrame(s[which].f, core); n++; break; }
        case 4: { // new frame made of planes of two others
            int other = vsx_choice(n, "slot2");
            const VSFrame *src[3] = { s[other].f, s[which].f, nullptr }; int pl[3] = { f.numPlanes - 1, 0, 0 };
            if (f.numPlanes == 1) pl[0] = 0;
            VSFrame *g = api->newVideoFrame2(&f, 4, 2, src, pl, s[which].f, core);
            memcpy(s[n].model[0], s[other].model[pl[0]], 8);
            if (f.numPlanes > 1) { memcpy(s[n].model[1], s[which].model[0], 8); for (int y = 0; y < 2; y++) { memset(api->getWritePtr(g, 2) + y * api->getStride(g, 2), 9, 4); } memset(s[n].model[2], 9, 8); }
            s[n].prop = s[which].prop; s[n].f = g; n++;
            break; }
        case 5: { // the write pointer was taken before the frame was shared: a later write through a fresh pointer must not reach the copy
            uint8_t *d = api->getWritePtr((VSFrame *)s[which].f, 0); d[0] = 1; s[which].model[0][0] = 1;
            s[n] = s[which]; s[n].f = api->copyFrame(s[which].f, core);
            uint8_t *d2 = api->getWritePtr((VSFrame *)s[n].f, 0); d2[1] = 2; s[n].model[0][1] = 2; n++;
            break; }
        }
    }
    for (int i = 0; i < n; i++) {
        for (int p = 0; p < f.numPlanes; p++) for (int y = 0; y < 2; y++) vsx_assert_eqmem(row(s[i].f, p, y), &s[i].model[p][y * 4], 4, 1, "frame holds exactly what was written through it");
        vsx_assert(propI(s[i].f, "k") == s[i].prop, "properties are as set through this frame");
    }
    for (int i = 0; i < n; i++) api->freeFrame(s[i].f);
    vsx_cover("done");
}
HARNESS(h_cowaudio) {
    setup();
    VSAudioFormat af; vsx_assert(api->queryAudioFormat(&af, stInteger, 16, 3, core) != 0, "audio format");
    int16_t m[4][2][4]; VSFrame *fr[4]; int n = 1;
    fr[0] = api->newAudioFrame(&af, 4, nullptr, core);
    for (int c = 0; c < 2; c++) { vsx_symbolic(api->getWritePtr(fr[0], c), 4, 2, "smp"); memcpy(m[0][c], api->getReadPtr(fr[0], c), 8); }
    for (int o = 0; o < (int)vsx_param("ops", 3); o++) {
        int w = vsx_choice(n, "slot");
        switch (vsx_choice(n < 4 ? 3 : 1, "op")) {
        case 0: { int c = vsx_choice(2, "ch"); int at = vsx_range<int>(0, 3, "at"); int16_t v = vsx_any<int16_t>("val"); ((int16_t *)api->getWritePtr(fr[w], c))[at] = v; m[w][c][at] = v; break; }
        case 1: { fr[n] = api->copyFrame(fr[w], core); memcpy(m[n], m[w], sizeof m[n]); n++; break; }
        case 2: { int w2 = vsx_choice(n, "slot2"); const VSFrame *src[2] = { fr[w], fr[w2] }; int ch[2] = { 1, 0 }; fr[n] = api->newAudioFrame2(&af, 4, src, ch, fr[w], core); memcpy(m[n][0], m[w][1], 8); memcpy(m[n][1], m[w2][0], 8); n++; break; }
        }
    }
    for (int i = 0; i < n; i++) for (int c = 0; c < 2; c++) vsx_assert_eqmem(api->getReadPtr(fr[i], c), m[i][c], 4, 2, "audio frame holds exactly what was written through it");
    for (int i = 0; i < n; i++) api->freeFrame(fr[i]);
    vsx_cover("done");
}
