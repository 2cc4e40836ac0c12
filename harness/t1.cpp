#include "flt.h"
HARNESS(h_crop) {
    setup();
    VSVideoFormat f = fmtOf(pfYUV420P8);
    Src *s = mkSrc(f, 8, 6, 1, "src");
    int64_t l = vsx_range<int64_t>(-1, 4, "left"), r = vsx_range<int64_t>(0, 4, "right"), t = vsx_range<int64_t>(0, 3, "top");
    Args a; a.clip("clip", s->node).i("left", l).i("right", r).i("top", t);
    VSNode *n = callNode("Crop", a);
    if (!n) { vsx_cover("refused"); vsx_assert(l < 0 || l + r >= 8 || (l & 1) || (r & 1) || (t & 1), "refused only when invalid"); return; }
    vsx_cover("accepted");
    const VSFrame *o = get(n, 0);
    vsx_assert(o != nullptr, "frame");
    for (int p = 0; p < 3; p++) {
        int sh = p ? 1 : 0;
        vsx_assert(pw(o, p) == ((8 - l - r) >> sh), "w");
        for (int y = 0; y < ph(o, p); y++) for (int x = 0; x < pw(o, p); x++) vsx_assert(px<uint8_t>(o, p, x, y) == px<uint8_t>(s->fr[0], p, x + (l >> sh), y + (t >> sh)), "pixel");
    }
}
HARNESS(h_min) {
    setup();
    static const int fm[] = { pfGray8, pfGray10, pfGray16, pfGrayS };
    VSVideoFormat f = fmtOf(fm[vsx_param("fmt", 0)]);
    Src *s = mkSrc(f, 5, 4, 1, "src");
    Args a; a.clip("clip", s->node);
    VSNode *n = callNode("Minimum", a);
    vsx_assert(n != nullptr, "created");
    const VSFrame *o = get(n, 0);
    vsx_assert(o != nullptr, "frame");
    for (int y = 0; y < ph(o, 0); y++) for (int x = 0; x < pw(o, 0); x++) {
        uint32_t m = 0xffffffff;
        for (int dy = -1; dy < 2; dy++) for (int dx = -1; dx < 2; dx++) {
            int xx = x + dx, yy = y + dy; if (xx < 0) xx = -xx; if (yy < 0) yy = -yy; if (xx > 4) xx = 8 - xx; if (yy > 3) yy = 6 - yy;
            uint32_t v = ipx(s->fr[0], 0, xx, yy); m = v < m ? v : m;
        }
        vsx_assert(ipx(o, 0, x, y) == m, "minimum");
    }
    vsx_cover("done");
}
HARNESS(h_merge) {
    setup();
    static const int fm[] = { pfGray8, pfGray10, pfGray16, pfGrayS };
    VSVideoFormat f = fmtOf(fm[vsx_param("fmt", 0)]);
    Src *s = mkSrc(f, 5, 2, 1, "src"), *s2 = mkSrc(f, 5, 2, 1, "src2");
    Args a; a.clip("clipa", s->node).clip("clipb", s2->node).f("weight", 0.25);
    VSNode *n = callNode("Merge", a);
    vsx_assert(n != nullptr, "created");
    const VSFrame *o = get(n, 0);
    vsx_assert(o != nullptr, "frame");
    for (int y = 0; y < ph(o, 0); y++) for (int x = 0; x < pw(o, 0); x++) {
        uint32_t u = ipx(s->fr[0], 0, x, y), v = ipx(s2->fr[0], 0, x, y);
        vsx_assert(ipx(o, 0, x, y) == (u * 24576 + v * 8192 + 16384) >> 15, "merge");
    }
    vsx_cover("done");
}
