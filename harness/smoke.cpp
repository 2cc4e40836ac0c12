#include "common.h"
HARNESS(h_core) {
    setup();
    vsx_cover("core created");
    VSCoreInfo ci; api->getCoreInfo(core, &ci);
    vsx_print("threads", ci.numThreads);
    VSPlugin *p = api->getPluginByID(VSH_STD_PLUGIN_ID, core);
    vsx_assert(p != nullptr, "std plugin present");
    VSMap *a = api->createMap();
    api->mapSetInt(a, "width", 4, maReplace); api->mapSetInt(a, "height", 2, maReplace);
    api->mapSetInt(a, "format", pfGray8, maReplace); api->mapSetFloat(a, "color", 7, maReplace); api->mapSetInt(a, "length", 3, maReplace);
    VSMap *r = api->invoke(p, "BlankClip", a);
    const char *e = api->mapGetError(r);
    if (e) vsx_print(e, 0);
    vsx_assert(e == nullptr, "BlankClip ok");
    int err; VSNode *n = api->mapGetNode(r, "clip", 0, &err);
    char msg[256];
    const VSFrame *f = api->getFrame(1, n, msg, sizeof msg);
    if (!f) vsx_print(msg, 0);
    vsx_assert(f != nullptr, "frame ok");
    const uint8_t *d = api->getReadPtr(f, 0);
    vsx_assert(d[0] == 7 && d[3] == 7, "pixel ok");
    vsx_cover("frame checked");
    api->freeFrame(f); api->freeNode(n); api->freeMap(r); api->freeMap(a); api->freeCore(core);
    vsx_cover("freed");
}
