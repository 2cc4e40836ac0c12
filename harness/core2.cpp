// Property maps: typed storage, error codes, key validity, copy on write.
#include "flt.h"
struct Val { int64_t i; double f; char d[4]; int dl, hint; void *p; };
struct Ent { bool set; int type; int n; Val v[4]; };
struct Model { Ent e[2]; bool err; };
static const char *K[2] = { "a", "_z9" };
static VSNode *nodes[2]; static const VSFrame *frames[2]; static VSFunction *funcs[1];
static void VS_CC pubFn(const VSMap *, VSMap *out, void *, VSCore *, const VSAPI *a) { a->mapSetInt(out, "r", 1, maReplace); }
static bool sameF(double a, double b) { return !memcmp(&a, &b, 8); }
static void prep() {
    setup();
    Src *s = mkSrc(fmtOf(pfGray8), 8, 8, 1, "src", srcConcrete); nodes[0] = s->node; frames[0] = s->fr[0];
    Args t; VSMap *r = call("BlankAudio", t); nodes[1] = api->mapGetNode(r, "clip", 0, nullptr); api->freeMap(r);
    VSAudioFormat af; api->queryAudioFormat(&af, stInteger, 16, 3, core); frames[1] = api->newAudioFrame(&af, 4, nullptr, core);
    funcs[0] = api->createFunction(pubFn, nullptr, nullptr, core);
}
static const int types[] = { ptInt, ptFloat, ptData, ptFunction, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame };
static Val mkVal(int type) {
    Val v; memset(&v, 0, sizeof v);
    switch (type) {
    case ptInt: v.i = vsx_any<int64_t>("int"); break;
    case ptFloat: v.f = vsx_any<double>("float"); break;
    case ptData: vsx_symbolic(v.d, 3, 1, "data"); v.dl = vsx_choice(2, "len") * 3; v.hint = vsx_range<int>(-1, 1, "hint"); break;
    case ptFunction: v.p = funcs[0]; break;
    case ptVideoNode: v.p = nodes[0]; break;
    case ptAudioNode: v.p = nodes[1]; break;
    case ptVideoFrame: v.p = (void *)frames[0]; break;
    case ptAudioFrame: v.p = (void *)frames[1]; break;
    }
    return v;
}
static int put(VSMap *m, const char *k, int type, const Val &v, int mode, bool consume) {
    switch (type) {
    case ptInt: return api->mapSetInt(m, k, v.i, mode);
    case ptFloat: return api->mapSetFloat(m, k, v.f, mode);
    case ptData: return api->mapSetData(m, k, v.d, v.dl, v.hint, mode);
    case ptFunction: return consume ? api->mapConsumeFunction(m, k, api->addFunctionRef((VSFunction *)v.p), mode) : api->mapSetFunction(m, k, (VSFunction *)v.p, mode);
    case ptVideoNode: case ptAudioNode: return consume ? api->mapConsumeNode(m, k, api->addNodeRef((VSNode *)v.p), mode) : api->mapSetNode(m, k, (VSNode *)v.p, mode);
    default: return consume ? api->mapConsumeFrame(m, k, api->addFrameRef((const VSFrame *)v.p), mode) : api->mapSetFrame(m, k, (const VSFrame *)v.p, mode);
    }
}
static int wantErr(const Model &mo, const Ent &e, int idx, bool typeOk) {
    if (mo.err) return peError;
    if (!e.set) return peUnset;
    if (idx >= e.n) return peIndex;
    return typeOk ? peSuccess : peType;
}
static void checkAt(const VSMap *m, const char *k, const Model &mo, const Ent &e, int idx) {
    int er, t = e.set ? e.type : ptUnset; const Val &v = e.v[idx < 4 ? idx : 0];
    int w;
    er = -77; w = wantErr(mo, e, idx, t == ptInt); int64_t i = api->mapGetInt(m, k, idx, &er);
    vsx_assert(er == w, "integer read: error code"); vsx_assert(w == peSuccess ? i == v.i : i == 0, "integer read: value");
    er = -77; int is = api->mapGetIntSaturated(m, k, idx, &er); vsx_assert(er == w, "saturated integer read: error code");
    vsx_assert(is == (w != peSuccess ? 0 : v.i > INT32_MAX ? INT32_MAX : v.i < INT32_MIN ? INT32_MIN : (int)v.i), "saturated integer read: value");
    er = -77; w = wantErr(mo, e, idx, t == ptFloat); double f = api->mapGetFloat(m, k, idx, &er);
    vsx_assert(er == w, "float read: error code"); vsx_assert(sameF(f, w == peSuccess ? v.f : 0.0), "float read: value");
    er = -77; w = wantErr(mo, e, idx, t == ptData); const char *d = api->mapGetData(m, k, idx, &er);
    vsx_assert(er == w, "data read: error code");
    er = -77; int ds = api->mapGetDataSize(m, k, idx, &er); vsx_assert(er == w, "data size read: error code");
    er = -77; int dh = api->mapGetDataTypeHint(m, k, idx, &er); vsx_assert(er == w, "data hint read: error code");
    if (w == peSuccess) {
        vsx_assert(d != nullptr && ds == v.dl, "data read: size"); vsx_assert(dh == v.hint, "data read: hint");
        if (v.dl) vsx_assert_eqmem(d, v.d, v.dl, 1, "data read: bytes");
        vsx_assert(d[v.dl] == 0, "data is terminated");
    } else vsx_assert(d == nullptr && ds == -1 && dh == dtUnknown, "failed data read");
    er = -77; w = wantErr(mo, e, idx, t == ptFunction); VSFunction *fn = api->mapGetFunction(m, k, idx, &er);
    vsx_assert(er == w, "function read: error code"); vsx_assert(fn == (w == peSuccess ? v.p : nullptr), "function read: value"); api->freeFunction(fn);
    er = -77; w = wantErr(mo, e, idx, t == ptVideoNode || t == ptAudioNode); VSNode *nd = api->mapGetNode(m, k, idx, &er);
    vsx_assert(er == w, "node read: error code"); vsx_assert(nd == (w == peSuccess ? v.p : nullptr), "node read: value"); api->freeNode(nd);
    er = -77; w = wantErr(mo, e, idx, t == ptVideoFrame || t == ptAudioFrame); const VSFrame *fr = api->mapGetFrame(m, k, idx, &er);
    vsx_assert(er == w, "frame read: error code"); vsx_assert(fr == (w == peSuccess ? v.p : nullptr), "frame read: value"); api->freeFrame(fr);
    if (idx == 0) {
        // the array getters describe the whole property and fail like an index 0 read
        er = -77; w = wantErr(mo, e, 0, t == ptInt); const int64_t *ia = api->mapGetIntArray(m, k, &er);
        vsx_assert(er == w && (ia != nullptr) == (w == peSuccess), "integer array read"); if (w == peSuccess) for (int j = 0; j < e.n; j++) vsx_assert(ia[j] == e.v[j].i, "integer array values");
        er = -77; w = wantErr(mo, e, 0, t == ptFloat); const double *fa = api->mapGetFloatArray(m, k, &er);
        vsx_assert(er == w && (fa != nullptr) == (w == peSuccess), "float array read"); if (w == peSuccess) for (int j = 0; j < e.n; j++) vsx_assert(sameF(fa[j], e.v[j].f), "float array values");
    }
}
static void verify(const VSMap *m, const Model &mo, bool full) {
    int cnt = 0;
    for (int k = 0; k < 2; k++) cnt += mo.e[k].set;
    if (mo.err) { cnt++; vsx_assert(api->mapGetError(m) && !strcmp(api->mapGetError(m), "boo"), "the error message is kept"); }
    else vsx_assert(api->mapGetError(m) == nullptr, "no error message");
    vsx_assert(api->mapNumKeys(m) == cnt, "key count");
    for (int k = 0; k < 2; k++) {
        const Ent &e = mo.e[k];
        vsx_assert(api->mapNumElements(m, K[k]) == (e.set ? e.n : -1), "element count");
        vsx_assert(api->mapGetType(m, K[k]) == (e.set ? e.type : ptUnset), "property type");
        int seen = 0; for (int j = 0; j < cnt; j++) { const char *kn = api->mapGetKey(m, j); vsx_assert(kn != nullptr, "every key has a name"); if (kn) seen += !strcmp(kn, K[k]); }
        vsx_assert(seen == (e.set ? 1 : 0), "a set key is listed exactly once");
        if (k == 0 || full) for (int idx = 0; idx <= (e.set ? e.n : 0); idx++) checkAt(m, K[k], mo, e, idx);
    }
    int big = vsx_range<int>(4, INT32_MAX, "index");
    checkAt(m, K[0], mo, mo.e[0], big);
    vsx_assert(api->mapGetKey(m, big) == nullptr, "no key past the last");
}
static void modelPut(Model &mo, int k, int type, const Val &v, int mode, int rc) {
    Ent &e = mo.e[k];
    if (mode == maReplace) { vsx_assert(rc == 0, "replace succeeds"); e.set = true; e.type = type; e.n = 1; e.v[0] = v; }
    else if (!e.set) { vsx_assert(rc == 0, "append creates the property"); e.set = true; e.type = type; e.n = 1; e.v[0] = v; }
    else if (e.type != type) vsx_assert(rc == 1, "append of another type is refused");
    else { vsx_assert(rc == 0, "append succeeds"); e.v[e.n++] = v; }
}
// arbitrary pre-state of one property, an optional sharing copy of the map, then a sequence of operations on either map
HARNESS(h_ops) {
    prep();
    VSMap *m[2] = { api->createMap(), api->createMap() }; Model mo[2]; memset(mo, 0, sizeof mo);
    int t = vsx_param("pre", 0) >= 0 ? (int)vsx_param("pre", 0) : (int)vsx_choice(9, "type");
    if (t < 8) {
        int n = vsx_choice(3, "count");
        if (n == 0) { int rc = api->mapSetEmpty(m[0], K[0], types[t]); vsx_assert(rc == 0, "empty property created"); mo[0].e[0].set = true; mo[0].e[0].type = types[t]; mo[0].e[0].n = 0; }
        for (int j = 0; j < n; j++) { Val v = mkVal(types[t]); int rc = put(m[0], K[0], types[t], v, maAppend, false); modelPut(mo[0], 0, types[t], v, maAppend, rc); }
    }
    { Val v = mkVal(ptInt); int rc = put(m[0], K[1], ptInt, v, maReplace, false); modelPut(mo[0], 1, ptInt, v, maReplace, rc); }
    if (vsx_choice(2, "shared")) {
        // a map made from another shares its storage: go through a frame's properties, which copy in constant time
        api->copyMap(m[0], m[1]); for (int k = 0; k < 2; k++) mo[1].e[k] = mo[0].e[k];
    }
    int ops = (int)vsx_param("ops", 1);
    for (int o = 0; o < ops; o++) {
        int w = vsx_choice(2, "map"), k = 0;
        switch (vsx_choice(8, "op")) {
        case 0: case 1: { int ty = types[vsx_choice(8, "otype")]; Val v = mkVal(ty); int mode = vsx_choice(2, "mode") ? maAppend : maReplace; int rc = put(m[w], K[k], ty, v, mode, vsx_choice(2, "consume")); modelPut(mo[w], k, ty, v, mode, rc); break; }
        case 2: { int ty = types[vsx_choice(8, "etype")]; int rc = api->mapSetEmpty(m[w], K[k], ty); vsx_assert(rc == (mo[w].e[k].set ? 1 : 0), "an empty property is only created when the key is unset"); if (!mo[w].e[k].set) { mo[w].e[k].set = true; mo[w].e[k].type = ty; mo[w].e[k].n = 0; } break; }
        case 3: { int rc = api->mapDeleteKey(m[w], K[k]); vsx_assert(rc == (mo[w].e[k].set ? 1 : 0), "delete reports whether the key existed"); mo[w].e[k].set = false; break; }
        case 4: { api->clearMap(m[w]); memset(&mo[w], 0, sizeof mo[w]); break; }
        case 5: { api->mapSetError(m[w], "boo"); memset(&mo[w], 0, sizeof mo[w]); mo[w].err = true; break; }
        case 6: { int n = vsx_choice(3, "arr"); Ent &e = mo[w].e[k]; e.set = true; e.n = n; int64_t ia[3]; double fa[3];
            if (vsx_choice(2, "arrtype")) { for (int j = 0; j < n; j++) e.v[j].i = ia[j] = vsx_any<int64_t>("ia"); e.type = ptInt; vsx_assert(api->mapSetIntArray(m[w], K[k], ia, n) == 0, "integer array set"); }
            else { for (int j = 0; j < n; j++) e.v[j].f = fa[j] = vsx_any<double>("fa"); e.type = ptFloat; vsx_assert(api->mapSetFloatArray(m[w], K[k], fa, n) == 0, "float array set"); }
            break; }
        case 7: { if (mo[0].err || mo[1].err) break; api->copyMap(m[w], m[1 - w]); for (int j = 0; j < 2; j++) if (mo[w].e[j].set) mo[1 - w].e[j] = mo[w].e[j]; break; }
        }
    }
    for (int i = 0; i < 2; i++) verify(m[i], mo[i], ops < 2);
    for (int i = 0; i < 2; i++) api->freeMap(m[i]);
    vsx_cover("done");
}
// frame properties: whole map sharing between frames
HARNESS(h_frameprops) {
    setup();
    VSVideoFormat f = fmtOf(pfGray8);
    VSFrame *a = api->newVideoFrame(&f, 8, 8, nullptr, core);
    int64_t v0 = vsx_any<int64_t>("v"), v1 = vsx_any<int64_t>("v"), v2 = vsx_any<int64_t>("v");
    VSMap *pa = api->getFramePropertiesRW(a);
    api->mapSetInt(pa, "x", v0, maReplace); api->mapSetInt(pa, "y", v1, maReplace); api->mapSetInt(pa, "x", v1, maAppend);
    VSFrame *b = vsx_choice(2, "how") ? api->copyFrame(a, core) : api->newVideoFrame(&f, 8, 8, a, core);
    VSMap *pb = api->getFramePropertiesRW(b);
    int who = vsx_choice(2, "who"); VSMap *pw_ = who ? pa : pb, *po = who ? pb : pa;
    int op = vsx_choice(6, "op");
    switch (op) {
    case 0: api->mapSetInt(pw_, "x", v2, maAppend); break;
    case 1: api->mapDeleteKey(pw_, "x"); break;
    case 2: api->clearMap(pw_); break;
    case 3: api->mapSetInt(pw_, "x", v2, maReplace); break;
    case 4: api->mapSetFloat(pw_, "new", 1.0, maReplace); break;
    case 5: { int64_t arr[2] = { v2, v0 }; api->mapSetIntArray(pw_, "x", arr, 2); break; }
    }
    int e;
    vsx_assert(api->mapNumKeys(po) == 2 && api->mapNumElements(po, "x") == 2 && api->mapGetInt(po, "x", 0, &e) == v0 && api->mapGetInt(po, "x", 1, &e) == v1 && api->mapGetInt(po, "y", 0, &e) == v1, "the other frame's properties are untouched");
    vsx_assert(api->mapNumElements(pw_, "x") == (op == 0 ? 3 : op == 1 || op == 2 ? -1 : op == 3 ? 1 : 2), "the written frame's properties changed");
    if (op == 0) vsx_assert(api->mapGetInt(pw_, "x", 2, &e) == v2 && api->mapGetInt(pw_, "x", 0, &e) == v0, "appended");
    vsx_cover("done");
    api->freeFrame(a); api->freeFrame(b);
}
static bool keyOk(const char *s) {
    auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
    if (!al(s[0])) return false;
    for (int i = 1; s[i]; i++) if (!al(s[i]) && !(s[i] >= '0' && s[i] <= '9')) return false;
    return true;
}
// every key of up to n bytes
HARNESS(h_keys) {
    setup();
    int n = (int)vsx_param("n", 3);
    char k[8]; memset(k, 0, sizeof k);
    vsx_symbolic(k, n, 1, "key");
    VSMap *m = api->createMap();
    bool ok = keyOk(k);
    int rc;
    switch (vsx_choice(6, "how")) {
    case 0: rc = api->mapSetInt(m, k, 5, vsx_choice(2, "mode")); break;
    case 1: rc = api->mapSetFloat(m, k, 5, vsx_choice(2, "mode")); break;
    case 2: rc = api->mapSetData(m, k, "x", 1, dtUtf8, vsx_choice(2, "mode")); break;
    case 3: rc = api->mapSetEmpty(m, k, ptInt); break;
    case 4: { int64_t v = 1; rc = api->mapSetIntArray(m, k, &v, 1); break; }
    default: { double v = 1; rc = api->mapSetFloatArray(m, k, &v, 1); break; }
    }
    vsx_assert((rc == 0) == ok, "exactly the identifier-like keys are accepted");
    vsx_assert(api->mapNumKeys(m) == (ok ? 1 : 0), "a refused key leaves no trace");
    if (ok) vsx_cover("ok"); else vsx_cover("bad");
    api->freeMap(m);
}
// the two names of the range property always describe the same setting
static int64_t flip(int64_t v) { return v == 0 ? 1 : v == 1 ? 0 : v; }
HARNESS(h_range) {
    setup();
    VSMap *m = api->createMap(); int e;
    int64_t v = vsx_any<int64_t>("v"), v2 = vsx_any<int64_t>("v2");
    bool viaOld = vsx_choice(2, "old");
    const char *wk = viaOld ? "_ColorRange" : "_Range";
    int how = vsx_choice(3, "how"); int n = 1;
    if (how == 0) api->mapSetInt(m, wk, v, maReplace);
    else if (how == 1) { api->mapSetInt(m, wk, v, maReplace); api->mapSetInt(m, wk, v2, maAppend); n = 2; }
    else { int64_t a[2] = { v, v2 }; api->mapSetIntArray(m, wk, a, 2); n = 2; }
    vsx_assert(api->mapNumKeys(m) == 1 && !strcmp(api->mapGetKey(m, 0), "_Range"), "stored once under the current name");
    vsx_assert(api->mapNumElements(m, "_Range") == n && api->mapNumElements(m, "_ColorRange") == n, "count under both names");
    vsx_assert(api->mapGetType(m, "_Range") == ptInt && api->mapGetType(m, "_ColorRange") == ptInt, "type under both names");
    int64_t w[2] = { viaOld ? flip(v) : v, viaOld ? flip(v2) : v2 };
    for (int i = 0; i < n; i++) {
        vsx_assert(api->mapGetInt(m, "_Range", i, &e) == w[i] && e == 0, "current name reads the stored setting");
        vsx_assert(api->mapGetInt(m, "_ColorRange", i, &e) == flip(w[i]) && e == 0, "old name reads the inverse setting");
    }
    const int64_t *a = api->mapGetIntArray(m, "_Range", &e);
    for (int i = 0; i < n; i++) vsx_assert(a[i] == w[i], "array under the current name");
    if (n == 1) { vsx_assume((v == 0) | (v == 1)); a = api->mapGetIntArray(m, "_ColorRange", &e); vsx_assert(a && a[0] == flip(w[0]), "single element array under the old name"); }
    vsx_assert(api->mapDeleteKey(m, vsx_choice(2, "del") ? "_ColorRange" : "_Range") == 1, "deleted under either name");
    vsx_assert(api->mapNumKeys(m) == 0 && api->mapNumElements(m, "_ColorRange") == -1, "gone under both names");
    vsx_cover("done");
    api->freeMap(m);
}
HARNESS(h_rangeempty) {
    setup();
    VSMap *m = api->createMap(); int e;
    vsx_assert(api->mapSetEmpty(m, "_ColorRange", ptInt) == 0, "empty range property");
    vsx_assert(api->mapNumElements(m, "_Range") == 0 && api->mapNumElements(m, "_ColorRange") == 0, "visible under both names");
    int64_t v = vsx_any<int64_t>("v");
    vsx_assert(api->mapSetInt(m, "_ColorRange", v, maAppend) == 0 && api->mapGetInt(m, "_Range", 0, &e) == flip(v), "append reaches the same property");
    vsx_assert(api->mapSetEmpty(m, "_Range", ptInt) == 1 && api->mapSetEmpty(m, "_ColorRange", ptInt) == 1, "already set under both names");
    vsx_cover("done");
}
// data of any length up to n, also taken as a C string
HARNESS(h_data) {
    setup();
    int n = (int)vsx_param("n", 6);
    char b[16]; memset(b, 0, sizeof b); vsx_symbolic(b, n, 1, "bytes");
    VSMap *m = api->createMap(); int e;
    int len = vsx_choice(n + 2, "len") - 1; // -1: C string
    api->mapSetData(m, "k", b, len, dtBinary, maReplace);
    int want = len >= 0 ? len : (int)strlen(b);
    vsx_assert(api->mapGetDataSize(m, "k", 0, &e) == want, "size");
    const char *d = api->mapGetData(m, "k", 0, &e);
    for (int i = 0; i < want; i++) vsx_assert(d[i] == b[i], "bytes");
    vsx_assert(d[want] == 0, "terminated");
    vsx_cover("done");
}
