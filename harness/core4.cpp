// Plugins: loading, registration, argument checking.
#include "flt.h"
typedef void (VS_CC *InitFn)(VSPlugin *, const VSPLUGINAPI *);
extern "C" void VS_CC VapourSynthPluginInit2(VSPlugin *, const VSPLUGINAPI *);
static InitFn initFn; static int closed;
#ifdef VSX_NATIVE
#define dlopen vsx_dlopen
#define dlsym vsx_dlsym
#define dlclose vsx_dlclose
#define NODLERROR
#endif
extern "C" void *dlopen(const char *, int) noexcept { return &closed; }
extern "C" void *dlsym(void *h, const char *n) noexcept { (void)h; return !strcmp(n, "VapourSynthPluginInit2") ? (void *)(initFn ? initFn : VapourSynthPluginInit2) : nullptr; }
extern "C" int dlclose(void *) noexcept { closed++; return 0; }
#ifndef NODLERROR
extern "C" char *dlerror() noexcept { return nullptr; }
#endif
struct Reg { const char *name, *args, *ret; int result; };
static std::vector<Reg> regs; static int calls; static void *expectData; static bool badData;
static const char *pid = "t.plug", *pns = "tp"; static int papi = VAPOURSYNTH_API_VERSION, pflags = 0;
static bool echo;
static void VS_CC fn(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *a) { calls++; if (ud != expectData) badData = true; if (echo) a->copyMap(in, out); }
static void VS_CC plugInit(VSPlugin *p, const VSPLUGINAPI *v) {
    v->configPlugin(pid, pns, "test plugin", 7, papi, pflags, p);
    for (auto &r : regs) r.result = v->registerFunction(r.name, r.args, r.ret, fn, expectData, p);
}
static bool load(const char *forcens = nullptr, const char *forceid = nullptr) {
    initFn = plugInit;
    Args a; a.s("path", "/p.so"); if (forcens) a.s("forcens", forcens); if (forceid) a.s("forceid", forceid);
    VSMap *r = call("LoadPlugin", a); bool ok = !api->mapGetError(r); lastError = ok ? "" : api->mapGetError(r); api->freeMap(r);
    return ok;
}
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool identOk(const char *s) { if (!al(s[0])) return false; for (int i = 1; s[i]; i++) if (!al(s[i]) && s[i] != '_' && !(s[i] >= '0' && s[i] <= '9')) return false; return true; }
static int quiet(int, const char *, void *) { return 0; }
static void init() { setup(); expectData = &calls; }
HARNESS(h_regname) {
    init();
    int n = (int)vsx_param("n", 3); static char nm[8]; vsx_symbolic(nm, n, 1, "name"); nm[n] = 0;
    regs.push_back({ nm, "x:int", "", -1 });
    vsx_assert(load(), "plugin loads");
    bool ok = identOk(nm);
    vsx_assert((regs[0].result != 0) == ok, "exactly the valid identifiers are registered");
    VSPlugin *p = api->getPluginByID(pid, core); vsx_assert(p != nullptr && p == api->getPluginByNamespace(pns, core), "plugin can be found");
    VSPluginFunction *f = api->getPluginFunctionByName(nm, p);
    vsx_assert((f != nullptr) == ok, "a function that was refused does not exist");
    vsx_assert(api->getNextPluginFunction(nullptr, p) == f, "enumeration lists exactly the registered function");
    if (ok) vsx_cover("ok"); else vsx_cover("refused");
}
HARNESS(h_dup) {
    init();
    pflags = vsx_choice(2, "mod") ? pcModifiable : 0;
    regs.push_back({ "f", "", "", -1 }); regs.push_back({ "f", "x:int;", "", -1 }); regs.push_back({ "g", "", "", -1 });
    vsx_assert(load(), "plugin loads");
    vsx_assert(regs[0].result && !regs[1].result && regs[2].result, "a name is registered once");
    VSPlugin *p = api->getPluginByID(pid, core);
    // enumeration visits every function exactly once
    int seenF = 0, seenG = 0, n = 0;
    for (VSPluginFunction *f = api->getNextPluginFunction(nullptr, p); f && n < 5; f = api->getNextPluginFunction(f, p), n++) { seenF += !strcmp(api->getPluginFunctionName(f), "f"); seenG += !strcmp(api->getPluginFunctionName(f), "g"); }
    vsx_assert(n == 2 && seenF == 1 && seenG == 1, "every function is listed exactly once");
    vsx_assert(!strcmp(api->getPluginFunctionArguments(api->getPluginFunctionByName("f", p)), ""), "the first registration wins");
    vsx_assert(api->getPluginVersion(p) == 7 && !strcmp(api->getPluginName(p), "test plugin") && !strcmp(api->getPluginNamespace(p), pns), "plugin details");
    // ids and namespaces stay unique
    pid = vsx_choice(2, "sameid") ? "t.plug" : "t.other"; pns = vsx_choice(2, "samens") ? "tp" : "tq";
    bool want = strcmp(pid, "t.plug") && strcmp(pns, "tp");
    int before = closed;
    bool ok = load();
    vsx_assert(ok == want, "a plugin is refused exactly when its id or namespace is taken");
    vsx_assert(ok || closed == before + 1, "a refused plugin is unloaded");
    int cnt = 0, mine = 0; for (VSPlugin *q = api->getNextPlugin(nullptr, core); q && cnt < 20; q = api->getNextPlugin(q, core)) { cnt++; mine += !strcmp(api->getPluginNamespace(q), "tp"); }
    vsx_assert(mine == 1, "plugin listed once");
    vsx_assert(cnt == (want ? 5 : 4), "every plugin listed once");
    vsx_cover("done");
}
static VSPlugin *kept; static const VSPLUGINAPI *keptApi;
static void VS_CC plugInitKeep(VSPlugin *p, const VSPLUGINAPI *v) { kept = p; keptApi = v; plugInit(p, v); }
HARNESS(h_readonly) {
    init();
    bool mod = vsx_choice(2, "mod"); pflags = mod ? pcModifiable : 0;
    initFn = plugInitKeep; Args a; a.s("path", "/p.so"); VSMap *r = call("LoadPlugin", a); vsx_assert(!api->mapGetError(r), "plugin loads");
    int rc = keptApi->registerFunction("late", "", "", fn, expectData, kept);
    vsx_assert((rc != 0) == mod, "functions can only be added later to modifiable plugins");
    vsx_assert((api->getPluginFunctionByName("late", kept) != nullptr) == mod, "refused function does not exist");
    vsx_assert(keptApi->registerFunction("late", "", "", fn, expectData, api->getPluginByID(VSH_STD_PLUGIN_ID, core)) == 0, "built in plugins are read only");
    vsx_cover("done");
}
// every interface version
HARNESS(h_version) {
    int v = vsx_range<int>(0, INT32_MAX, "version");
    int major = v >= 65536 ? v >> 16 : v, minor = v >= 65536 ? v & 65535 : 0;
    const VSAPI *a = getVapourSynthAPI(v);
    bool want4 = major == VAPOURSYNTH_API_MAJOR && minor <= VAPOURSYNTH_API_MINOR, want3 = major == 3 && minor <= 6;
    vsx_assert((a != nullptr) == (want4 || want3), "exactly the supported interface versions are available");
    if (want4) { vsx_assert(a == getVapourSynthAPI(VAPOURSYNTH_API_VERSION), "one interface per major version"); vsx_cover("v4"); }
    else if (want3) { vsx_assert(a != getVapourSynthAPI(VAPOURSYNTH_API_VERSION), "interfaces differ"); vsx_cover("v3"); }
    else vsx_cover("refused");
}
HARNESS(h_plugversion) {
    init();
    papi = vsx_range<int>(0, INT32_MAX, "version");
    int major = papi >= 65536 ? papi >> 16 : papi, minor = papi >= 65536 ? papi & 65535 : 0;
    bool want = (major == VAPOURSYNTH_API_MAJOR && minor <= VAPOURSYNTH_API_MINOR) || (major == 3 && minor <= 6);
    bool ok = load();
    vsx_assert(ok == want, "exactly the plugins written for a supported interface load");
    vsx_assert((api->getPluginByID(pid, core) != nullptr) == want, "a refused plugin is not listed");
    vsx_assert(closed == (want ? 0 : 1), "a refused plugin is unloaded");
    if (ok) vsx_cover("ok"); else vsx_cover("refused");
}
// argument strings: every combination of name, type and modifiers
HARNESS(h_regargs) {
    init();
    static const char *names[] = { "a", "ab_1", "1a", "_a", "a b" }; static const bool nameOk[] = { true, true, false, false, false };
    static const char *types[] = { "int", "float", "data", "vnode", "anode", "vframe", "aframe", "func", "clip", "in", "" }; 
    static const char *mods[] = { "opt", "empty", "foo" };
    int ni = vsx_choice(5, "name"), ti = vsx_choice(11, "type"); bool arr = vsx_choice(2, "arr");
    static char s[64]; snprintf(s, sizeof s, "%s:%s%s", names[ni], types[ti], arr ? "[]" : "");
    bool ok = nameOk[ni] && ti < 8; int nm = vsx_choice(3, "nmods"), cnt[3] = { 0, 0, 0 };
    for (int i = 0; i < nm; i++) { int m = vsx_choice(3, "mod"); cnt[m]++; strcat(s, ":"); strcat(s, mods[m]); }
    if (cnt[0] > 1 || cnt[1] > 1 || cnt[2] || (cnt[1] && !arr)) ok = false;
    if (ti == 10 && !arr) ok = false;
    if (vsx_choice(2, "semi")) strcat(s, ";");
    bool asRet = vsx_choice(2, "ret");
    regs.push_back({ "f", asRet ? "" : s, asRet ? s : "", -1 });
    vsx_assert(load(), "plugin loads");
    vsx_assert((regs[0].result != 0) == ok, "exactly the well formed signatures are registered");
    VSPluginFunction *f = api->getPluginFunctionByName("f", api->getPluginByID(pid, core));
    vsx_assert((f != nullptr) == ok, "a refused function does not exist");
    if (f) { vsx_assert(!strcmp(asRet ? api->getPluginFunctionReturnType(f) : api->getPluginFunctionArguments(f), s), "the signature is kept"); vsx_cover("ok"); }
    else vsx_cover("refused");
}
// invocation: the function runs exactly when the arguments fit its signature
static const int tys[] = { ptInt, ptFloat, ptData, ptVideoNode, ptFunction };
static void putN(VSMap *m, const char *k, int type, int n, VSNode *node) {
    if (n == 0) { api->mapSetEmpty(m, k, type); return; }
    for (int i = 0; i < n; i++) switch (type) {
        case ptInt: api->mapSetInt(m, k, vsx_any<int64_t>("iv"), maAppend); break;
        case ptFloat: api->mapSetFloat(m, k, vsx_any<double>("fv"), maAppend); break;
        case ptData: api->mapSetData(m, k, "d", 1, dtUtf8, maAppend); break;
        case ptVideoNode: api->mapSetNode(m, k, node, maAppend); break;
        case ptFunction: { VSFunction *f = api->createFunction([](const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}, nullptr, nullptr, core); api->mapConsumeFunction(m, k, f, maAppend); break; }
    }
}
HARNESS(h_invoke) {
    init();
    struct P { const char *name; int type; bool arr, opt, empty; };
    P ps[2]; static char sig[128]; sig[0] = 0;
    static const char *tn[] = { "int", "float", "data", "vnode", "func" };
    int np = (int)vsx_param("np", 2);
    for (int i = 0; i < np; i++) {
        ps[i].name = i ? "b" : "a"; int t = i == 0 ? vsx_choice(5, "ptype") : vsx_choice(2, "ptype"); ps[i].type = tys[t]; ps[i].arr = vsx_choice(2, "arr"); ps[i].opt = vsx_choice(2, "opt"); ps[i].empty = ps[i].arr && vsx_choice(2, "empty");
        char tmp[64]; snprintf(tmp, sizeof tmp, "%s:%s%s%s%s;", ps[i].name, tn[t], ps[i].arr ? "[]" : "", ps[i].opt ? ":opt" : "", ps[i].empty ? ":empty" : ""); strcat(sig, tmp);
    }
    bool any = vsx_choice(2, "any"); if (any) strcat(sig, "any");
    regs.push_back({ "f", sig, "any", -1 });
    vsx_assert(load() && regs[0].result, "registered");
    Src *s = mkSrc(fmtOf(pfGray8), 8, 8, 1, "src", srcConcrete);
    VSMap *m = api->createMap(); bool ok = true;
    for (int i = 0; i < np; i++) {
        int n = (int)vsx_choice(4, "given") - 1; // -1: absent
        if (n < 0) { if (!ps[i].opt) ok = false; continue; }
        int t = i == 0 ? vsx_choice(5, "gtype") : vsx_choice(2, "gtype");
        putN(m, ps[i].name, tys[t], n, s->node);
        if (tys[t] != ps[i].type || (n > 1 && !ps[i].arr) || (n == 0 && !ps[i].empty)) ok = false;
    }
    if (vsx_choice(2, "extra")) { api->mapSetInt(m, "zz", 1, maReplace); if (!any) ok = false; }
    echo = true; calls = 0;
    int keys = api->mapNumKeys(m);
    VSMap *r = api->invoke(api->getPluginByID(pid, core), "f", m);
    vsx_assert(r != nullptr, "a result is returned");
    vsx_assert(calls == (ok ? 1 : 0), "the function runs exactly when the arguments match");
    vsx_assert((api->mapGetError(r) != nullptr) == !ok, "an error is reported exactly when they do not");
    vsx_assert(!badData, "the function gets its own data");
    if (ok) { vsx_assert(api->mapNumKeys(r) == keys, "the function sees all arguments"); vsx_cover("ok"); } else vsx_cover("refused");
    vsx_assert(api->mapNumKeys(m) == keys && !api->mapGetError(m), "the caller's map is not changed");
}
HARNESS(h_nofunc) {
    init(); regs.push_back({ "abc", "", "", -1 }); load();
    char nm[5]; vsx_symbolic(nm, 4, 1, "name"); nm[4] = 0;
    VSMap *m = api->createMap(); calls = 0;
    VSMap *r = api->invoke(api->getPluginByID(pid, core), nm, m);
    bool same = !strcmp(nm, "abc");
    vsx_assert(calls == same && (api->mapGetError(r) == nullptr) == same, "only existing functions run");
    if (same) vsx_cover("same"); else vsx_cover("other");
}
HARNESS(h_force) {
    init();
    bool fn_ = vsx_choice(2, "forcens"), fi = vsx_choice(2, "forceid");
    vsx_assert(load(fn_ ? "zns" : nullptr, fi ? "z.id" : nullptr), "plugin loads");
    VSPlugin *p = api->getPluginByID(fi ? "z.id" : pid, core);
    vsx_assert(p && p == api->getPluginByNamespace(fn_ ? "zns" : pns, core), "a forced id or namespace replaces the plugin's own");
    vsx_assert((api->getPluginByID(pid, core) != nullptr) == !fi && (api->getPluginByNamespace(pns, core) != nullptr) == !fn_, "nothing is listed under the replaced name");
    vsx_cover("done");
}
