// Native counterpart of the executor: runs a harness against the real code with the values of a counterexample.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <chrono>
#include <functional>
#define private public
#include <thread>
#undef private
#include <mutex>
#include <condition_variable>
#include <deque>
#include <map>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <cerrno>
#include <dlfcn.h>
#include <unistd.h>
#include <chrono>
#include "vsx.h"
extern "C" {
size_t __sanitizer_get_allocated_size(const volatile void *) __attribute__((weak));
int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
}
struct Rec { std::string name; std::vector<unsigned long long> v; };
static std::vector<Rec> g_in; static size_t g_at;
static long g_live; static thread_local int g_internal; // allocations of the replay runtime itself do not count
template <class T> struct BA { typedef T value_type; BA() {} template <class U> BA(const BA<U> &) {} T *allocate(size_t n) { static char *at, *end; n = (n * sizeof(T) + 63) & ~(size_t)63; if (!at || at + n > end) { size_t k = n > (1u << 24) ? n : 1u << 24; at = (char *)mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); end = at + k; } T *r = (T *)at; at += n; return r; } void deallocate(T *, size_t) {} template <class U> bool operator==(const BA<U> &) const { return true; } };
static void hm(const volatile void *, size_t) { if (!g_internal) __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED); }
static void hf(const volatile void *p) { if (p && !g_internal) __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); }
static void quit(int rc, const char *why) { printf("%s\n", why); fflush(stdout); _exit(rc); }
extern "C" {
void vsx_symbolic(void *p, size_t count, size_t esize, const char *name) noexcept {
    std::string nm = name; for (auto &c : nm) if (c == ' ') c = '_';
    if (g_at >= g_in.size()) quit(91, "REPLAY: inputs exhausted");
    Rec &r = g_in[g_at++];
    if (r.name != nm || r.v.size() != count) { printf("wanted %s[%zu], have %s[%zu]\n", nm.c_str(), count, r.name.c_str(), r.v.size()); quit(90, "REPLAY: inputs diverge"); }
    for (size_t i = 0; i < count; i++) memcpy((char *)p + i * esize, &r.v[i], esize);
}
void vsx_range_sym(void *p, size_t es, uint64_t, uint64_t, const char *name) noexcept { vsx_symbolic(p, 1, es, name); }
void vsx_check_range(const void *p, uint64_t n) noexcept { if (n) { volatile uint8_t x = ((const volatile uint8_t *)p)[0]; x = ((const volatile uint8_t *)p)[n - 1]; (void)x; } }
void vsx_assume(int c) noexcept { if (!c) quit(92, "REPLAY: assumption does not hold"); }
void vsx_fail(const char *msg) noexcept { printf("ASSERTION FAILED: %s\n", msg); quit(77, "REPLAY: violation reproduced"); }
void vsx_assert(int c, const char *msg) noexcept { if (!c) vsx_fail(msg); }
void vsx_assert_eqmem(const void *a, const void *b, size_t n, size_t es, const char *msg) noexcept {
    for (size_t i = 0; i < n; i++) if (memcmp((const char *)a + i * es, (const char *)b + i * es, es)) {
        unsigned long long x = 0, y = 0; memcpy(&x, (const char *)a + i * es, es < 8 ? es : 8); memcpy(&y, (const char *)b + i * es, es < 8 ? es : 8);
        printf("element %zu: 0x%llx vs 0x%llx\n", i, x, y); vsx_fail(msg);
    }
}
void vsx_cover(const char *id) noexcept { printf("COVER %s\n", id); fflush(stdout); }
uint64_t vsx_concretize(uint64_t v) noexcept { return v; }
uint32_t vsx_choice(uint32_t n, const char *name) noexcept { uint32_t v = 0; vsx_symbolic(&v, 1, 4, name); if (v >= n) quit(90, "REPLAY: inputs diverge"); return v; }
int64_t vsx_param(const char *name, int64_t def) noexcept { std::string k = std::string("VSX_P_") + name; const char *e = getenv(k.c_str()); return e ? atoll(e) : def; }
void vsx_done() noexcept { quit(0, "REPLAY: done"); }
int vsx_is_symbolic(const void *) noexcept { return 0; }
uint64_t vsx_live_objects() noexcept { return (uint64_t)__atomic_load_n(&g_live, __ATOMIC_RELAXED); }
uint64_t vsx_object_size(const void *p) noexcept { return __sanitizer_get_allocated_size ? __sanitizer_get_allocated_size(p) : 0; }
int vsx_is_freed(const void *p) noexcept { return __asan_address_is_poisoned ? __asan_address_is_poisoned(p) : 0; }
void vsx_print(const char *s, int64_t v) noexcept { printf("[print] %s %lld\n", s, (long long)v); }
}
// ---- cooperative scheduling: one thread runs at a time, changing over at the points and in the order the executor chose ----
enum { RUN, MUTEX, COND, JOIN, DONE };
struct Thr { int st = RUN; const void *on = nullptr; sem_t sem; void (*fn)(void *) = nullptr; void *arg = nullptr; };
typedef std::deque<Thr, BA<Thr>> Thrs; static Thrs *g_t; static int g_cur; static thread_local int g_me = 0;
static bool g_explore, g_exploreEnabled, g_explored; static unsigned g_sp; static std::map<unsigned, int> *g_sched;
struct Mtx { int owner = -1, depth = 0; }; typedef std::map<const void *, Mtx, std::less<const void *>, BA<std::pair<const void *const, Mtx>>> Mtxs; static Mtxs *g_mtx; typedef std::vector<std::pair<const void *, int>, BA<std::pair<const void *, int>>> Waiters; static Waiters *g_waiters;
static int64_t g_clock;
static void coopInit() { if (g_t) return; g_t = new Thrs; g_sched = new std::map<unsigned, int>; g_mtx = new Mtxs; g_waiters = new Waiters; g_t->emplace_back(); sem_init(&(*g_t)[0].sem, 0, 0); }
static void waitSem(sem_t *s) { while (sem_wait(s)) {} }
static void switchTo(int t, bool leaving) { int me = g_me; if (t == me) { g_cur = t; return; } g_cur = t; sem_post(&(*g_t)[t].sem); if (!leaving) waitSem(&(*g_t)[me].sem); }
static void scheduleNext(bool leaving = false) {
    std::vector<int, BA<int>> run; for (size_t i = 0; i < g_t->size(); i++) if ((*g_t)[i].st == RUN) run.push_back((int)i);
    if (run.empty()) { static const char *n[] = { "running", "mutex", "condition variable", "join", "done" }; for (size_t i = 0; i < g_t->size(); i++) printf("T%zu=%s ", i, n[(*g_t)[i].st]); quit(77, "\nREPLAY: violation reproduced: no thread can make progress"); }
    int pick = run[0]; for (int r : run) if (r > g_cur) { pick = r; break; }
    unsigned sp = g_sp++;
    if (g_explore && run.size() > 1) { auto i = g_sched->find(sp); if (i != g_sched->end()) { if ((*g_t)[i->second].st != RUN) quit(90, "REPLAY: schedule diverges"); pick = i->second; } }
    switchTo(pick, leaving);
}
static void switchPoint() {
    if (!g_explore) return;
    bool other = false; for (size_t i = 0; i < g_t->size(); i++) if ((int)i != g_me && (*g_t)[i].st == RUN) other = true;
    if (!other) return;
    auto i = g_sched->find(g_sp++); if (i == g_sched->end() || i->second == g_me) return;
    if ((size_t)i->second >= g_t->size() || (*g_t)[i->second].st != RUN) quit(90, "REPLAY: schedule diverges");
    switchTo(i->second, false);
}
static void release(const void *m) { (*g_mtx)[m] = Mtx(); for (auto &t : *g_t) if (t.st == MUTEX && t.on == m) t.st = RUN; }
static void take(const void *m) { while ((*g_mtx)[m].owner >= 0) { Thr &t = (*g_t)[g_me]; t.st = MUTEX; t.on = m; scheduleNext(); } (*g_mtx)[m].owner = g_me; (*g_mtx)[m].depth = 1; }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    coopInit(); Mtx &x = (*g_mtx)[m];
    if (x.owner == g_me) { if ((m->__data.__kind & 3) == 1) { x.depth++; return 0; } quit(77, "REPLAY: violation reproduced: a thread locks a mutex it already holds"); }
    switchPoint(); take(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { coopInit(); switchPoint(); Mtx &x = (*g_mtx)[m]; if (x.owner >= 0) return EBUSY; x.owner = g_me; x.depth = 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    coopInit(); Mtx &x = (*g_mtx)[m]; if (x.owner != g_me) quit(77, "REPLAY: violation reproduced: a mutex is unlocked by a thread that does not hold it");
    if (x.depth > 1) { x.depth--; return 0; } release(m); return 0;
}
static void *tmain(void *p) {
    int id = (int)(intptr_t)p; g_me = id; g_internal = 0; Thr &t = (*g_t)[id]; waitSem(&t.sem);
    t.fn(t.arg); t.st = DONE;
    for (auto &o : *g_t) if (o.st == JOIN && o.on == (void *)(intptr_t)id) o.st = RUN;
    g_internal++; scheduleNext(true); return nullptr;
}
int vsx_thread_create(void (*fn)(void *), void *arg) noexcept {
    coopInit(); int id = (int)g_t->size(); g_t->emplace_back(); Thr &t = g_t->back(); sem_init(&t.sem, 0, 0); t.fn = fn; t.arg = arg;
    pthread_t h; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    g_internal++; int rc =  pthread_create(&h, &a, tmain, (void *)(intptr_t)id); g_internal--; if (rc) quit(94, "REPLAY: no thread"); return id;
}
void vsx_thread_join(long id) noexcept { Thr &o = (*g_t)[(size_t)id]; while (o.st != DONE) { Thr &t = (*g_t)[g_me]; t.st = JOIN; t.on = (void *)(intptr_t)id; scheduleNext(); } }
void vsx_explore(int on) noexcept { coopInit(); g_explore = on && g_exploreEnabled; if (g_explore && !g_explored) { g_explored = true; g_sp = 0; } }
int vsx_tid() noexcept { return g_me; }
void vsx_yield() noexcept { coopInit(); switchPoint(); }
int64_t vsx_now() noexcept { return g_clock += 1000; }
void vsx_advance(int64_t ns) noexcept { g_clock += ns; }
}
namespace std {
static void threadEntry(void *p) { thread::_State *s = (thread::_State *)p; s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((native_handle_type)(unsigned long)(vsx_thread_create(threadEntry, s.release()) + 1)); }
void thread::join() { unsigned long t; memcpy(&t, &_M_id, sizeof t); vsx_thread_join((long)t - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
void condition_variable::wait(unique_lock<mutex> &l) {
    const void *m = l.mutex()->native_handle(); coopInit(); if ((*g_mtx)[m].owner != g_me) quit(77, "REPLAY: violation reproduced: condition wait without holding the mutex");
    release(m); Thr &t = (*g_t)[g_me]; t.st = COND; t.on = this; g_waiters->push_back({ this, g_me }); scheduleNext();
    take(m);
}
static void wake(const void *cv, int tid) { for (size_t i = 0; i < g_waiters->size(); i++) if ((*g_waiters)[i] == std::make_pair(cv, tid)) { g_waiters->erase(g_waiters->begin() + (long)i); break; } (*g_t)[tid].st = RUN; }
static void notify(const void *cv, bool all) {
    coopInit(); std::vector<int, BA<int>> w; for (auto &x : *g_waiters) if (x.first == cv) w.push_back(x.second);
    if (w.empty()) return;
    if (all) { for (int t : w) wake(cv, t); return; }
    int pick = w[0];
    if (g_explore && w.size() > 1) { auto i = g_sched->find(g_sp++); if (i != g_sched->end()) pick = i->second; }
    wake(cv, pick);
}
void condition_variable::notify_one() noexcept { notify(this, false); }
void condition_variable::notify_all() noexcept { notify(this, true); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vsx_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vsx_now())); }
} }
}
// the standard filters are part of this executable
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *vsx_dlopen(const char *, int) __attribute__((weak)); void *vsx_dlsym(void *, const char *) __attribute__((weak)); int vsx_dlclose(void *) __attribute__((weak));
void *__wrap_dlopen(const char *f, int fl) { if (vsx_dlopen) return vsx_dlopen(f, fl); if (f && strstr(f, "libvapoursynthfilters")) return __real_dlopen(nullptr, RTLD_NOW); return __real_dlopen(f, fl); }
void *__wrap_dlsym(void *h, const char *n) { if (vsx_dlsym) return vsx_dlsym(h, n); return __real_dlsym(h, n); }
int __wrap_dlclose(void *h) { return vsx_dlclose ? vsx_dlclose(h) : 0; }
}
int main() {
    const char *f = getenv("VSX_INPUTS"), *e = getenv("VSX_ENTRY");
    if (FILE *i = f ? fopen(f, "r") : nullptr) {
        char nm[512]; size_t n;
        while (fscanf(i, "%511s %zu", nm, &n) == 2) { Rec r; r.name = nm; for (size_t k = 0; k < n; k++) { unsigned long long v = 0; if (fscanf(i, "%llu", &v) != 1) break; r.v.push_back(v); } g_in.push_back(r); }
        fclose(i);
    }
    coopInit();
    g_exploreEnabled = getenv("VSX_EXPLORE") != nullptr;
    const char *sf = getenv("VSX_SCHED"); if (FILE *i = sf ? fopen(sf, "r") : nullptr) { unsigned a; int b; while (fscanf(i, "%u %d", &a, &b) == 2) (*g_sched)[a] = b; fclose(i); }
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hm, hf);
    void (*fn)() = (void (*)())__real_dlsym(__real_dlopen(nullptr, RTLD_NOW), e ? e : "");
    if (!fn) quit(93, "REPLAY: no entry");
    fn();
    quit(0, "REPLAY: finished without a violation");
}
