// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vsx_symbolic(void *p, size_t count, size_t esize, const char *name) noexcept; // fresh arbitrary values
void vsx_range_sym(void *p, size_t esize, uint64_t lo, uint64_t hi, const char *name) noexcept; // any value in [lo, hi]
void vsx_check_range(const void *p, uint64_t n) noexcept; // n bytes at p are inside one live object
void vsx_assume(int c) noexcept;
void vsx_assert(int c, const char *msg) noexcept;
void vsx_assert_eqmem(const void *a, const void *b, size_t n, size_t esize, const char *msg) noexcept;
void vsx_cover(const char *id) noexcept;          // reachability witness
void vsx_fail(const char *msg) noexcept;
uint64_t vsx_concretize(uint64_t v) noexcept;     // explores every value
uint32_t vsx_choice(uint32_t n, const char *name) noexcept; // every value below n, one path each
int64_t vsx_param(const char *name, int64_t def) noexcept;
void vsx_done() noexcept;
int vsx_is_symbolic(const void *p) noexcept;
uint64_t vsx_live_objects() noexcept;
uint64_t vsx_object_size(const void *p) noexcept;
int vsx_is_freed(const void *p) noexcept;
void vsx_explore(int on) noexcept;                // branch over schedules from here on
void vsx_print(const char *s, int64_t v) noexcept;
int vsx_thread_create(void (*fn)(void *), void *arg) noexcept;
void vsx_thread_join(long tid) noexcept;
int vsx_tid() noexcept;
void vsx_yield() noexcept;
int64_t vsx_now() noexcept;
void vsx_advance(int64_t ns) noexcept;             // moves the clock
void vsx_cond_wait(void *cv, void *m) noexcept;
void vsx_cond_notify(void *cv, int all) noexcept;
}
template <class T> static inline T vsx_any(const char *name) { T v; vsx_symbolic(&v, 1, sizeof v, name); return v; }
template <class T> static inline T vsx_range(T lo, T hi, const char *name) { T v; vsx_range_sym(&v, sizeof v, (uint64_t)lo, (uint64_t)hi, name); return v; }
static inline double vsx_rangef(double lo, double hi, const char *name) { double v; vsx_symbolic(&v, 1, sizeof v, name); vsx_assume((v >= lo) & (v <= hi)); return v; }
