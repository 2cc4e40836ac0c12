// Library functions that are only declared in the headers, compiled to bitcode and linked with the code under test.
#include <string>
#include <sstream>
#include <memory>
#include <stdexcept>
#define private public
#include <thread>
#undef private
#include <condition_variable>
#include <chrono>
#include <list>
#include <map>
#include <unordered_map>
#include <functional>
#include <new>
#include <typeinfo>
#include <system_error>
#include <cstring>
#include <cstdio>
#include "vsx.h"
extern "C" void vsx_fatal(const char *) __attribute__((noreturn));
extern "C" void *vsx_end_catch() noexcept;
extern "C" void vsx_exc_done(void *) noexcept;
extern "C" void __cxa_end_catch() {
    void *o = vsx_end_catch();
    if (!o) return;
    void (*dtor)(void *); memcpy(&dtor, (char *)o - 56, sizeof dtor);
    if (dtor) dtor(o);
    vsx_exc_done(o);
}
namespace std {
const char *exception::what() const noexcept { return "std::exception"; }
exception::~exception() noexcept {}
// the error texts are kept in a plain heap string
struct vsx_msg { char *p; };
static char *dupstr(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
logic_error::logic_error(const char *s) { char *p = dupstr(s); memcpy((void *)&_M_msg, &p, sizeof p); }
logic_error::logic_error(const string &s) : logic_error(s.c_str()) {}
logic_error::~logic_error() noexcept { char *p; memcpy(&p, (void *)&_M_msg, sizeof p); free(p); }
const char *logic_error::what() const noexcept { char *p; memcpy(&p, (void *)&_M_msg, sizeof p); return p; }
runtime_error::runtime_error(const char *s) { char *p = dupstr(s); memcpy((void *)&_M_msg, &p, sizeof p); }
runtime_error::runtime_error(const string &s) : runtime_error(s.c_str()) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : runtime_error(o.what()) {}
runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
runtime_error::~runtime_error() noexcept { char *p; memcpy(&p, (void *)&_M_msg, sizeof p); free(p); }
const char *runtime_error::what() const noexcept { char *p; memcpy(&p, (void *)&_M_msg, sizeof p); return p; }
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string::~__cow_string() {}
out_of_range::out_of_range(const char *s) : logic_error(s) {}
out_of_range::out_of_range(const string &s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const char *s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_cast::~bad_cast() noexcept {}
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
// threads
thread::_State::~_State() {}
static void threadEntry(void *p) { thread::_State *s = (thread::_State *)p; s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((native_handle_type)(unsigned long)(vsx_thread_create(threadEntry, s.release()) + 1)); }
void thread::join() { unsigned long t; memcpy(&t, &_M_id, sizeof t); vsx_thread_join((long)t - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { vsx_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vsx_cond_notify(this, 0); }
void condition_variable::notify_all() noexcept { vsx_cond_notify(this, 1); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vsx_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vsx_now())); }
} }
// list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { _List_node_base *t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// hash tables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = { 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061 };
    for (size_t p : pr) if (p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; }
    _M_next_resize = n; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t need = ne + ni; if (_M_next_resize == 0 && need < 11) need = 11;
        if (need >= nb) { size_t w = need + 1; if (w < nb * 2) w = nb * 2; return { true, _M_next_bkt(w) }; }
        _M_next_resize = nb; return { false, 0 };
    }
    return { false, 0 };
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *b = (const unsigned char *)p; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } return h ^ (h >> 29); }
// red-black trees (the classical algorithms)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto *xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            auto *y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
        } else {
            auto *y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *z, _Rb_tree_node_base &h) noexcept {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right, *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; auto cc = y->_M_color; y->_M_color = z->_M_color; z->_M_color = cc; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                auto *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
            } else {
                auto *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}
extern "C" { char __libc_single_threaded = 0; }
template class std::basic_string<char>;
extern "C" int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
extern "C" int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { memset(c, 0, sizeof *c); return 0; }
