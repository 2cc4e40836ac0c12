#include <charconv>
// Native models: C runtime primitives, exceptions, threads, the harness interface and LLVM/x86 intrinsics.
#include "vm.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <memory>

#define NAT(n) static NRes n(VM &vm, CallCtx &c)
static std::unordered_map<std::string, Native> g_nat;
static bool conc(VM &vm, CallCtx &c, unsigned i, const char *why, uint64_t &v) {
    Val *p = c.arg(i); Val x = *p;
    if (x.e) { unsigned w = N(x.e).w; if (!vm.concretize(c.s, x, w, why)) return false; }
    v = x.c; return true;
}
#define CONC(i, var, why) uint64_t var; if (!conc(vm, c, i, why, var)) return NR_RETRY;
#define RET(v) do { c.setRet(v); return NR_OK; } while (0)
static NRes dead(VM &vm) { (void)vm; return NR_DEAD; }

// ---- allocation ------------------------------------------------------------------------------
static uint64_t doAlloc(VM &vm, CallCtx &c, Val size, uint8_t kind, bool zero, const char *tag, bool &retry) {
    retry = false;
    if (size.e) {
        Node &n = N(size.e);
        if (n.umin == n.umax) size = CV(n.umin);
        else {
            Ref big = mkUlt(mkConst(0xffffff00ull, 64), size.e);
            int d = isConst(big) ? (int)constVal(big) : vm.decide(c.s, big);
            if (d) return 0;
            return vm.alloc(c.s, 0xffffff00ull, kind, zero, tag, size.e);
        }
    }
    if (size.c > 0xffffff00ull) return 0;
    return vm.alloc(c.s, size.c, kind, zero, tag);
}
NAT(n_malloc) { bool r; uint64_t a = doAlloc(vm, c, *c.arg(0), OK_MALLOC, false, "malloc", r); RET(CV(a)); }
NAT(n_calloc) { bool r; Val sz = vBin(O_MUL, *c.arg(0), *c.arg(1), 64); uint64_t a = doAlloc(vm, c, sz, OK_MALLOC, true, "calloc", r); RET(CV(a)); }
NAT(n_free) { CONC(0, a, "free"); if (!vm.freeObj(c.s, a, OK_MALLOC, "free")) return dead(vm); return NR_OK; }
NAT(n_realloc) {
    CONC(0, a, "realloc"); CONC(1, n, "realloc size");
    uint64_t d = vm.alloc(c.s, n, OK_MALLOC, false, "realloc");
    if (a) { MemObj *o = c.s.obj((uint32_t)(a >> 32)); uint64_t m = o ? std::min<uint64_t>(o->size, n) : 0; vm.memcpyC(c.s, d, a, m); if (!vm.freeObj(c.s, a, OK_MALLOC, "realloc")) return dead(vm); }
    RET(CV(d));
}
NAT(n_posix_memalign) {
    CONC(0, pp, "posix_memalign"); bool r; uint64_t a = doAlloc(vm, c, *c.arg(2), OK_MALLOC, false, "posix_memalign", r);
    if (!a) RET(CV(12));
    if (!vm.store(c.s, CV(pp), 8, CV(a), 64)) return NR_DEAD; RET(CV(0));
}
NAT(n_aligned_alloc) { bool r; uint64_t a = doAlloc(vm, c, *c.arg(1), OK_MALLOC, false, "aligned_alloc", r); RET(CV(a)); }
static NRes newk(VM &vm, CallCtx &c, uint8_t kind) {
    bool r; uint64_t a = doAlloc(vm, c, *c.arg(0), kind, false, kind == OK_NEW ? "new" : "new[]", r);
    if (!a) { vm.kill(c.s, "allocation of more than 4 GiB by operator new (std::bad_alloc not modelled)", false); return NR_DEAD; }
    RET(CV(a));
}
NAT(n_new) { return newk(vm, c, OK_NEW); }
NAT(n_newarr) { return newk(vm, c, OK_NEWARR); }
NAT(n_delete) { CONC(0, a, "delete"); if (!vm.freeObj(c.s, a, OK_NEW, "operator delete")) return dead(vm); return NR_OK; }
NAT(n_deletearr) { CONC(0, a, "delete[]"); if (!vm.freeObj(c.s, a, OK_NEWARR, "operator delete[]")) return dead(vm); return NR_OK; }
NAT(n_mmap) { CONC(1, n, "mmap length"); RET(CV(vm.alloc(c.s, n, OK_MMAP, true, "mmap"))); }
NAT(n_munmap) { CONC(0, a, "munmap"); if (!vm.freeObj(c.s, a, OK_MMAP, "munmap")) return dead(vm); RET(CV(0)); }

// ---- memory and strings --------------------------------------------------------------------------
static NRes memcp(VM &vm, CallCtx &c) {
    Val nv = *c.arg(2); if (nv.e && !vm.concretize(c.s, nv, 64, "memcpy length")) return NR_RETRY;
    if (nv.c == 0) { c.setRet(*c.arg(0)); return NR_OK; }
    uint64_t d, s; if (!vm.checkRange(c.s, *c.arg(1), nv.c, false, &s)) return NR_RETRY; if (!vm.checkRange(c.s, *c.arg(0), nv.c, true, &d)) return NR_RETRY;
    vm.memcpyC(c.s, d, s, nv.c);
    c.setRet(CV(d)); return NR_OK;
}
NAT(n_memcpy) { return memcp(vm, c); }
NAT(n_memset) {
    Val nv = *c.arg(2); if (nv.e && !vm.concretize(c.s, nv, 64, "memset length")) return NR_RETRY;
    if (nv.c == 0) { c.setRet(*c.arg(0)); return NR_OK; }
    uint64_t d; if (!vm.checkRange(c.s, *c.arg(0), nv.c, true, &d)) return NR_RETRY;
    Val b = *c.arg(1); if (b.e && N(b.e).w > 8) b = fromRef(mkExtract(b.e, 0, 8)); 
    MemObj *o = c.s.writable((uint32_t)(d >> 32)); uint64_t off = d & 0xffffffff;
    if (!b.e) { vm.ensureCap(o, off + nv.c); memset(o->data + off, (int)(b.c & 255), nv.c); if (o->sym) memset(o->sym + off, 0, nv.c * 4); }
    else for (uint64_t i = 0; i < nv.c; i++) vm.storeObj(c.s, o, off + i, 1, b);
    c.setRet(CV(d)); return NR_OK;
}
// expression for the byte at address p+i
static bool peekByte(VM &vm, State &s, uint64_t p, uint64_t i, Val &v) {
    MemObj *o = s.obj((uint32_t)(p >> 32)); uint64_t off = (p & 0xffffffff) + i;
    if (!o || o->freed) return false;
    if (o->symSize) { if (vm.decide(s, mkUlt(mkConst(off, 64), o->symSize)) != 1) return false; o = s.obj((uint32_t)(p >> 32)); }
    else if (off >= o->size) return false;
    v = vm.loadObj(s, o, off, 1); return true;
}
static NRes memcmpCommon(VM &vm, CallCtx &c, bool) {
    Val nv = *c.arg(2); if (nv.e && !vm.concretize(c.s, nv, 64, "memcmp length")) return NR_RETRY;
    uint64_t a = 0, b = 0; if (nv.c) { if (!vm.checkRange(c.s, *c.arg(0), nv.c, false, &a)) return NR_RETRY; if (!vm.checkRange(c.s, *c.arg(1), nv.c, false, &b)) return NR_RETRY; }
    std::vector<std::pair<Val, Val>> v; Val res = CV(0);
    for (uint64_t i = 0; i < nv.c; i++) {
        Val x, y; peekByte(vm, c.s, a, i, x); peekByte(vm, c.s, b, i, y);
        if (!(x.e | y.e)) { if (x.c == y.c) continue; res = CV(x.c < y.c ? 0xffffffffu : 1u); break; }
        if (x.e == y.e && x.e) continue;
        v.push_back({ x, y });
    }
    for (size_t i = v.size(); i--;) { Val ne = fromRef(mkNot(mkEq(toRef(v[i].first, 8), toRef(v[i].second, 8)))); Val lt = vIcmp(P_ULT, v[i].first, v[i].second, 8); res = vIte(ne, vIte(lt, CV(0xffffffffu), CV(1), 32), res, 32); }
    RET(res);
}
NAT(n_memcmp) { return memcmpCommon(vm, c, false); }
NAT(n_strcmp) {
    CONC(0, a, "strcmp"); CONC(1, b, "strcmp");
    std::vector<std::pair<Val, Val>> v; Val res = CV(0);
    for (uint64_t i = 0;; i++) {
        Val x, y;
        if (!peekByte(vm, c.s, a, i, x) || !peekByte(vm, c.s, b, i, y)) {
            // the end of an object is reached only if every earlier byte was equal and non zero
            Ref reach = mkTrue(); for (auto &p : v) { reach = mkBin(O_AND, reach, mkEq(toRef(p.first, 8), toRef(p.second, 8))); reach = mkBin(O_AND, reach, mkNot(mkEq(toRef(p.first, 8), mkConst(0, 8)))); }
            if (isConst(reach) ? constVal(reach) : vm.branch(c.s, reach, nullptr, nullptr, nullptr, nullptr) != 0) { vm.report(c.s, "out-of-bounds", "strcmp reads past the end of an object", reach); return NR_DEAD; }
            break;
        }
        if (!(x.e | y.e)) { if (x.c != y.c) { res = CV(x.c < y.c ? 0xffffffffu : 1u); break; } if (!x.c) break; continue; }
        v.push_back({ x, y });
    }
    for (size_t i = v.size(); i--;) {
        Val ne = fromRef(mkNot(mkEq(toRef(v[i].first, 8), toRef(v[i].second, 8)))); Val lt = vIcmp(P_ULT, v[i].first, v[i].second, 8);
        Val z = vIcmp(P_EQ, v[i].first, CV(0), 8);
        res = vIte(ne, vIte(lt, CV(0xffffffffu), CV(1), 32), vIte(z, CV(0), res, 32), 32);
    }
    RET(res);
}
// walks a string, deciding symbolic bytes; returns false when the state must retry / is dead
static bool strLen(VM &vm, CallCtx &c, uint64_t p, uint64_t &n, uint64_t lim = ~0ull) {
    for (n = 0; n < lim; n++) {
        Val x; if (!peekByte(vm, c.s, p, n, x)) { vm.report(c.s, "out-of-bounds", "string read past the end of an object"); return false; }
        if (!x.e) { if (!x.c) return true; continue; }
        int d = vm.decide(c.s, mkEq(x.e, mkConst(0, 8)));
        if (d == 1) return true;
    }
    return true;
}
NAT(n_strlen) { CONC(0, a, "strlen"); uint64_t n; if (!strLen(vm, c, a, n)) return NR_DEAD; RET(CV(n)); }
NAT(n_strcpy) { CONC(0, d, "strcpy"); CONC(1, a, "strcpy"); uint64_t n; if (!strLen(vm, c, a, n)) return NR_DEAD; uint64_t x; if (!vm.checkRange(c.s, CV(d), n + 1, true, &x)) return NR_DEAD; vm.memcpyC(c.s, d, a, n + 1); RET(CV(d)); }
NAT(n_strncpy) {
    CONC(0, d, "strncpy"); CONC(1, a, "strncpy"); CONC(2, lim, "strncpy"); uint64_t n; if (!strLen(vm, c, a, n, lim)) return NR_DEAD;
    uint64_t x; if (!vm.checkRange(c.s, CV(d), lim, true, &x)) return NR_DEAD; vm.memcpyC(c.s, d, a, std::min(n, lim));
    if (n < lim) { std::vector<uint8_t> z(lim - n, 0); vm.writeBytes(c.s, d + n, z.data(), z.size()); } RET(CV(d));
}
NAT(n_strcat) { CONC(0, d, "strcat"); CONC(1, a, "strcat"); uint64_t n, k; if (!strLen(vm, c, d, k) || !strLen(vm, c, a, n)) return NR_DEAD; uint64_t x; if (!vm.checkRange(c.s, CV(d + k), n + 1, true, &x)) return NR_DEAD; vm.memcpyC(c.s, d + k, a, n + 1); RET(CV(d)); }
NAT(n_strncmp) {
    CONC(0, a, "strncmp"); CONC(1, b, "strncmp"); CONC(2, lim, "strncmp");
    std::vector<std::pair<Val, Val>> v; Val res = CV(0);
    for (uint64_t i = 0; i < lim; i++) {
        Val x, y; if (!peekByte(vm, c.s, a, i, x) || !peekByte(vm, c.s, b, i, y)) break;
        if (!(x.e | y.e)) { if (x.c != y.c) { res = CV(x.c < y.c ? 0xffffffffu : 1u); break; } if (!x.c) break; continue; }
        v.push_back({ x, y });
    }
    for (size_t i = v.size(); i--;) { Val ne = fromRef(mkNot(mkEq(toRef(v[i].first, 8), toRef(v[i].second, 8)))); Val lt = vIcmp(P_ULT, v[i].first, v[i].second, 8); Val z = vIcmp(P_EQ, v[i].first, CV(0), 8); res = vIte(ne, vIte(lt, CV(0xffffffffu), CV(1), 32), vIte(z, CV(0), res, 32), 32); }
    RET(res);
}
NAT(n_memchr) {
    CONC(0, a, "memchr"); CONC(2, n, "memchr length"); Val ch = *c.arg(1); ch = ch.e ? fromRef(mkExtract(ch.e, 0, 8)) : CV(ch.c & 255);
    if (n) { uint64_t x; if (!vm.checkRange(c.s, CV(a), n, false, &x)) return NR_RETRY; }
    for (uint64_t i = 0; i < n; i++) { Val x; peekByte(vm, c.s, a, i, x); if (!(x.e | ch.e)) { if (x.c == ch.c) RET(CV(a + i)); continue; } if (vm.decide(c.s, mkEq(toRef(x, 8), toRef(ch, 8))) == 1) RET(CV(a + i)); }
    RET(CV(0));
}
NAT(n_strchr) {
    CONC(0, a, "strchr"); Val ch = *c.arg(1); ch = ch.e ? fromRef(mkExtract(ch.e, 0, 8)) : CV(ch.c & 255);
    for (uint64_t i = 0;; i++) {
        Val x; if (!peekByte(vm, c.s, a, i, x)) { vm.report(c.s, "out-of-bounds", "strchr reads past the end of an object"); return NR_DEAD; }
        Ref eq = mkEq(toRef(x, 8), toRef(ch, 8)); if ((isConst(eq) ? (int)constVal(eq) : vm.decide(c.s, eq)) == 1) RET(CV(a + i));
        Ref z = mkEq(toRef(x, 8), mkConst(0, 8)); if ((isConst(z) ? (int)constVal(z) : vm.decide(c.s, z)) == 1) RET(CV(0));
    }
}
NAT(n_isspace) {
    Val x = *c.arg(0); Ref e = toRef(x, 32);
    Ref r = mkBin(O_OR, mkEq(e, mkConst(32, 32)), mkBin(O_AND, mkUle(mkConst(9, 32), e), mkUle(e, mkConst(13, 32))));
    RET(fromRef(mkZExt(r, 32)));
}
// ---- formatted output ----------------------------------------------------------------------------
// arguments come from `next`; symbolic numbers are printed as '#'
static std::string fmt(VM &vm, CallCtx &c, const std::string &f, const std::function<Val()> &next) {
    std::string out;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out += f[i]; continue; }
        if (f[i + 1] == '%') { out += '%'; i++; continue; }
        std::string sp = "%"; i++; int lng = 0;
        while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') sp += std::to_string((int)next().c); else sp += f[i]; i++; }
        while (i < f.size() && strchr("lhzjtq", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng++; else if (f[i] == 'h') { sp += 'h'; } i++; }
        char cv = f[i]; char buf[512]; Val v = next();
        if (cv == 's') { bool sy = false; std::string x = v.e ? "#" : vm.readCStr(c.s, v.c, 65536, &sy); snprintf(buf, sizeof buf, (sp + "s").c_str(), ""); size_t dot = sp.find('.'); if (dot != std::string::npos) x = x.substr(0, (size_t)atoi(sp.c_str() + dot + 1)); size_t wd = strlen(buf); if (x.size() < wd) { if (sp.find('-') != std::string::npos) x += std::string(wd - x.size(), ' '); else x = std::string(wd - x.size(), ' ') + x; } out += x; continue; }
        if (v.e) { out += "#"; vm.notes["symbolic number in formatted text"]++; continue; }
        switch (cv) {
        case 'd': case 'i': if (lng) snprintf(buf, sizeof buf, (sp + "lld").c_str(), (long long)v.c); else snprintf(buf, sizeof buf, (sp + "d").c_str(), (int)v.c); break;
        case 'u': case 'x': case 'X': case 'o': if (lng) snprintf(buf, sizeof buf, (sp + "ll" + cv).c_str(), (unsigned long long)v.c); else snprintf(buf, sizeof buf, (sp + cv).c_str(), (unsigned)v.c); break;
        case 'c': snprintf(buf, sizeof buf, (sp + "c").c_str(), (int)v.c); break;
        case 'p': snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v.c); break;
        case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { double d; memcpy(&d, &v.c, 8); snprintf(buf, sizeof buf, (sp + cv).c_str(), d); break; }
        default: snprintf(buf, sizeof buf, "?"); break;
        }
        out += buf;
    }
    return out;
}
static NRes emitN(VM &vm, CallCtx &c, uint64_t buf, uint64_t n, const std::string &r) {
    if (n) { uint64_t m = std::min<uint64_t>(n - 1, r.size()), x; if (!vm.checkRange(c.s, CV(buf), m + 1, true, &x)) return NR_DEAD; vm.writeBytes(c.s, buf, r.c_str(), m); uint8_t z = 0; vm.writeBytes(c.s, buf + m, &z, 1); }
    RET(CV((uint32_t)r.size()));
}
static std::function<Val()> vaNext(VM &vm, CallCtx &c, uint64_t va) {
    return [&vm, &c, va]() { uint64_t p = vm.read64(c.s, va + 8); MemObj *o = c.s.obj((uint32_t)(p >> 32)); Val v = o && (p & 0xffffffff) + 8 <= o->size ? vm.loadObj(c.s, o, p & 0xffffffff, 8) : CV(0); vm.write64(c.s, va + 8, p + 8); return v; };
}
static std::function<Val()> argNext(CallCtx &c, unsigned from) { auto i = std::make_shared<unsigned>(from); return [&c, i]() -> Val { if (*i >= c.nargs()) return CV(0); return *c.arg((*i)++); }; }
NAT(n_vsnprintf) { CONC(0, b, "vsnprintf"); CONC(1, n, "vsnprintf"); CONC(2, f, "vsnprintf"); CONC(3, va, "vsnprintf"); return emitN(vm, c, b, n, fmt(vm, c, vm.readCStr(c.s, f, 65536), vaNext(vm, c, va))); }
NAT(n_snprintf) { CONC(0, b, "snprintf"); CONC(1, n, "snprintf"); CONC(2, f, "snprintf"); return emitN(vm, c, b, n, fmt(vm, c, vm.readCStr(c.s, f, 65536), argNext(c, 3))); }
NAT(n_sprintf) { CONC(0, b, "sprintf"); CONC(1, f, "sprintf"); return emitN(vm, c, b, 1 << 30, fmt(vm, c, vm.readCStr(c.s, f, 65536), argNext(c, 2))); }
NAT(n_fprintf) { CONC(1, f, "fprintf"); std::string r = fmt(vm, c, vm.readCStr(c.s, f, 65536), argNext(c, 2)); if (vm.opt.verbose) fprintf(stderr, "[out] %s", r.c_str()); RET(CV(r.size())); }
NAT(n_printf) { CONC(0, f, "printf"); std::string r = fmt(vm, c, vm.readCStr(c.s, f, 65536), argNext(c, 1)); if (vm.opt.verbose) fprintf(stderr, "[out] %s", r.c_str()); RET(CV(r.size())); }
NAT(n_vfprintf) { CONC(1, f, "vfprintf"); CONC(2, va, "vfprintf"); std::string r = fmt(vm, c, vm.readCStr(c.s, f, 65536), vaNext(vm, c, va)); if (vm.opt.verbose) fprintf(stderr, "[out] %s", r.c_str()); RET(CV(r.size())); }
NAT(n_fwrite) { Val a = *c.arg(1), b = *c.arg(2); if (vm.opt.verbose) { fprintf(stderr, "[out] %s", vm.readCStr(c.s, c.arg(0)->c, (size_t)(a.c * b.c)).c_str()); } RET(b); }
NAT(n_ret0) { c.setRet(CV(0)); return NR_OK; }
NAT(n_ret1) { c.setRet(CV(1)); return NR_OK; }
NAT(n_retarg0) { c.setRet(*c.arg(0)); return NR_OK; }
NAT(n_abort) { vm.report(c.s, "abort", "the program terminates (abort)"); return NR_DEAD; }
NAT(n_terminate) { vm.report(c.s, "terminate", "std::terminate is reached"); return NR_DEAD; }
NAT(n_assert_fail) { std::string m = vm.readCStr(c.s, c.arg(0)->c), f = vm.readCStr(c.s, c.arg(1)->c); size_t sl = f.rfind('/'); if (sl != std::string::npos) f = f.substr(sl + 1); vm.report(c.s, "assertion", "assertion failed in " + f + ": " + m); return NR_DEAD; }
NAT(n_pure) { vm.report(c.s, "pure-virtual", "pure virtual function called"); return NR_DEAD; }
NAT(n_trap) { vm.report(c.s, "trap", "trap instruction (undefined behaviour) reached"); return NR_DEAD; }

// ---- exceptions --------------------------------------------------------------------------------------
NAT(n_alloc_exc) { CONC(0, n, "exception size"); uint64_t a = vm.alloc(c.s, n + 64, OK_EXC, true, "exception"); RET(CV(a + 64)); }
NAT(n_free_exc) { return NR_OK; }
NAT(n_throw) {
    uint64_t o = c.arg(0)->c; vm.write64(c.s, o - 64, c.arg(1)->c); vm.write64(c.s, o - 56, c.arg(2)->c); vm.write64(c.s, o - 48, 0);
    c.s.th().excPtr = o; vm.unwind(c.s); return NR_FRAME;
}
NAT(n_begin_catch) { uint64_t o = c.arg(0)->c; vm.write64(c.s, o - 48, vm.read64(c.s, o - 48) + 1); vm.write64(c.s, o - 40, 0); c.s.th().caught.push_back(o); RET(CV(o)); }
// pops the innermost caught exception; returns it when its last handler has finished and it has to be destroyed
NAT(n_end_catch) { auto &v = c.s.th().caught; if (v.empty()) RET(CV(0)); uint64_t o = v.back(); v.pop_back(); uint64_t n = vm.read64(c.s, o - 48) - 1; vm.write64(c.s, o - 48, n); RET(CV(n == 0 && !vm.read64(c.s, o - 40) ? o : 0)); }
NAT(n_exc_done) { vm.freeObj(c.s, c.arg(0)->c - 64, OK_EXC, "exception"); return NR_OK; }
NAT(n_rethrow) { auto &v = c.s.th().caught; if (v.empty()) { vm.report(c.s, "terminate", "rethrow without exception"); return NR_DEAD; } uint64_t o = v.back(); vm.write64(c.s, o - 40, 1); c.s.th().excPtr = o; vm.unwind(c.s); return NR_FRAME; }
NAT(n_typeid_for) { uint64_t a = c.arg(0)->c; RET(CV(a ? a >> 32 : 1)); }
NAT(n_guard_acquire) { uint64_t a = c.arg(0)->c; MemObj *o = c.s.obj((uint32_t)(a >> 32)); Val v = vm.loadObj(c.s, o, a & 0xffffffff, 1); RET(CV(!v.c)); }
NAT(n_guard_release) { uint8_t one = 1; vm.writeBytes(c.s, c.arg(0)->c, &one, 1); return NR_OK; }
static bool dynCast(VM &vm, State &s, uint64_t ti, uint64_t want, uint64_t base, uint64_t &out) {
    if (ti == want || vm.readCStr(s, vm.read64(s, ti + 8)) == vm.readCStr(s, vm.read64(s, want + 8))) { out = base; return true; }
    uint64_t vt = vm.read64(s, ti); std::string vn = vm.globalName.count(vt & ~0xffffffffull) ? vm.globalName[vt & ~0xffffffffull] : "";
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return dynCast(vm, s, vm.read64(s, ti + 16), want, base, out);
    if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint32_t n = vm.read32(s, ti + 20); for (uint32_t i = 0; i < n; i++) { int64_t of = (int64_t)vm.read64(s, ti + 32 + 16 * i); if (of & 1) continue; if (dynCast(vm, s, vm.read64(s, ti + 24 + 16 * i), want, base + (uint64_t)(of >> 8), out)) return true; } }
    return false;
}
NAT(n_dynamic_cast) {
    CONC(0, p, "dynamic_cast"); uint64_t want = c.arg(2)->c; if (!p) RET(CV(0));
    uint64_t vp = vm.read64(c.s, p); int64_t top = (int64_t)vm.read64(c.s, vp - 16); uint64_t ti = vm.read64(c.s, vp - 8), r;
    RET(CV(dynCast(vm, c.s, ti, want, p + (uint64_t)top, r) ? r : 0));
}
// ---- TLS ---------------------------------------------------------------------------------------------
static std::map<uint64_t, std::vector<uint8_t>> g_tlsInit;
NAT(n_tls) {
    uint64_t a = c.arg(0)->c; State &s = c.s;
    if (s.cur == 0) RET(CV(a));
    auto &m = s.th().tls; auto it = m.find(a); if (it != m.end()) RET(CV(it->second));
    uint64_t d = vm.alloc(s, vm.tlsGlobals.count(a) ? std::max<uint64_t>(1, vm.tlsGlobals[a].first) : 8, OK_GLOBAL, true, "tls");
    auto gi = g_tlsInit.find(a); if (gi != g_tlsInit.end()) vm.writeBytes(s, d, gi->second.data(), gi->second.size());
    m[a] = d; RET(CV(d));
}
void snapshotTls(VM &vm, State &s) { for (auto &x : vm.tlsGlobals) { MemObj *o = s.obj((uint32_t)(x.first >> 32)); g_tlsInit[x.first] = std::vector<uint8_t>(o->data, o->data + std::min<uint64_t>(o->cap, x.second.first)); } }

// ---- threads -------------------------------------------------------------------------------------------
// a mutex stores owner tid + 1 in its first word, recursion depth in the second; kind (recursive) in word 4 (pthread layout: __kind at offset 16)
static bool mtxOwner(VM &vm, State &s, uint64_t m, uint32_t &o) { uint64_t x; if (!vm.checkRange(s, CV(m), 24, true, &x)) return false; o = vm.read32(s, m); return true; }
static void wakeMutex(State &s, uint64_t m) { for (auto &t : s.threads) if (t.st == T_MUTEX && t.waitOn == m) t.st = T_RUN; }
static void relMutex(VM &vm, State &s, uint64_t m) { vm.write32(s, m, 0); wakeMutex(s, m); }
NAT(n_mutex_lock) {
    CONC(0, m, "mutex"); State &s = c.s; uint32_t o;
    if (!mtxOwner(vm, s, m, o)) return NR_DEAD;
    uint32_t kind = vm.read32(s, m + 16) & 3;
    if (o == (uint32_t)s.cur + 1) { if (kind == 1) { vm.write32(s, m + 4, vm.read32(s, m + 4) + 1); s.th().schedDone = false; RET(CV(0)); } vm.report(s, "deadlock", "a thread locks a mutex it already holds"); return NR_DEAD; }
    if (!s.th().schedDone) { s.th().schedDone = true; vm.switchPoint(s); if (!mtxOwner(vm, s, m, o)) return NR_DEAD; }
    if (o) { s.th().st = T_MUTEX; s.th().waitOn = m; vm.schedule(s, true); return NR_RETRY; }
    vm.write32(s, m, (uint32_t)s.cur + 1); vm.write32(s, m + 4, 1); s.th().schedDone = false;
    RET(CV(0));
}
NAT(n_mutex_trylock) {
    CONC(0, m, "mutex"); State &s = c.s; uint32_t o; if (!mtxOwner(vm, s, m, o)) return NR_DEAD;
    if (!s.th().schedDone) { s.th().schedDone = true; vm.switchPoint(s); mtxOwner(vm, s, m, o); }
    s.th().schedDone = false;
    if (o) RET(CV(16)); vm.write32(s, m, (uint32_t)s.cur + 1); vm.write32(s, m + 4, 1); RET(CV(0));
}
NAT(n_mutex_unlock) {
    CONC(0, m, "mutex"); State &s = c.s; uint32_t o; if (!mtxOwner(vm, s, m, o)) return NR_DEAD;
    if (o != (uint32_t)s.cur + 1) { vm.report(s, "mutex-misuse", "a mutex is unlocked by a thread that does not hold it"); return NR_DEAD; }
    uint32_t d = vm.read32(s, m + 4); if (d > 1) { vm.write32(s, m + 4, d - 1); RET(CV(0)); }
    relMutex(vm, s, m); RET(CV(0));
}
NAT(n_cond_wait) { // vsx_cond_wait(cv, mutex)
    uint64_t cv = c.arg(0)->c, m = c.arg(1)->c; State &s = c.s; Thread &t = s.th();
    if (t.phase == 0) {
        uint32_t o; if (!mtxOwner(vm, s, m, o)) return NR_DEAD;
        if (o != (uint32_t)s.cur + 1) { vm.report(s, "mutex-misuse", "condition wait without holding the mutex"); return NR_DEAD; }
        relMutex(vm, s, m);
        t.phase = 1; t.st = T_COND; t.waitOn = cv; t.waitMutex = m; t.schedDone = false;
        s.condWaiters.push_back((cv << 8) ^ (uint64_t)s.cur);
        vm.schedule(s, true); return NR_RETRY;
    }
    // woken: take the mutex again
    uint32_t o; if (!mtxOwner(vm, s, m, o)) return NR_DEAD;
    if (o) { t.st = T_MUTEX; t.waitOn = m; vm.schedule(s, true); return NR_RETRY; }
    vm.write32(s, m, (uint32_t)s.cur + 1); vm.write32(s, m + 4, 1); t.phase = 0; return NR_OK;
}
static void wakeCond(State &s, uint64_t cv, int tid) { for (size_t i = 0; i < s.condWaiters.size(); i++) if (s.condWaiters[i] == ((cv << 8) ^ (uint64_t)tid)) { s.condWaiters.erase(s.condWaiters.begin() + (long)i); break; } s.threads[(size_t)tid].st = T_RUN; s.threads[(size_t)tid].phase = 2; }
NAT(n_cond_notify) { // vsx_cond_notify(cv, all)
    uint64_t cv = c.arg(0)->c; bool all = c.arg(1)->c & 1; State &s = c.s;
    std::vector<int> w; for (uint64_t x : s.condWaiters) { int tid = (int)((x ^ (cv << 8))); if (tid >= 0 && (size_t)tid < s.threads.size() && s.threads[(size_t)tid].st == T_COND && s.threads[(size_t)tid].waitOn == cv) w.push_back(tid); }
    if (w.empty()) return NR_OK;
    if (all) { for (int t : w) wakeCond(s, cv, t); return NR_OK; }
    if (s.explore && w.size() > 1) {
        uint32_t sp = s.switchPoints++; Ref sym = mkSym("notify" + std::to_string(sp), 8);
        vm.addCons(s, mkUlt(sym, mkConst(w.size(), 8)));
        if (s.modelOk) s.model.set((uint32_t)N(sym).k, 0);
        for (size_t i = 1; i < w.size(); i++) {
            State *n = vm.clone(s); vm.addCons(*n, mkEq(sym, mkConst(i, 8))); if (n->modelOk) n->model.set((uint32_t)N(sym).k, i);
            wakeCond(*n, cv, w[i]); n->schedule.push_back({ (int)sp, w[i] }); n->fr().pc++; vm.work.push_back(n); vm.transitions++;
        }
        vm.addCons(s, mkEq(sym, mkConst(0, 8))); s.schedule.push_back({ (int)sp, w[0] });
    }
    wakeCond(s, cv, w[0]); return NR_OK;
}
NAT(n_thread_create) { // int vsx_thread_create(void (*fn)(void*), void *arg)
    State &s = c.s; uint64_t fn = c.arg(0)->c; Val arg = *c.arg(1);
    auto it = vm.funcByAddr.find(fn); if (it == vm.funcByAddr.end()) { vm.report(s, "bad-call", "thread with invalid entry"); return NR_DEAD; }
    c.setRet(CV(s.threads.size()));
    int cur = s.cur; s.fr().pc++;
    s.threads.emplace_back(); s.cur = (int)s.threads.size() - 1;
    vm.pushFrame(s, it->second, nullptr, -1, 0, { arg }, {}); s.th().frames.back().onReturn = 1;
    s.cur = cur; vm.maxThreads = std::max<uint64_t>(vm.maxThreads, s.threads.size());
    return NR_FRAME;
}
NAT(n_thread_join) { uint64_t t = c.arg(0)->c; State &s = c.s; if (t >= s.threads.size()) { vm.report(s, "bad-call", "join of an unknown thread"); return NR_DEAD; } if (s.threads[t].st != T_DONE) { s.th().st = T_JOIN; s.th().waitOn = t; vm.schedule(s, true); return NR_RETRY; } return NR_OK; }
NAT(n_self) { RET(CV((uint64_t)c.s.cur + 1)); }
NAT(n_tid) { RET(CV((uint64_t)c.s.cur)); }
NAT(n_yield) { State &s = c.s; if (s.th().schedDone) { s.th().schedDone = false; return NR_OK; } s.th().schedDone = true; vm.switchPoint(s); s.th().schedDone = false; return NR_OK; }
NAT(n_now) { uint64_t &k = c.s.kv[1]; k += 1000; RET(CV(k)); }

// ---- harness interface -----------------------------------------------------------------------------------
NAT(n_symbolic) { // vsx_symbolic(void *p, size_t count, size_t esize, const char *name)
    uint64_t cnt = c.arg(1)->c, es = c.arg(2)->c, d; State &s = c.s; std::string nm = vm.readCStr(s, c.arg(3)->c);
    if (cnt == 0) return NR_OK;
    if (!vm.checkRange(s, *c.arg(0), cnt * es, true, &d)) return NR_RETRY;
    static std::map<std::string, uint32_t> memo; std::string key = std::to_string(s.inputs.size()) + ":" + nm + ":" + std::to_string(cnt) + ":" + std::to_string(es);
    static std::map<uint32_t, std::vector<Ref>> refs;
    uint32_t first; auto it = memo.find(key);
    if (it == memo.end()) { first = (uint32_t)g_syms.size(); std::vector<Ref> v; for (uint64_t i = 0; i < cnt; i++) v.push_back(mkSym(nm + (cnt > 1 ? "[" + std::to_string(i) + "]" : ""), (unsigned)es * 8)); memo[key] = first; refs[first] = v; }
    else first = it->second;
    auto &v = refs[first];
    MemObj *o = s.writable((uint32_t)(d >> 32));
    for (uint64_t i = 0; i < cnt; i++) vm.storeObj(s, o, (d & 0xffffffff) + i * es, (unsigned)es, Val{ 0, v[i] });
    s.inputs.push_back({ nm, (uint32_t)cnt, (uint32_t)es, first, false });
    return NR_OK;
}
NAT(n_range) { // vsx_range_sym(void *p, size_t esize, uint64_t lo, uint64_t hi, const char *name): any value in [lo, hi]
    uint64_t es = c.arg(1)->c, lo = c.arg(2)->c, hi = c.arg(3)->c, d; State &s = c.s; std::string nm = vm.readCStr(s, c.arg(4)->c);
    if (!vm.checkRange(s, *c.arg(0), es, true, &d)) return NR_RETRY;
    uint64_t span = hi - lo; unsigned bits = 1; while (bits < 64 && (span >> bits)) bits++;
    if (bits > es * 8) bits = (unsigned)es * 8;
    static std::map<std::string, Ref> memo; std::string key = std::to_string(s.inputs.size()) + ":" + nm + ":" + std::to_string(lo) + ":" + std::to_string(hi);
    Ref sym; auto it = memo.find(key); if (it == memo.end()) { sym = mkSym(nm, bits); memo[key] = sym; } else sym = it->second;
    unsigned w = (unsigned)es * 8;
    Ref v = mkBin(O_ADD, mkZExt(sym, w), mkConst(lo & maskW(w), w));
    vm.storeObj(s, s.writable((uint32_t)(d >> 32)), d & 0xffffffff, (unsigned)es, fromRef(v));
    InputRec r{ nm, 1, (uint32_t)es, (uint32_t)N(sym).k, false }; r.add = lo; s.inputs.push_back(r);
    if (s.modelOk) s.model.set((uint32_t)N(sym).k, 0);
    Ref b = mkUle(sym, mkConst(span & maskW(bits), bits)); if (!isConst(b)) vm.addCons(s, b);
    return NR_OK;
}
NAT(n_checkrange) { // vsx_check_range(const void *p, uint64_t n): the n bytes at p belong to one live object
    State &s = c.s; uint64_t b; if (!vm.checkRange(s, *c.arg(0), 1, false, &b)) return NR_RETRY;
    MemObj *o = s.obj((uint32_t)(b >> 32)); Ref n = toRef(*c.arg(1), 64); uint64_t off = b & 0xffffffff;
    Ref size = o->symSize ? o->symSize : mkConst(o->size, 64);
    Ref avail = mkSub(size, mkConst(off, 64));
    Ref bad = mkUlt(avail, n); if (!s.fixed.empty()) bad = substSyms(bad, s.fixed);
    vm.asserts++; vm.obligations["memory range inside the allocation"]++;
    if (isConst(bad)) { vm.assertsTrivial++; if (!constVal(bad)) return NR_OK; vm.report(s, "out-of-bounds", "memory range leaves the allocation"); return NR_DEAD; }
    Res r = vm.check(s, bad, nullptr); if (r == Res::Unsat) return NR_OK;
    if (r == Res::Unknown) { vm.undecided++; vm.undecidedMsgs["memory range inside the allocation"].first++; vm.incomplete.insert("undecided memory range"); return NR_OK; }
    vm.report(s, "out-of-bounds", "memory range leaves the allocation", bad); if (vm.alive) vm.terminate(s); return NR_DEAD;
}
static Ref boolArg(const Val &v) { if (!v.e) return v.c ? mkTrue() : mkFalse(); return N(v.e).w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, N(v.e).w))); }
NAT(n_assume) {
    Val *v = c.arg(0); if (!v->e) { if (!v->c) { vm.notes["assumption false"]++; vm.terminate(c.s); return NR_DEAD; } return NR_OK; }
    Ref b = boolArg(*v); Model m; State &s = c.s;
    int k = vm.known(s, b); if (k == 1) return NR_OK; if (k == 0) { vm.notes["assumption false"]++; vm.terminate(s); return NR_DEAD; }
    bool ok = true; if (s.modelOk && evalExpr(b, s.model, ok) && ok) { vm.addCons(s, b); return NR_OK; }
    Res r = vm.check(s, b, &m); if (r == Res::Unsat) { vm.notes["assumption false"]++; vm.terminate(s); return NR_DEAD; }
    vm.addCons(s, b); if (r == Res::Sat) { s.model = m; s.modelOk = true; } else { s.modelOk = false; s.approx = true; }
    return NR_OK;
}
static NRes doAssert(VM &vm, CallCtx &c, Val v, const std::string &msg) {
    State &s = c.s; vm.asserts++; vm.obligations[msg]++;
    if (!v.e) { vm.assertsTrivial++; if (!v.c) { vm.report(s, "assert", msg); if (vm.alive) vm.terminate(s); return NR_DEAD; } return NR_OK; }
    Ref b = boolArg(v); if (!s.fixed.empty()) b = substSyms(b, s.fixed);
    Ref nb = mkNot(b); Model m;
    int k = vm.known(s, b); if (k == 1) { vm.assertsTrivial++; return NR_OK; }
    double t0 = nowSec(); Res r = k == 0 ? Res::Sat : vm.check(s, nb, &m);
    if (r == Res::Unsat) return NR_OK;
    if (r == Res::Unknown) { vm.undecided++; auto &u = vm.undecidedMsgs[msg]; u.first++; u.second += nowSec() - t0; vm.incomplete.insert("undecided assertion: " + msg); return NR_OK; }
    vm.report(s, "assert", msg, nb);
    if (vm.stop || !vm.alive) { if (vm.alive) vm.terminate(s); return NR_DEAD; }
    // continue on the side where it holds, if any
    Model m2; Res r2 = vm.check(s, b, &m2); if (r2 != Res::Sat) { vm.terminate(s); return NR_DEAD; }
    vm.addCons(s, b); s.model = m2; s.modelOk = true; return NR_OK;
}
NAT(n_assert) { return doAssert(vm, c, *c.arg(0), vm.readCStr(c.s, c.arg(1)->c)); }
NAT(n_assert_eqmem) { // vsx_assert_eqmem(const void *a, const void *b, size_t n, size_t esize, const char *msg): one obligation per element
    CONC(2, n, "length"); uint64_t es = c.arg(3)->c, a, b; std::string msg = vm.readCStr(c.s, c.arg(4)->c); if (!n) return NR_OK;
    if (!vm.checkRange(c.s, *c.arg(0), n * es, false, &a)) return NR_RETRY; if (!vm.checkRange(c.s, *c.arg(1), n * es, false, &b)) return NR_RETRY;
    for (uint64_t i = 0; i < n; i++) {
        Val x = vm.loadObj(c.s, c.s.obj((uint32_t)(a >> 32)), (a & 0xffffffff) + i * es, (unsigned)es), y = vm.loadObj(c.s, c.s.obj((uint32_t)(b >> 32)), (b & 0xffffffff) + i * es, (unsigned)es);
        Val eq = vIcmp(P_EQ, x, y, (unsigned)es * 8); NRes r = doAssert(vm, c, eq, msg); if (r != NR_OK) return r;
    }
    return NR_OK;
}
NAT(n_cover) {
    CONC(0, idp, "cover id"); std::string id = vm.readCStr(c.s, idp); State &s = c.s;
    uint64_t seen = vm.covers[id]++;
    if (!(seen & (seen + 1)) && !s.approx) { // a model of the path that reaches it, for validation against the native build
        bool ok = s.modelOk; Model m = s.model;
        if (!ok) { Ref all = mkTrue(); for (Ref x : s.cons) all = mkBin(O_AND, all, x); ok = solve({}, all, nullptr, &m) == Res::Sat; }
        std::string sj; for (size_t i = 0; i < s.schedule.size(); i++) sj += (i ? "," : "") + std::string("[") + std::to_string(s.schedule[i].first) + "," + std::to_string(s.schedule[i].second) + "]";
        if (ok) vm.witness.push_back("{\"cover\":\"" + jsonEsc(id) + "\",\"inputs\":" + vm.inputsJson(s, m) + ",\"schedule\":[" + sj + "]}");
    }
    return NR_OK;
}
NAT(n_fail) { std::string m = vm.readCStr(c.s, c.arg(0)->c); vm.asserts++; vm.obligations[m]++; vm.report(c.s, "assert", m); if (vm.alive) vm.terminate(c.s); return NR_DEAD; }
NAT(n_concretize) { CONC(0, v, "harness"); RET(CV(v)); }
NAT(n_choice) { // uint32 vsx_choice(uint32 n, name): symbolic value below n, explored value by value
    uint64_t n = c.arg(0)->c; State &s = c.s; std::string nm = vm.readCStr(s, c.arg(1)->c);
    static std::map<std::string, Ref> memo; std::string key = std::to_string(s.inputs.size()) + ":" + nm + ":" + std::to_string(n);
    if (n == 0) { vm.terminate(s); return NR_DEAD; }
    Ref sym; auto it = memo.find(key); if (it == memo.end()) { sym = mkSym(nm, 32); memo[key] = sym; } else sym = it->second;
    s.inputs.push_back({ nm, 1, 4, (uint32_t)N(sym).k, true });
    if (s.modelOk) s.model.set((uint32_t)N(sym).k, 0);
    c.setRet(CV(0)); s.fr().pc++;
    for (uint64_t i = n; i-- > 1;) { State *q = vm.clone(s); vm.addCons(*q, mkEq(sym, mkConst(i, 32))); if (q->modelOk) q->model.set((uint32_t)N(sym).k, i); Frame &f = q->fr(); Thread &t = q->th(); t.regs[f.regBase + (uint32_t)c.ki.dst] = CV(i); vm.work.push_back(q); }
    vm.addCons(s, mkEq(sym, mkConst(0, 32)));
    if (c.ci.invoke) { vm.report(s, "unsupported", "vsx_choice in a try block"); return NR_DEAD; }
    return NR_FRAME;
}
NAT(n_param) { std::string nm = vm.readCStr(c.s, c.arg(0)->c); auto it = vm.opt.params.find(nm); RET(it == vm.opt.params.end() ? *c.arg(1) : CV((uint64_t)strtoll(it->second.c_str(), nullptr, 0))); }
NAT(n_done) { vm.pathsDone++; vm.terminate(c.s); return NR_DEAD; }
NAT(n_issym) { CONC(0, p, "ptr"); Val x; bool r = peekByte(vm, c.s, p, 0, x); RET(CV(r && x.e)); }
NAT(n_live) { uint64_t n = 0; for (Chunk *k : c.s.chunks) if (k) for (MemObj *o : k->o) if (o && !o->freed && (o->kind == OK_MALLOC || o->kind == OK_NEW || o->kind == OK_NEWARR || o->kind == OK_MMAP)) n++; RET(CV(n)); }
NAT(n_objsize) { CONC(0, p, "ptr"); MemObj *o = c.s.obj((uint32_t)(p >> 32)); RET(o ? (o->symSize ? Val{ 0, o->symSize } : CV(o->size)) : CV(0)); }
NAT(n_isfreed) { CONC(0, p, "ptr"); MemObj *o = c.s.obj((uint32_t)(p >> 32)); RET(CV(!o || o->freed)); }
NAT(n_runnable) { uint64_t n = 0; for (auto &t : c.s.threads) if (t.st == T_RUN) n++; RET(CV(n)); }
NAT(n_explore) { State &s = c.s; s.explore = (c.arg(0)->c & 1) && vm.opt.explore; if (s.explore && !s.kv[2]) { s.kv[2] = 1; s.switchPoints = 0; s.schedule.clear(); } return NR_OK; }
NAT(n_advance) { c.s.kv[1] += c.arg(0)->c; return NR_OK; }
NAT(n_print) { std::string m = vm.readCStr(c.s, c.arg(0)->c); Val v = *c.arg(1); fprintf(stderr, "[print] %s %lld %s\n", m.c_str(), (long long)v.c, v.e ? exprStr(v.e, 8).c_str() : ""); return NR_OK; }
NAT(n_havoc) { // vsx_havoc(p, n): contents become undefined (fresh, not inputs)
    CONC(1, n, "len"); uint64_t d; if (!n) return NR_OK; if (!vm.checkRange(c.s, *c.arg(0), n, true, &d)) return NR_RETRY; MemObj *o = c.s.writable((uint32_t)(d >> 32)); vm.ensureSym(o); for (uint64_t i = 0; i < n; i++) o->sym[(d & 0xffffffff) + i] = SYM_UNINIT; return NR_OK;
}
NAT(n_fmtnum) { // int vsx_fmt(char *buf, size_t n, kind, uint64 bits): used by the stream stand-ins
    uint64_t b = c.arg(0)->c, n = c.arg(1)->c, k = c.arg(2)->c; Val v = *c.arg(3); char t[128];
    if (v.e) { strcpy(t, "#"); vm.notes["symbolic number in formatted text"]++; }
    else if (k == 0) snprintf(t, sizeof t, "%lld", (long long)v.c); else if (k == 1) snprintf(t, sizeof t, "%llu", (unsigned long long)v.c);
    else if (k >= 8) { // std::to_chars(first, first + n, d, fixed[, k - 9]): the number of characters, or -1 if they do not fit
        double d; memcpy(&d, &v.c, 8); char u[1500]; auto r = k == 8 ? std::to_chars(u, u + sizeof u, d, std::chars_format::fixed) : std::to_chars(u, u + sizeof u, d, std::chars_format::fixed, (int)(k - 9));
        if ((uint64_t)(r.ptr - u) > n) RET(CV((uint64_t)-1 & 0xffffffffu));
        vm.writeBytes(c.s, b, u, r.ptr - u); RET(CV((uint64_t)(r.ptr - u)));
    }
    else { double d; memcpy(&d, &v.c, 8); snprintf(t, sizeof t, "%g", d); }
    return emitN(vm, c, b, n, t);
}
NAT(n_strtod) { // parse helpers on concrete text: int vsx_parse_num(const char *s, int kind, void *out) -> chars used
    uint64_t p = c.arg(0)->c; bool sy = false; std::string t = vm.readCStr(c.s, p, 4096, &sy); int k = (int)c.arg(1)->c; uint64_t out = c.arg(2)->c;
    if (sy) { vm.kill(c.s, "numeric parse of symbolic text", true); return NR_DEAD; }
    char *e = nullptr;
    if (k == 0) { float f = strtof(t.c_str(), &e); vm.writeBytes(c.s, out, &f, 4); } else if (k == 1) { double f = strtod(t.c_str(), &e); vm.writeBytes(c.s, out, &f, 8); } else { long long f = strtoll(t.c_str(), &e, k == 3 ? 0 : 10); vm.writeBytes(c.s, out, &f, 8); }
    RET(CV((uint64_t)(e - t.c_str())));
}
// ---- system ----------------------------------------------------------------------------------------------
NAT(n_dladdr) {
    uint64_t info = c.arg(1)->c; std::string nm = "/vsx/libvapoursynth.so";
    uint64_t a = vm.alloc(c.s, nm.size() + 1, OK_RT, true, "path"); vm.writeBytes(c.s, a, nm.c_str(), nm.size() + 1); vm.write64(c.s, info, a); RET(CV(1));
}
NAT(n_dlsym) { std::string nm = vm.readCStr(c.s, c.arg(1)->c); auto it = vm.funcByName.find(nm); RET(CV(it != vm.funcByName.end() && !it->second->decl ? it->second->addr : 0)); }
NAT(n_pagesize) { RET(CV(4096)); }
NAT(n_hwconc) { RET(CV((uint64_t)(vm.opt.params.count("hwthreads") ? atoll(vm.opt.params["hwthreads"].c_str()) : 1))); }
NAT(n_affinity) { RET(CV(0xffffffffu)); }
NAT(n_sysinfo) { uint64_t p = c.arg(0)->c, x; if (!vm.checkRange(c.s, CV(p), 112, true, &x)) return NR_DEAD; std::vector<uint8_t> z(112, 0); vm.writeBytes(c.s, p, z.data(), 112); vm.write64(c.s, p + 32, 8ull << 30); vm.write32(c.s, p + 104, 1); RET(CV(0)); }

// ---- intrinsics ------------------------------------------------------------------------------------------
// lane helpers: arg i occupies ci.args[i].n slots of width ci.args[i].w
static unsigned W(CallCtx &c, unsigned i) { return c.ci.args[i].w; }
static unsigned L(CallCtx &c, unsigned i) { return c.ci.args[i].n; }
template <class F> static NRes lanes(CallCtx &c, F f) { unsigned n = c.ci.retSlots; std::vector<Val> o(n); for (unsigned i = 0; i < n; i++) o[i] = f(i); for (unsigned i = 0; i < n; i++) c.ret()[i] = o[i]; return NR_OK; }
#define A(i, l) (c.arg(i)[l])
NAT(i_abs) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i); return vIte(vIcmp(P_SLT, x, CV(0), w), vSub(CV(0), x, w), x, w); }); }
template <int P> static NRes minmax(VM &, CallCtx &c) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i), y = A(1, i); return vIte(vIcmp(P, x, y, w), x, y, w); }); }
static Val satS(const Val &wide, unsigned ww, unsigned w) { Val hi = CV(maskW(w - 1) & maskW(ww)), lo = CV((~maskW(w - 1)) & maskW(ww)); Val r = vIte(vIcmp(P_SLT, wide, lo, ww), lo, wide, ww); r = vIte(vIcmp(P_SGT, r, hi, ww), hi, r, ww); return vTrunc(r, ww, w); }
static Val satSU(const Val &wide, unsigned ww, unsigned w) { Val hi = CV(maskW(w)); Val r = vIte(vIcmp(P_SLT, wide, CV(0), ww), CV(0), wide, ww); r = vIte(vIcmp(P_SGT, r, hi, ww), hi, r, ww); return vTrunc(r, ww, w); }
NAT(i_saddsat) { unsigned w = W(c, 0); if (w >= 64) { vm.kill(c.s, "wide saturating add", true); return NR_DEAD; } return lanes(c, [&](unsigned i) { return satS(vAdd(vSext(A(0, i), w, w + 1), vSext(A(1, i), w, w + 1), w + 1), w + 1, w); }); }
NAT(i_ssubsat) { unsigned w = W(c, 0); if (w >= 64) { vm.kill(c.s, "wide saturating sub", true); return NR_DEAD; } return lanes(c, [&](unsigned i) { return satS(vSub(vSext(A(0, i), w, w + 1), vSext(A(1, i), w, w + 1), w + 1), w + 1, w); }); }
NAT(i_uaddsat) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val s = vAdd(A(0, i), A(1, i), w); return vIte(vIcmp(P_ULT, s, A(0, i), w), CV(maskW(w)), s, w); }); }
NAT(i_usubsat) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vIte(vIcmp(P_ULT, A(0, i), A(1, i), w), CV(0), vSub(A(0, i), A(1, i), w), w); }); }
static NRes ovf(VM &vm, CallCtx &c, char kind, bool sg) {
    unsigned w = W(c, 0); Val x = A(0, 0), y = A(1, 0); unsigned ww = kind == '*' ? 2 * w : w + 1; (void)vm;
    if (!(x.e | y.e) && w <= 64) {
        uint64_t r; bool o;
        if (sg) { int64_t a = sextW(x.c, w), b = sextW(y.c, w), q; o = kind == '+' ? __builtin_add_overflow(a, b, &q) : kind == '-' ? __builtin_sub_overflow(a, b, &q) : __builtin_mul_overflow(a, b, &q); if (sextW((uint64_t)q, w) != q) o = true; r = (uint64_t)q & maskW(w); }
        else { uint64_t q; o = kind == '+' ? __builtin_add_overflow(x.c, y.c, &q) : kind == '-' ? __builtin_sub_overflow(x.c, y.c, &q) : __builtin_mul_overflow(x.c, y.c, &q); if (q & ~maskW(w)) o = true; r = q & maskW(w); }
        c.ret()[0] = CV(r); c.ret()[1] = CV(o); return NR_OK;
    }
    Ref a = toRef(x, w), b = toRef(y, w);
    Ref wa = sg ? mkSExt(a, ww) : mkZExt(a, ww), wb = sg ? mkSExt(b, ww) : mkZExt(b, ww);
    Ref r = kind == '+' ? mkBin(O_ADD, wa, wb) : kind == '-' ? mkSub(wa, wb) : mkBin(O_MUL, wa, wb);
    Ref lo = mkExtract(r, 0, w); Ref o = mkNot(mkEq(r, sg ? mkSExt(lo, ww) : mkZExt(lo, ww)));
    c.ret()[0] = fromRef(lo); c.ret()[1] = fromRef(o); return NR_OK;
}
NAT(i_saddo) { return ovf(vm, c, '+', true); } NAT(i_uaddo) { return ovf(vm, c, '+', false); }
NAT(i_ssubo) { return ovf(vm, c, '-', true); } NAT(i_usubo) { return ovf(vm, c, '-', false); }
NAT(i_smulo) { return ovf(vm, c, '*', true); } NAT(i_umulo) { return ovf(vm, c, '*', false); }
static Val bitcount(Val x, unsigned w) { Val r = CV(0); for (unsigned i = 0; i < w; i++) r = vAdd(r, vZext(vExtract(x, w, i, 1), 1, w), w); return r; }
NAT(i_ctpop) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i); if (!x.e) return CV((uint64_t)__builtin_popcountll(x.c)); return bitcount(x, w); }); }
NAT(i_ctlz) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i); if (!x.e) return CV(x.c ? (uint64_t)__builtin_clzll(x.c) - (64 - w) : w); Val r = CV(w); for (unsigned b = 0; b < w; b++) r = vIte(vExtract(x, w, b, 1), CV(w - 1 - b), r, w); return r; }); }
NAT(i_cttz) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i); if (!x.e) return CV(x.c ? (uint64_t)__builtin_ctzll(x.c) : w); Val r = CV(w); for (unsigned b = w; b--;) r = vIte(vExtract(x, w, b, 1), CV(b), r, w); return r; }); }
NAT(i_bswap) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i); Val r = vExtract(x, w, 0, 8); unsigned rw = 8; for (unsigned b = 8; b < w; b += 8) { r = vConcat(r, rw, vExtract(x, w, b, 8), 8); rw += 8; } return r; }); }
static NRes fsh(VM &, CallCtx &c, bool left) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val a = A(0, i), b = A(1, i), n = vBin(O_UREM, A(2, i), CV(w), w); Val wide = vConcat(a, w, b, w); Val r; if (left) { r = vBin(O_SHL, wide, vZext(n, w, 2 * w), 2 * w); return vExtract(r, 2 * w, w, w); } r = vBin(O_LSHR, wide, vZext(n, w, 2 * w), 2 * w); return vExtract(r, 2 * w, 0, w); }); }
NAT(i_fshl) { return fsh(vm, c, true); } NAT(i_fshr) { return fsh(vm, c, false); }
NAT(i_fabs) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vBin(O_AND, A(0, i), CV(maskW(w - 1)), w); }); }
NAT(i_copysign) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vBin(O_OR, vBin(O_AND, A(0, i), CV(maskW(w - 1)), w), vBin(O_AND, A(1, i), CV(1ull << (w - 1)), w), w); }); }
template <Op O> static NRes f1(VM &, CallCtx &c) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vF(O, w, A(0, i), w); }); }
NAT(i_fma) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val b = A(1, i), d = A(2, i); return vF(O_FMA, w, A(0, i), w, &b, &d); }); }
NAT(i_fmuladd) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val b = A(1, i), d = A(2, i); Val m = vF(O_FMUL, w, A(0, i), w, &b); return vF(O_FADD, w, m, w, &d); }); }
template <Op R> static NRes fround_i(VM &, CallCtx &c) { unsigned w = W(c, 0), rw = c.ci.retW; return lanes(c, [&](unsigned i) { return vF(O_FPTOSI, rw, vF(R, w, A(0, i), w), w); }); }
static NRes uf(CallCtx &c, const char *base, unsigned n) {
    unsigned w = W(c, 0); std::string nm = std::string(base) + (w == 32 ? "32" : "64"); uint32_t id = ufId(nm);
    return lanes(c, [&](unsigned i) { Ref a = toRef(A(0, i), w), b = n > 1 ? toRef(c.ci.args[1].w < w ? vZext(A(1, i), c.ci.args[1].w, w) : A(1, i), w) : 0; return fromRef(mkF(O_UF, w, a, b, 0, id)); });
}
NAT(i_exp) { return uf(c, "exp", 1); } NAT(i_log) { return uf(c, "log", 1); } NAT(i_sin) { return uf(c, "sin", 1); } NAT(i_cos) { return uf(c, "cos", 1); } NAT(i_pow) { return uf(c, "pow", 2); }
NAT(i_exp2) { return uf(c, W(c, 0) == 32 ? "exp2_" : "exp2_", 1); } NAT(i_log2) { return uf(c, "log2_", 1); } NAT(i_log10) { return uf(c, "log10_", 1); } NAT(i_tan) { return uf(c, "tan", 1); }
NAT(i_ldexp) { return uf(c, "ldexp", 2); }
NAT(i_fclass) {
    unsigned w = W(c, 0), mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11; uint64_t mask = c.arg(1)->c;
    return lanes(c, [&](unsigned i) {
        Val x = A(0, i); Val ex = vExtract(x, w, mb, eb), mn = vExtract(x, w, 0, mb), sg = vExtract(x, w, w - 1, 1), q = vExtract(x, w, mb - 1, 1);
        Val e1 = vIcmp(P_EQ, ex, CV(maskW(eb)), eb), e0 = vIcmp(P_EQ, ex, CV(0), eb), m0 = vIcmp(P_EQ, mn, CV(0), mb);
        auto AND = [&](Val a, Val b) { return vBin(O_AND, a, b, 1); }; auto NOT = [&](Val a) { return vBin(O_XOR, a, CV(1), 1); };
        Val r = CV(0); auto add = [&](unsigned bit, Val cnd) { if (mask >> bit & 1) r = vBin(O_OR, r, cnd, 1); };
        Val nan = AND(e1, NOT(m0)); add(0, AND(nan, NOT(q))); add(1, AND(nan, q)); Val inf = AND(e1, m0); add(2, AND(inf, sg)); add(9, AND(inf, NOT(sg)));
        Val nrm = AND(NOT(e0), NOT(e1)); add(3, AND(nrm, sg)); add(8, AND(nrm, NOT(sg))); Val sub = AND(e0, NOT(m0)); add(4, AND(sub, sg)); add(7, AND(sub, NOT(sg))); Val z = AND(e0, m0); add(5, AND(z, sg)); add(6, AND(z, NOT(sg)));
        return r;
    });
}
NAT(i_fptosisat) { unsigned w = W(c, 0), rw = c.ci.retW; (void)vm; return lanes(c, [&](unsigned i) { Val x = A(0, i); Val lo = w == 32 ? CV(0) : CV(0); (void)lo; return vF(O_FPTOSI, rw, x, w); }); }
NAT(i_fmin) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i), y = A(1, i); Val r = vIte(vFcmp(4, x, y, w), x, y, w); return vIte(vFcmp(8, y, y, w), x, r, w); }); }
NAT(i_fmax) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { Val x = A(0, i), y = A(1, i); Val r = vIte(vFcmp(2, x, y, w), x, y, w); return vIte(vFcmp(8, y, y, w), x, r, w); }); }
NAT(i_load_relative) { vm.kill(c.s, "llvm.load.relative", false); return NR_DEAD; }
NAT(i_va_start) { CONC(0, p, "va_start"); uint64_t x; if (!vm.checkRange(c.s, CV(p), 24, true, &x)) return NR_DEAD; vm.write32(c.s, p, 48); vm.write32(c.s, p + 4, 176); vm.write64(c.s, p + 8, c.s.fr().va); vm.write64(c.s, p + 16, c.s.fr().va); return NR_OK; }
NAT(i_va_copy) { uint64_t d = c.arg(0)->c, s = c.arg(1)->c; vm.memcpyC(c.s, d, s, 24); return NR_OK; }
NAT(i_objectsize) { RET(CV(~0ull)); }
NAT(i_isconst) { RET(CV(0)); }
NAT(i_masked_load) { CONC(0, p, "masked load"); unsigned w = c.ci.retW; for (unsigned i = 0; i < c.ci.retSlots; i++) { Val m = A(2, i); if (m.e) { vm.kill(c.s, "symbolic load mask", true); return NR_DEAD; } if (m.c) { if (!vm.load(c.s, CV(p + i * (w / 8)), w / 8, &c.ret()[i], w)) return NR_RETRY; } else c.ret()[i] = A(3, i); } return NR_OK; }
NAT(i_masked_store) { CONC(1, p, "masked store"); unsigned w = W(c, 0); for (unsigned i = 0; i < L(c, 0); i++) { Val m = A(3, i); if (m.e) { vm.kill(c.s, "symbolic store mask", true); return NR_DEAD; } if (m.c) if (!vm.store(c.s, CV(p + i * (w / 8)), w / 8, A(0, i), w)) return NR_RETRY; } return NR_OK; }
template <int K> static NRes reduce(VM &, CallCtx &c) { unsigned w = W(c, 0), n = L(c, 0); Val r = A(0, 0); for (unsigned i = 1; i < n; i++) { Val x = A(0, i); switch (K) { case 0: r = vAdd(r, x, w); break; case 1: r = vBin(O_OR, r, x, w); break; case 2: r = vBin(O_AND, r, x, w); break; case 3: r = vIte(vIcmp(P_UGT, r, x, w), r, x, w); break; case 4: r = vIte(vIcmp(P_ULT, r, x, w), r, x, w); break; case 5: r = vIte(vIcmp(P_SGT, r, x, w), r, x, w); break; case 6: r = vIte(vIcmp(P_SLT, r, x, w), r, x, w); break; } } c.setRet(r); return NR_OK; }
// x86
template <bool SG> static NRes pack(VM &, CallCtx &c) { // packs within 128-bit lanes
    unsigned w = W(c, 0), rw = w / 2, per = 128 / w, n = c.ci.retSlots;
    return lanes(c, [&](unsigned i) { unsigned g = i / (2 * per), k = i % (2 * per); Val x = k < per ? A(0, g * per + k) : A(1, g * per + k - per); (void)n; return SG ? satS(x, w, rw) : satSU(x, w, rw); });
}
NAT(x_pmaddwd) { return lanes(c, [&](unsigned i) { auto m = [&](unsigned k) { return vBin(O_MUL, vSext(A(0, k), 16, 32), vSext(A(1, k), 16, 32), 32); }; return vAdd(m(2 * i), m(2 * i + 1), 32); }); }
NAT(x_pmaddubsw) { return lanes(c, [&](unsigned i) { auto m = [&](unsigned k) { return vBin(O_MUL, vZext(A(0, k), 8, 18), vSext(A(1, k), 8, 18), 18); }; return satS(vAdd(m(2 * i), m(2 * i + 1), 18), 18, 16); }); }
NAT(x_pmulhw) { return lanes(c, [&](unsigned i) { return vExtract(vBin(O_MUL, vSext(A(0, i), 16, 32), vSext(A(1, i), 16, 32), 32), 32, 16, 16); }); }
NAT(x_pmulhuw) { return lanes(c, [&](unsigned i) { return vExtract(vBin(O_MUL, vZext(A(0, i), 16, 32), vZext(A(1, i), 16, 32), 32), 32, 16, 16); }); }
NAT(x_pmulhrsw) { return lanes(c, [&](unsigned i) { Val p = vBin(O_MUL, vSext(A(0, i), 16, 32), vSext(A(1, i), 16, 32), 32); Val q = vAdd(vBin(O_ASHR, p, CV(14), 32), CV(1), 32); return vExtract(q, 32, 1, 16); }); }
NAT(x_psadbw) { return lanes(c, [&](unsigned i) { Val r = CV(0); for (unsigned k = 0; k < 8; k++) { Val x = A(0, i * 8 + k), y = A(1, i * 8 + k); Val d = vIte(vIcmp(P_ULT, x, y, 8), vSub(y, x, 8), vSub(x, y, 8), 8); r = vAdd(r, vZext(d, 8, 64), 64); } return r; }); }
template <Op O> static NRes shiftX(VM &vm, CallCtx &c) {
    unsigned w = W(c, 0), cw = W(c, 1); Val cnt = A(1, 0); unsigned have = cw; for (unsigned i = 1; have < 64; i++) { cnt = vConcat(A(1, i), cw, cnt, have); have += cw; }
    if (cnt.e) { vm.kill(c.s, "symbolic vector shift count", true); return NR_DEAD; }
    return lanes(c, [&](unsigned i) { if (cnt.c >= w) return O == O_ASHR ? vBin(O_ASHR, A(0, i), CV(w - 1), w) : CV(0); return vBin(O, A(0, i), CV(cnt.c), w); });
}
template <Op O> static NRes shiftI(VM &vm, CallCtx &c) { unsigned w = W(c, 0); Val cnt = A(1, 0); if (cnt.e) { vm.kill(c.s, "symbolic vector shift count", true); return NR_DEAD; } return lanes(c, [&](unsigned i) { if (cnt.c >= w) return O == O_ASHR ? vBin(O_ASHR, A(0, i), CV(w - 1), w) : CV(0); return vBin(O, A(0, i), CV(cnt.c), w); }); }
NAT(x_blendvb) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vIte(vExtract(A(2, i), w, w - 1, 1), A(1, i), A(0, i), w); }); }
NAT(x_minps) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vIte(vFcmp(4, A(0, i), A(1, i), w), A(0, i), A(1, i), w); }); }
NAT(x_maxps) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vIte(vFcmp(2, A(0, i), A(1, i), w), A(0, i), A(1, i), w); }); }
NAT(x_cvtps2dq) { return lanes(c, [&](unsigned i) { return vF(O_CVTPS2DQ, 32, A(0, i), 32); }); }
NAT(x_cvttps2dq) { return lanes(c, [&](unsigned i) { Val t = vF(O_FTRUNC, 32, A(0, i), 32); return vF(O_CVTPS2DQ, 32, t, 32); }); }
NAT(x_cvtps2dq_m) { uint64_t m = c.arg(2)->c; return lanes(c, [&](unsigned i) { return m >> i & 1 ? vF(O_CVTPS2DQ, 32, A(0, i), 32) : A(1, i); }); }
NAT(x_cvtpd2ps) { return lanes(c, [&](unsigned i) { return vF(O_FPTRUNC, 32, A(0, i), 64); }); }
NAT(x_cvtps2ph) { unsigned n = L(c, 0); return lanes(c, [&](unsigned i) { if (i >= n) return CV(0); return vF(O_F32TOF16, 16, A(0, i), 32); }); }
NAT(x_cvtps2ph_m) { uint64_t m = c.arg(3)->c; return lanes(c, [&](unsigned i) { return m >> i & 1 ? vF(O_F32TOF16, 16, A(0, i), 32) : A(2, i); }); }
NAT(x_permvarqi) { unsigned n = c.ci.retSlots; return lanes(c, [&](unsigned i) { Val ix = A(1, i); if (!ix.e) return A(0, ix.c & (n - 1)); unsigned bits = 0; while ((1u << bits) < n) bits++; Ref r = 0; Ref k = mkExtract(ix.e, 0, bits); for (unsigned j = 0; j < n; j++) { Ref x = toRef(A(0, j), 8); r = r ? mkIte(mkEq(k, mkConst(j, bits)), x, r) : x; } return fromRef(r); }); }
NAT(x_vpermi2varqi) { unsigned n = c.ci.retSlots, w = W(c, 0); return lanes(c, [&](unsigned i) { Val ix = A(1, i); unsigned bits = 1; while ((1u << bits) < 2 * n) bits++; auto el = [&](unsigned j) { return j < n ? A(0, j) : A(2, j - n); }; if (!ix.e) return el((unsigned)(ix.c & (2 * n - 1)));
    // balanced selection tree on the index bits
    std::vector<Ref> v; for (unsigned j = 0; j < 2 * n; j++) v.push_back(toRef(el(j), w)); for (unsigned b = 0; b < bits; b++) { Ref s = mkExtract(ix.e, b, 1); std::vector<Ref> t; for (size_t j = 0; j + 1 < v.size(); j += 2) t.push_back(v[j] == v[j + 1] ? v[j] : mkIte(s, v[j + 1], v[j])); v = t; } return fromRef(v[0]); }); }
NAT(x_vpdpbusd) { return lanes(c, [&](unsigned i) { Val r = A(0, i); for (unsigned k = 0; k < 4; k++) { Val a, b; if (W(c, 1) == 8) { a = A(1, i * 4 + k); b = A(2, i * 4 + k); } else { a = vExtract(A(1, i), 32, k * 8, 8); b = vExtract(A(2, i), 32, k * 8, 8); } r = vAdd(r, vBin(O_MUL, vZext(a, 8, 32), vSext(b, 8, 32), 32), 32); } return r; }); }
NAT(x_gather) { CONC(1, base, "gather base"); uint64_t sc = c.arg(4)->c; unsigned w = c.ci.retW; std::vector<Val> o(c.ci.retSlots);
    for (unsigned i = 0; i < c.ci.retSlots; i++) { Val m = A(3, i); if (m.e) { vm.kill(c.s, "symbolic gather mask", true); return NR_DEAD; } if (!m.c) { o[i] = A(0, i); continue; } Val ix = vSext(A(2, i), 32, 64); Val a = vAdd(CV(base), vBin(O_MUL, ix, CV(sc), 64), 64); if (!vm.load(c.s, a, w / 8, &o[i], w)) return NR_RETRY; }
    for (unsigned i = 0; i < c.ci.retSlots; i++) c.ret()[i] = o[i]; return NR_OK; }
NAT(x_stmxcsr) { CONC(0, p, "stmxcsr"); uint64_t x; if (!vm.checkRange(c.s, CV(p), 4, true, &x)) return NR_DEAD; vm.write32(c.s, p, 0x1f80); return NR_OK; }
NAT(x_movmsk) { unsigned w = W(c, 0); Val r = CV(0); for (unsigned i = 0; i < L(c, 0); i++) r = vBin(O_OR, r, vBin(O_SHL, vZext(vExtract(A(0, i), w, w - 1, 1), 1, 32), CV(i), 32), 32); RET(r); }
NAT(x_pshufb) { return lanes(c, [&](unsigned i) { Val ix = A(1, i); unsigned base = i & ~15u; if (!ix.e) return ix.c & 0x80 ? CV(0) : A(0, base + (ix.c & 15)); Val r = CV(0); for (unsigned j = 0; j < 16; j++) r = vIte(fromRef(mkEq(mkExtract(ix.e, 0, 4), mkConst(j, 4))), A(0, base + j), r, 8); return vIte(vExtract(ix, 8, 7, 1), CV(0), r, 8); }); }
NAT(x_pavg) { unsigned w = W(c, 0); return lanes(c, [&](unsigned i) { return vExtract(vAdd(vAdd(vZext(A(0, i), w, w + 1), vZext(A(1, i), w, w + 1), w + 1), CV(1), w + 1), w + 1, 1, w); }); }

NAT(n_asm) {
    const std::string &a = c.ci.asmStr;
    for (unsigned i = 0; i < c.ci.retSlots; i++) c.ret()[i] = CV(0);
    if (a.find("cpuid") != std::string::npos) { // every feature present; the level used is limited through the core's own setting
        uint64_t leaf = c.nargs() ? c.arg(0)->c : 0;
        uint32_t ax = 0xffffffff, bx = 0xffffffff, cx = 0xffffffff, dx = 0xffffffff;
        if (leaf == 0) { ax = 31; } else if (leaf == 7) ax = 2;
        if (leaf == 0x80000000) ax = 0x8000001f;
        if (vm.opt.params.count("nocpu")) { ax = leaf == 0 ? 7 : 0; bx = 0; cx = 0; dx = 0xffffffff; }
        uint32_t v[4] = { ax, bx, cx, dx };
        for (unsigned i = 0; i < 4 && i < c.ci.retSlots; i++) c.ret()[i] = CV(v[i]);
        return NR_OK;
    }
    if (a.find("xgetbv") != std::string::npos) { if (c.ci.retSlots) c.ret()[0] = CV(0xe7); return NR_OK; }
    if (a.empty() || a.find("pause") != std::string::npos) return NR_OK;
    vm.report(c.s, "unsupported", "inline assembly " + a); vm.incomplete.insert("inline assembly"); return NR_DEAD;
}
Native asmNative() { return n_asm; }

static void initNatives() {
    auto &m = g_nat;
    m["malloc"] = n_malloc; m["calloc"] = n_calloc; m["free"] = n_free; m["realloc"] = n_realloc; m["posix_memalign"] = n_posix_memalign; m["aligned_alloc"] = n_aligned_alloc; m["memalign"] = n_aligned_alloc;
    m["_Znwm"] = n_new; m["_Znam"] = n_newarr; m["_ZdlPv"] = n_delete; m["_ZdlPvm"] = n_delete; m["_ZdaPv"] = n_deletearr; m["_ZdaPvm"] = n_deletearr; m["_ZnwmSt11align_val_t"] = n_new; m["_ZdlPvSt11align_val_t"] = n_delete; m["_ZdlPvmSt11align_val_t"] = n_delete;
    m["_ZnwmRKSt9nothrow_t"] = n_new; m["_ZnamRKSt9nothrow_t"] = n_newarr; m["mmap"] = n_mmap; m["munmap"] = n_munmap;
    m["memcpy"] = n_memcpy; m["memmove"] = n_memcpy; m["memset"] = n_memset; m["memcmp"] = n_memcmp; m["bcmp"] = n_memcmp; m["strcmp"] = n_strcmp; m["strncmp"] = n_strncmp; m["strlen"] = n_strlen; m["strcpy"] = n_strcpy; m["strcat"] = n_strcat; m["strncpy"] = n_strncpy; m["memchr"] = n_memchr; m["strchr"] = n_strchr; m["isspace"] = n_isspace;
    m["vsnprintf"] = n_vsnprintf; m["snprintf"] = n_snprintf; m["sprintf"] = n_sprintf; m["fprintf"] = n_fprintf; m["printf"] = n_printf; m["vfprintf"] = n_vfprintf; m["fwrite"] = n_fwrite;
    for (auto *x : { "fputc", "fclose", "fflush", "__cxa_atexit", "__cxa_thread_atexit", "__cxa_thread_atexit_impl", "dlclose", "dlerror", "getenv", "__cxa_guard_abort", "_ZSt21ios_base_library_initv", "fopen", "fread", "fputs", "puts" }) m[x] = n_ret0;
    m["dlopen"] = n_ret1; m["dlsym"] = n_dlsym; m["dladdr"] = n_dladdr; m["getpagesize"] = n_pagesize; m["abort"] = n_abort; m["_ZSt9terminatev"] = n_terminate; m["__assert_fail"] = n_assert_fail; m["__cxa_pure_virtual"] = n_pure; m["exit"] = n_abort; m["__clang_call_terminate_"] = n_terminate;
    m["__cxa_allocate_exception"] = n_alloc_exc; m["__cxa_free_exception"] = n_free_exc; m["__cxa_throw"] = n_throw; m["__cxa_begin_catch"] = n_begin_catch; m["vsx_end_catch"] = n_end_catch; m["vsx_exc_done"] = n_exc_done; m["__cxa_rethrow"] = n_rethrow; m["__cxa_get_exception_ptr"] = n_retarg0;
    m["__cxa_guard_acquire"] = n_guard_acquire; m["__cxa_guard_release"] = n_guard_release; m["__dynamic_cast"] = n_dynamic_cast; m["__gxx_personality_v0"] = n_ret0;
    m["pthread_mutex_lock"] = n_mutex_lock; m["pthread_mutex_trylock"] = n_mutex_trylock; m["pthread_mutex_unlock"] = n_mutex_unlock; m["pthread_self"] = n_self;
    m["vsx_cond_wait"] = n_cond_wait; m["vsx_cond_notify"] = n_cond_notify; m["vsx_thread_create"] = n_thread_create; m["vsx_thread_join"] = n_thread_join; m["vsx_tid"] = n_tid; m["vsx_yield"] = n_yield; m["vsx_now"] = n_now; m["sched_yield"] = n_yield;
    m["vsx_symbolic"] = n_symbolic; m["vsx_assume"] = n_assume; m["vsx_range_sym"] = n_range; m["vsx_check_range"] = n_checkrange; m["vsx_assert"] = n_assert; m["vsx_assert_eqmem"] = n_assert_eqmem; m["vsx_cover"] = n_cover; m["vsx_fail"] = n_fail; m["vsx_concretize"] = n_concretize; m["vsx_choice"] = n_choice; m["vsx_param"] = n_param; m["vsx_done"] = n_done; m["vsx_is_symbolic"] = n_issym; m["vsx_live_objects"] = n_live; m["vsx_object_size"] = n_objsize; m["vsx_is_freed"] = n_isfreed; m["vsx_runnable"] = n_runnable; m["vsx_explore"] = n_explore; m["vsx_advance"] = n_advance; m["vsx_print"] = n_print; m["vsx_havoc"] = n_havoc; m["vsx_fmt"] = n_fmtnum; m["vsx_parse_num"] = n_strtod;
    m["_ZNSt6thread20hardware_concurrencyEv"] = n_hwconc; m["sched_getaffinity"] = n_affinity; m["__sched_cpucount"] = n_ret1; m["sysinfo"] = n_sysinfo;
    m["expf"] = m["exp"] = i_exp; m["logf"] = m["log"] = i_log; m["sinf"] = m["sin"] = i_sin; m["cosf"] = m["cos"] = i_cos; m["powf"] = m["pow"] = i_pow; m["ldexp"] = m["ldexpf"] = i_ldexp; m["exp2f"] = m["exp2"] = i_exp2; m["log2"] = m["log2f"] = i_log2; m["log10"] = i_log10; m["tan"] = i_tan;
    m["lround"] = m["lroundf"] = m["llround"] = m["llroundf"] = fround_i<O_FROUND>; m["lrint"] = m["lrintf"] = m["llrint"] = fround_i<O_FRINT>; m["round"] = m["roundf"] = f1<O_FROUND>; m["floor"] = m["floorf"] = f1<O_FFLOOR>; m["ceil"] = m["ceilf"] = f1<O_FCEIL>; m["trunc"] = m["truncf"] = f1<O_FTRUNC>; m["sqrt"] = m["sqrtf"] = f1<O_FSQRT>; m["fabs"] = m["fabsf"] = i_fabs; m["rint"] = m["rintf"] = m["nearbyint"] = f1<O_FRINT>; m["fma"] = m["fmaf"] = i_fma;
    m["fmaxf"] = m["fmax"] = i_fmax; m["fminf"] = m["fmin"] = i_fmin;
}
Native findNative(const std::string &n) { if (g_nat.empty()) initNatives(); auto it = g_nat.find(n); return it == g_nat.end() ? nullptr : it->second; }
Native findIntrinsic(const std::string &n) {
    static std::vector<std::pair<const char *, Native>> t = {
        { "llvm.abs.", i_abs }, { "llvm.smax.", minmax<P_SGT> }, { "llvm.smin.", minmax<P_SLT> }, { "llvm.umax.", minmax<P_UGT> }, { "llvm.umin.", minmax<P_ULT> },
        { "llvm.sadd.sat.", i_saddsat }, { "llvm.ssub.sat.", i_ssubsat }, { "llvm.uadd.sat.", i_uaddsat }, { "llvm.usub.sat.", i_usubsat },
        { "llvm.sadd.with.overflow", i_saddo }, { "llvm.uadd.with.overflow", i_uaddo }, { "llvm.ssub.with.overflow", i_ssubo }, { "llvm.usub.with.overflow", i_usubo }, { "llvm.smul.with.overflow", i_smulo }, { "llvm.umul.with.overflow", i_umulo },
        { "llvm.ctpop.", i_ctpop }, { "llvm.ctlz.", i_ctlz }, { "llvm.cttz.", i_cttz }, { "llvm.bswap.", i_bswap }, { "llvm.fshl.", i_fshl }, { "llvm.fshr.", i_fshr },
        { "llvm.fabs.", i_fabs }, { "llvm.copysign.", i_copysign }, { "llvm.floor.", f1<O_FFLOOR> }, { "llvm.ceil.", f1<O_FCEIL> }, { "llvm.trunc.", f1<O_FTRUNC> }, { "llvm.round.", f1<O_FROUND> }, { "llvm.rint.", f1<O_FRINT> }, { "llvm.nearbyint.", f1<O_FRINT> }, { "llvm.roundeven.", f1<O_FRINT> }, { "llvm.sqrt.", f1<O_FSQRT> }, { "llvm.fma.", i_fma }, { "llvm.fmuladd.", i_fmuladd },
        { "llvm.lround.", fround_i<O_FROUND> }, { "llvm.llround.", fround_i<O_FROUND> }, { "llvm.lrint.", fround_i<O_FRINT> }, { "llvm.llrint.", fround_i<O_FRINT> },
        { "llvm.exp.", i_exp }, { "llvm.exp2.", i_exp2 }, { "llvm.log.", i_log }, { "llvm.log2.", i_log2 }, { "llvm.log10.", i_log10 }, { "llvm.sin.", i_sin }, { "llvm.cos.", i_cos }, { "llvm.pow.", i_pow }, { "llvm.ldexp.", i_ldexp }, { "llvm.is.fpclass.", i_fclass }, { "llvm.minnum.", i_fmin }, { "llvm.maxnum.", i_fmax }, { "llvm.fptosi.sat.", i_fptosisat },
        { "llvm.load.relative.", i_load_relative }, { "llvm.va_start", i_va_start }, { "llvm.va_copy", i_va_copy }, { "llvm.threadlocal.address", n_tls }, { "llvm.eh.typeid.for", n_typeid_for }, { "llvm.trap", n_trap }, { "llvm.ubsantrap", n_trap }, { "llvm.objectsize.", i_objectsize }, { "llvm.is.constant.", i_isconst },
        { "llvm.memcpy.", n_memcpy }, { "llvm.memmove.", n_memcpy }, { "llvm.memset.", n_memset }, { "llvm.masked.load.", i_masked_load }, { "llvm.masked.store.", i_masked_store },
        { "llvm.vector.reduce.add.", reduce<0> }, { "llvm.vector.reduce.or.", reduce<1> }, { "llvm.vector.reduce.and.", reduce<2> }, { "llvm.vector.reduce.umax.", reduce<3> }, { "llvm.vector.reduce.umin.", reduce<4> }, { "llvm.vector.reduce.smax.", reduce<5> }, { "llvm.vector.reduce.smin.", reduce<6> },
        { "llvm.x86.avx2.packssdw", pack<true> }, { "llvm.x86.avx2.packsswb", pack<true> }, { "llvm.x86.sse2.packssdw", pack<true> }, { "llvm.x86.sse2.packsswb", pack<true> }, { "llvm.x86.avx512.packssdw", pack<true> }, { "llvm.x86.avx512.packsswb", pack<true> },
        { "llvm.x86.avx2.packusdw", pack<false> }, { "llvm.x86.avx2.packuswb", pack<false> }, { "llvm.x86.sse2.packuswb", pack<false> }, { "llvm.x86.sse41.packusdw", pack<false> }, { "llvm.x86.avx512.packusdw", pack<false> }, { "llvm.x86.avx512.packuswb", pack<false> },
        { "llvm.x86.sse2.pmadd.wd", x_pmaddwd }, { "llvm.x86.avx2.pmadd.wd", x_pmaddwd }, { "llvm.x86.avx512.pmaddw.d", x_pmaddwd }, { "llvm.x86.ssse3.pmadd.ub.sw", x_pmaddubsw }, { "llvm.x86.avx2.pmadd.ub.sw", x_pmaddubsw }, { "llvm.x86.avx512.pmaddubs.w", x_pmaddubsw },
        { "llvm.x86.sse2.pmulh.w", x_pmulhw }, { "llvm.x86.avx2.pmulh.w", x_pmulhw }, { "llvm.x86.avx512.pmulh.w", x_pmulhw }, { "llvm.x86.sse2.pmulhu.w", x_pmulhuw }, { "llvm.x86.avx2.pmulhu.w", x_pmulhuw }, { "llvm.x86.avx512.pmulhu.w", x_pmulhuw }, { "llvm.x86.avx2.pmul.hr.sw", x_pmulhrsw }, { "llvm.x86.ssse3.pmul.hr.sw", x_pmulhrsw }, { "llvm.x86.avx512.pmul.hr.sw", x_pmulhrsw },
        { "llvm.x86.sse2.psad.bw", x_psadbw }, { "llvm.x86.avx2.psad.bw", x_psadbw }, { "llvm.x86.avx512.psad.bw", x_psadbw },
        { "llvm.x86.sse2.psrl.", shiftX<O_LSHR> }, { "llvm.x86.avx2.psrl.", shiftX<O_LSHR> }, { "llvm.x86.avx512.psrl.", shiftX<O_LSHR> }, { "llvm.x86.sse2.psll.", shiftX<O_SHL> }, { "llvm.x86.avx2.psll.", shiftX<O_SHL> }, { "llvm.x86.avx512.psll.", shiftX<O_SHL> }, { "llvm.x86.sse2.psra.", shiftX<O_ASHR> }, { "llvm.x86.avx2.psra.", shiftX<O_ASHR> }, { "llvm.x86.avx512.psra.", shiftX<O_ASHR> },
        { "llvm.x86.sse2.psrli.", shiftI<O_LSHR> }, { "llvm.x86.avx2.psrli.", shiftI<O_LSHR> }, { "llvm.x86.avx512.psrli.", shiftI<O_LSHR> }, { "llvm.x86.sse2.pslli.", shiftI<O_SHL> }, { "llvm.x86.avx2.pslli.", shiftI<O_SHL> }, { "llvm.x86.avx512.pslli.", shiftI<O_SHL> }, { "llvm.x86.sse2.psrai.", shiftI<O_ASHR> }, { "llvm.x86.avx2.psrai.", shiftI<O_ASHR> }, { "llvm.x86.avx512.psrai.", shiftI<O_ASHR> },
        { "llvm.x86.avx2.pblendvb", x_blendvb }, { "llvm.x86.sse41.pblendvb", x_blendvb }, { "llvm.x86.avx.blendv", x_blendvb }, { "llvm.x86.sse41.blendv", x_blendvb },
        { "llvm.x86.avx.min.p", x_minps }, { "llvm.x86.sse.min.ps", x_minps }, { "llvm.x86.sse2.min.pd", x_minps }, { "llvm.x86.avx512.min.p", x_minps }, { "llvm.x86.avx.max.p", x_maxps }, { "llvm.x86.sse.max.ps", x_maxps }, { "llvm.x86.sse2.max.pd", x_maxps }, { "llvm.x86.avx512.max.p", x_maxps },
        { "llvm.x86.avx.cvt.ps2dq", x_cvtps2dq }, { "llvm.x86.sse2.cvtps2dq", x_cvtps2dq }, { "llvm.x86.sse2.cvttps2dq", x_cvttps2dq }, { "llvm.x86.avx.cvtt.ps2dq", x_cvttps2dq }, { "llvm.x86.avx512.mask.cvtps2dq", x_cvtps2dq_m }, { "llvm.x86.avx.cvt.pd2.ps", x_cvtpd2ps }, { "llvm.x86.vcvtps2ph", x_cvtps2ph }, { "llvm.x86.avx512.mask.vcvtps2ph.512", x_cvtps2ph_m },
        { "llvm.x86.avx512.permvar.qi", x_permvarqi }, { "llvm.x86.avx512.vpermi2var.", x_vpermi2varqi }, { "llvm.x86.avx512.vpdpbusd.", x_vpdpbusd }, { "llvm.x86.avx512.mask.gather.", x_gather }, { "llvm.x86.sse.stmxcsr", x_stmxcsr }, { "llvm.x86.sse2.pmovmskb", x_movmsk }, { "llvm.x86.avx2.pmovmskb", x_movmsk }, { "llvm.x86.sse.movmsk", x_movmsk }, { "llvm.x86.ssse3.pshuf.b", x_pshufb }, { "llvm.x86.avx2.pshuf.b", x_pshufb }, { "llvm.x86.avx512.pshuf.b", x_pshufb }, { "llvm.x86.sse2.pavg.", x_pavg }, { "llvm.x86.avx2.pavg.", x_pavg }, { "llvm.x86.avx512.pavg.", x_pavg },
    };
    for (auto &x : t) if (n.compare(0, strlen(x.first), x.first) == 0) return x.second;
    return nullptr;
}
void registerNatives(VM &) { if (g_nat.empty()) initNatives(); }
