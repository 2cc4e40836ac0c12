#include "expr.h"
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cfenv>

typedef unsigned __int128 u128;
typedef __int128 i128;

std::vector<SymInfo> g_syms;
Node **g_chunks;
static uint32_t g_n = 1;
static std::vector<uint32_t> g_tab;
static uint32_t g_tabmask;
static std::vector<std::vector<uint64_t>> g_wide;
static std::vector<std::string> g_ufs;
static std::unordered_map<std::string, uint32_t> g_ufmap;

// ---- symbol sets -------------------------------------------------------------------------
static std::vector<std::vector<uint32_t>> g_sets;
static std::unordered_multimap<uint64_t, uint32_t> g_setidx;
static std::unordered_map<uint64_t, uint32_t> g_setun;
static uint64_t hv(const std::vector<uint32_t> &v) { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; }
static uint32_t internSet(std::vector<uint32_t> &&v) {
    uint64_t h = hv(v);
    auto r = g_setidx.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if (g_sets[i->second] == v) return i->second;
    g_sets.push_back(std::move(v));
    g_setidx.emplace(h, (uint32_t)g_sets.size() - 1);
    return (uint32_t)g_sets.size() - 1;
}
const std::vector<uint32_t> &symSet(uint32_t id) { return g_sets[id]; }
uint32_t symSetUnion(uint32_t a, uint32_t b) {
    if (a == b || b == 0) return a;
    if (a == 0) return b;
    if (a > b) std::swap(a, b);
    uint64_t key = ((uint64_t)a << 32) | b;
    auto it = g_setun.find(key);
    if (it != g_setun.end()) return it->second;
    std::vector<uint32_t> u;
    std::set_union(g_sets[a].begin(), g_sets[a].end(), g_sets[b].begin(), g_sets[b].end(), std::back_inserter(u));
    uint32_t r = internSet(std::move(u));
    g_setun[key] = r;
    return r;
}

uint32_t numExprs() { return g_n; }
static Ref R_true, R_false;
Ref mkTrue() { return R_true; }
Ref mkFalse() { return R_false; }

void exprInit() {
    g_chunks = (Node **)calloc(65536, sizeof(Node *));
    g_chunks[0] = (Node *)calloc(65536, sizeof(Node));
    g_tab.assign(1 << 20, 0); g_tabmask = (1 << 20) - 1;
    g_sets.push_back({}); g_setidx.emplace(hv({}), 0);
    R_false = mkConst(0, 1); R_true = mkConst(1, 1);
}
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static inline uint64_t nhash(uint8_t op, uint16_t w, Ref a, Ref b, Ref c, uint64_t k) {
    uint64_t h = mix(op | ((uint64_t)w << 8), ((uint64_t)a << 32) | b);
    return mix(mix(h, c), k);
}
static void rehash() {
    uint32_t ns = (uint32_t)g_tab.size() * 2;
    g_tab.assign(ns, 0); g_tabmask = ns - 1;
    for (uint32_t i = 1; i < g_n; i++) { Node &n = N(i); uint32_t s = nhash(n.op, n.w, n.a, n.b, n.c, n.k) & g_tabmask; n.hnext = g_tab[s]; g_tab[s] = i; }
}
static inline int64_t smaxW(unsigned w) { return w >= 64 ? INT64_MAX : (int64_t)(maskW(w) >> 1); }
static inline int64_t sminW(unsigned w) { return -smaxW(w) - 1; }

static void computeRange(Node &n) {
    unsigned w = n.w;
    if (w > 64) { n.umin = 0; n.umax = ~0ull; n.smin = INT64_MIN; n.smax = INT64_MAX; return; }
    uint64_t umin = 0, umax = maskW(w);
    int64_t smin = sminW(w), smax = smaxW(w);
    auto A = [&]() -> Node & { return N(n.a); };
    auto B = [&]() -> Node & { return N(n.b); };
    switch (n.op) {
    case O_CONST: umin = umax = n.k; smin = smax = sextW(n.k, w); break;
    case O_ADD: {
        u128 lo = (u128)A().umin + B().umin, hi = (u128)A().umax + B().umax;
        if (hi <= maskW(w)) { umin = (uint64_t)lo; umax = (uint64_t)hi; }
        i128 sl = (i128)A().smin + B().smin, sh = (i128)A().smax + B().smax;
        if (sl >= sminW(w) && sh <= smaxW(w)) { smin = (int64_t)sl; smax = (int64_t)sh; }
        break; }
    case O_MUL: {
        u128 hi = (u128)A().umax * B().umax;
        if (hi <= maskW(w)) { umin = A().umin * B().umin; umax = (uint64_t)hi; }
        i128 p[4] = { (i128)A().smin * B().smin, (i128)A().smin * B().smax, (i128)A().smax * B().smin, (i128)A().smax * B().smax };
        i128 sl = *std::min_element(p, p + 4), sh = *std::max_element(p, p + 4);
        if (sl >= sminW(w) && sh <= smaxW(w)) { smin = (int64_t)sl; smax = (int64_t)sh; }
        break; }
    case O_UDIV: if (B().umin > 0) { umin = A().umin / B().umax; umax = A().umax / B().umin; } break;
    case O_UREM: if (B().umin > 0) umax = std::min(A().umax, B().umax - 1); break;
    case O_SDIV:
        if (N(n.b).op == O_CONST) { int64_t d = sextW(N(n.b).k, w); if (d > 0) { smin = A().smin / d; smax = A().smax / d; } }
        else if (B().smin > 0) { smin = std::min<int64_t>(A().smin, 0); smax = std::max<int64_t>(A().smax, 0); }
        break;
    case O_SREM:
        if (B().smin > 0) { smax = std::min(std::max<int64_t>(A().smax, 0), B().smax - 1); smin = std::max(std::min<int64_t>(A().smin, 0), -(B().smax - 1)); }
        break;
    case O_AND: umax = std::min(A().umax, B().umax); break;
    case O_OR: { umin = std::max(A().umin, B().umin); uint64_t m = A().umax | B().umax; int l = m ? 64 - __builtin_clzll(m) : 0; umax = std::min<uint64_t>(umax, l >= 64 ? ~0ull : (1ull << l) - 1); break; }
    case O_XOR: { uint64_t m = A().umax | B().umax; int l = m ? 64 - __builtin_clzll(m) : 0; umax = std::min<uint64_t>(umax, l >= 64 ? ~0ull : (1ull << l) - 1); break; }
    case O_SHL:
        if (N(n.b).op == O_CONST && N(n.b).k < w) {
            unsigned s = (unsigned)N(n.b).k;
            if ((u128)A().umax << s <= maskW(w)) { umin = A().umin << s; umax = A().umax << s; }
            i128 sl = (i128)A().smin * ((i128)1 << s), sh = (i128)A().smax * ((i128)1 << s);
            if (sl >= sminW(w) && sh <= smaxW(w)) { smin = (int64_t)sl; smax = (int64_t)sh; }
        }
        break;
    case O_LSHR:
        if (N(n.b).op == O_CONST && N(n.b).k < w) { umin = A().umin >> N(n.b).k; umax = A().umax >> N(n.b).k; }
        else umax = A().umax;
        break;
    case O_ASHR:
        if (N(n.b).op == O_CONST && N(n.b).k < w) { smin = A().smin >> N(n.b).k; smax = A().smax >> N(n.b).k; }
        else { smin = std::min<int64_t>(A().smin, 0); smax = std::max<int64_t>(A().smax, 0); }
        break;
    case O_CONCAT: { unsigned wl = B().w; umin = (A().umin << wl) | B().umin; umax = (A().umax << wl) | B().umax; break; }
    case O_EXTRACT: {
        if (A().w > 64) break;
        unsigned lo = (unsigned)n.k;
        if ((A().umax >> lo) <= maskW(w)) { umin = A().umin >> lo; umax = A().umax >> lo; }
        if ((A().smin >> lo) >= sminW(w) && (A().smax >> lo) <= smaxW(w)) { smin = A().smin >> lo; smax = A().smax >> lo; }
        break; }
    case O_ZEXT: umin = A().umin; umax = A().umax; break;
    case O_SEXT: smin = A().smin; smax = A().smax; break;
    case O_ITE: {
        Node &c = N(n.a); Node &x = N(n.b); Node &y = N(n.c);
        uint64_t xl = x.umin, xh = x.umax, yl = y.umin, yh = y.umax;
        int64_t xsl = x.smin, xsh = x.smax, ysl = y.smin, ysh = y.smax;
        // comparisons may have been narrowed; match through zext/trunc by range-equality of the core term
        auto core = [](Ref r) { while (N(r).op == O_ZEXT || (N(r).op == O_EXTRACT && N(r).k == 0 && N(N(r).a).w <= 64 && N(N(r).a).umax <= maskW(N(r).w))) r = N(r).a; return r; };
        auto score = [](Ref r) { while (N(r).op == O_SEXT || (N(r).op == O_EXTRACT && N(r).k == 0 && N(N(r).a).w <= 64 && N(N(r).a).smin >= sminW(N(r).w) && N(N(r).a).smax <= smaxW(N(r).w))) r = N(r).a; return r; };
        bool neg = false; Ref cr = n.a;
        if (c.op == O_XOR && N(c.b).op == O_CONST) { neg = true; cr = c.a; }
        Node &cc = N(cr);
        if (cc.op == O_ULT || cc.op == O_SLT) {
            Ref p = cc.a, q = cc.b;
            bool s = cc.op == O_SLT;
            auto same = [&](Ref u, Ref v) { return u == v || (s ? score(u) == score(v) : core(u) == core(v)) ||
                (N(u).op == O_CONST && N(v).op == O_CONST && (s ? sextW(N(u).k, N(u).w) == sextW(N(v).k, N(v).w) : N(u).k == N(v).k)); };
            // branch taken when p<q: "t", otherwise "f"
            Ref t = neg ? n.c : n.b, f = neg ? n.b : n.c;
            uint64_t &tl = neg ? yl : xl, &th = neg ? yh : xh, &fl = neg ? xl : yl, &fh = neg ? xh : yh;
            int64_t &tsl = neg ? ysl : xsl, &tsh = neg ? ysh : xsh, &fsl = neg ? xsl : ysl, &fsh = neg ? xsh : ysh;
            Node &P = N(p), &Q = N(q);
            if (s) {
                if (same(t, p)) tsh = std::min(tsh, Q.smax - 1);
                if (same(t, q)) tsl = std::max(tsl, P.smin + 1);
                if (same(f, p)) fsl = std::max(fsl, Q.smin);
                if (same(f, q)) fsh = std::min(fsh, P.smax);
            } else {
                if (same(t, p)) th = std::min(th, Q.umax - 1);
                if (same(t, q)) tl = std::max(tl, P.umin + 1);
                if (same(f, p)) fl = std::max(fl, Q.umin);
                if (same(f, q)) fh = std::min(fh, P.umax);
            }
            if (xsl >= 0) { xl = std::max<uint64_t>(xl, xsl); xh = std::min<uint64_t>(xh, xsh); }
            if (ysl >= 0) { yl = std::max<uint64_t>(yl, ysl); yh = std::min<uint64_t>(yh, ysh); }
            if (xh <= (uint64_t)smaxW(w)) { xsl = std::max<int64_t>(xsl, xl); xsh = std::min<int64_t>(xsh, xh); }
            if (yh <= (uint64_t)smaxW(w)) { ysl = std::max<int64_t>(ysl, yl); ysh = std::min<int64_t>(ysh, yh); }
        }
        umin = std::min(xl, yl); umax = std::max(xh, yh); smin = std::min(xsl, ysl); smax = std::max(xsh, ysh);
        break; }
    default: break;
    }
    if (umin > umax) { umin = 0; umax = maskW(w); }
    if (smin > smax) { smin = sminW(w); smax = smaxW(w); }
    if (smin >= 0) { umin = std::max<uint64_t>(umin, smin); umax = std::min<uint64_t>(umax, smax); }
    if (umax <= (uint64_t)smaxW(w)) { smin = std::max<int64_t>(smin, (int64_t)umin); smax = std::min<int64_t>(smax, (int64_t)umax); }
    if (umin > umax || smin > smax) { umin = 0; umax = maskW(w); smin = sminW(w); smax = smaxW(w); }
    n.umin = umin; n.umax = umax; n.smin = smin; n.smax = smax;
}

static Ref raw(Op op, unsigned w, Ref a = 0, Ref b = 0, Ref c = 0, uint64_t k = 0) {
    uint64_t h = nhash(op, (uint16_t)w, a, b, c, k);
    uint32_t s = h & g_tabmask;
    for (uint32_t i = g_tab[s]; i; i = N(i).hnext) { Node &n = N(i); if (n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.k == k) return i; }
    if (g_n >= g_tab.size()) { rehash(); s = h & g_tabmask; }
    uint32_t id = g_n++;
    if (!g_chunks[id >> 16]) g_chunks[id >> 16] = (Node *)calloc(65536, sizeof(Node));
    Node &n = N(id);
    n.op = op; n.w = (uint16_t)w; n.a = a; n.b = b; n.c = c; n.k = k;
    n.nk = (a != 0) + (b != 0) + (c != 0);
    uint64_t sz = 1; uint32_t ss = 0, fl = 0;
    if (a) { sz += N(a).size; ss = N(a).symset; fl |= N(a).flags; }
    if (b) { sz += N(b).size; ss = symSetUnion(ss, N(b).symset); fl |= N(b).flags; }
    if (c) { sz += N(c).size; ss = symSetUnion(ss, N(c).symset); fl |= N(c).flags; }
    n.size = (uint32_t)std::min<uint64_t>(sz, 1000000000);
    if (op == O_SYM) ss = internSet({ (uint32_t)k });
    if (op >= O_FADD && op <= O_F32TOF16) fl |= NF_FP;
    if (op == O_UF) fl |= NF_UF | NF_FP;
    n.symset = ss; n.flags = fl;
    computeRange(n);
    n.hnext = g_tab[s]; g_tab[s] = id;
    return id;
}
static Ref simpRange(Ref r) { Node &n = N(r); if (n.op != O_CONST && n.w <= 64 && n.umin == n.umax) return mkConst(n.umin, n.w); return r; }
static inline Ref mk(Op op, unsigned w, Ref a = 0, Ref b = 0, Ref c = 0, uint64_t k = 0) { return simpRange(raw(op, w, a, b, c, k)); }

Ref mkWide(const std::vector<uint64_t> &v0, unsigned w) {
    if (w <= 64) return mkConst(v0.empty() ? 0 : v0[0], w);
    std::vector<uint64_t> v = v0; v.resize((w + 63) / 64);
    if (w % 64) v.back() &= maskW(w % 64);
    static std::map<std::pair<unsigned, std::vector<uint64_t>>, Ref> memo;
    auto key = std::make_pair(w, v);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    g_wide.push_back(v);
    Ref r = raw(O_CONST, w, 0, 0, 0, g_wide.size() - 1);
    memo[key] = r;
    return r;
}
const std::vector<uint64_t> &wideConst(Ref r) { return g_wide[N(r).k]; }
static std::vector<uint64_t> cbits(Ref r) { if (N(r).w <= 64) return { N(r).k }; return wideConst(r); }
Ref mkConst(uint64_t v, unsigned w) {
    if (w > 64) return mkWide({ v }, w);
    return raw(O_CONST, w, 0, 0, 0, v & maskW(w));
}
static std::vector<Ref> g_symRef;
Ref mkSym(const std::string &name, unsigned w) {
    g_syms.push_back({ name, w, (uint32_t)g_syms.size() });
    Ref r = raw(O_SYM, w, 0, 0, 0, g_syms.size() - 1);
    g_symRef.push_back(r); return r;
}
Ref mkSymRef(uint32_t id) { return id < g_symRef.size() ? g_symRef[id] : 0; }
uint32_t ufId(const std::string &name) { auto it = g_ufmap.find(name); if (it != g_ufmap.end()) return it->second; g_ufs.push_back(name); return g_ufmap[name] = (uint32_t)g_ufs.size() - 1; }
const std::string &ufName(uint32_t id) { return g_ufs[id]; }

uint32_t f16_to_f32(uint16_t h) {
    uint32_t s = (uint32_t)(h & 0x8000) << 16, e = (h >> 10) & 31, m = h & 0x3ff;
    if (e == 31) return s | 0x7f800000 | (m ? (m << 13) | 0x400000 : 0);
    if (e == 0) { if (!m) return s; int sh = 0; while (!(m & 0x400)) { m <<= 1; sh++; } m &= 0x3ff; return s | ((uint32_t)(113 - sh) << 23) | (m << 13); }
    return s | ((e + 112) << 23) | (m << 13);
}
uint16_t f32_to_f16(uint32_t x) {
    uint32_t s = (x >> 16) & 0x8000; uint32_t a = x & 0x7fffffff;
    if (a > 0x7f800000) return (uint16_t)(s | 0x7e00 | ((a >> 13) & 0x3ff));
    if (a >= 0x47800000) return (uint16_t)(s | 0x7c00);
    int e = (int)(a >> 23) - 127; uint32_t m = (a & 0x7fffff) | 0x800000;
    if (a < 0x33000000) return (uint16_t)s; // below half of the smallest subnormal
    int shift = e < -14 ? 13 + (-14 - e) : 13;
    if (shift > 31) return (uint16_t)s;
    uint32_t q = m >> shift, r = m & ((1u << shift) - 1), half = 1u << (shift - 1);
    if (r > half || (r == half && (q & 1))) q++;
    if (e < -14) return (uint16_t)(s | q);
    return (uint16_t)(s | (((uint32_t)(e + 15) << 10) + q - 0x400));
}
static inline float bf(uint64_t x) { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); return f; }
static inline double bd(uint64_t x) { double f; memcpy(&f, &x, 8); return f; }
static inline uint64_t fb(float f) { uint32_t y; memcpy(&y, &f, 4); return y; }
static inline uint64_t db(double f) { uint64_t y; memcpy(&y, &f, 8); return y; }

// w = result width, wa = width of first operand
uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t k, bool &ok) {
    uint64_t m = maskW(w);
    switch (op) {
    case O_ADD: return (a + b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sextW(a, w), y = sextW(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (uint64_t)(-(uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sextW(a, w), y = sextW(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { int64_t x = sextW(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_SLT: return sextW(a, wa) < sextW(b, wa);
    case O_ITE: return a ? b : c;
    case O_ZEXT: return a;
    case O_SEXT: return (uint64_t)sextW(a, wa) & m;
    case O_EXTRACT: return (a >> k) & m;
    case O_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
    case O_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
    case O_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
    case O_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
    case O_FREM: return w == 32 ? fb(fmodf(bf(a), bf(b))) : db(fmod(bd(a), bd(b)));
    case O_FSQRT: return w == 32 ? fb(sqrtf(bf(a))) : db(sqrt(bd(a)));
    case O_FMA: return w == 32 ? fb(fmaf(bf(a), bf(b), bf(c))) : db(fma(bd(a), bd(b), bd(c)));
    case O_FEQ: return wa == 32 ? bf(a) == bf(b) : bd(a) == bd(b);
    case O_FLT: return wa == 32 ? bf(a) < bf(b) : bd(a) < bd(b);
    case O_FLE: return wa == 32 ? bf(a) <= bf(b) : bd(a) <= bd(b);
    case O_FUNO: return wa == 32 ? (bf(a) != bf(a) || bf(b) != bf(b)) : (bd(a) != bd(a) || bd(b) != bd(b));
    case O_SITOFP: { int64_t x = sextW(a, wa); return w == 32 ? fb((float)x) : db((double)x); }
    case O_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
    case O_FPTOSI: {
        double d = wa == 32 ? (double)bf(a) : bd(a);
        if (w > 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return (1ull << 63) & m; return (uint64_t)(int64_t)d & m; }
        if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000u & m;
        return (uint64_t)(int64_t)d & m; }
    case O_FPTOUI: {
        double d = wa == 32 ? (double)bf(a) : bd(a);
        if (w >= 64) { if (!(d > -1.0)) return 1ull << 63; if (d < 18446744073709551616.0) return (uint64_t)d; return 0; }
        if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0;
        return (uint64_t)(int64_t)d & m; }
    case O_FPEXT: return db((double)bf(a));
    case O_FPTRUNC: return fb((float)bd(a));
    case O_FRINT: return w == 32 ? fb(nearbyintf(bf(a))) : db(nearbyint(bd(a)));
    case O_FFLOOR: return w == 32 ? fb(floorf(bf(a))) : db(floor(bd(a)));
    case O_FCEIL: return w == 32 ? fb(ceilf(bf(a))) : db(ceil(bd(a)));
    case O_FTRUNC: return w == 32 ? fb(truncf(bf(a))) : db(trunc(bd(a)));
    case O_FROUND: return w == 32 ? fb(roundf(bf(a))) : db(round(bd(a)));
    case O_CVTPS2DQ: { double d = nearbyint((double)bf(a)); if (!(d >= -2147483648.0 && d < 2147483648.0)) return 0x80000000u; return (uint32_t)(int32_t)d; }
    case O_F16TOF32: return f16_to_f32((uint16_t)a);
    case O_F32TOF16: return f32_to_f16((uint32_t)a);
    case O_UF: {
        const std::string &n = g_ufs[k];
        if (n == "exp32") return fb(expf(bf(a))); if (n == "log32") return fb(logf(bf(a))); if (n == "pow32") return fb(powf(bf(a), bf(b)));
        if (n == "sin32") return fb(sinf(bf(a))); if (n == "cos32") return fb(cosf(bf(a))); if (n == "sin64") return db(sin(bd(a))); if (n == "cos64") return db(cos(bd(a)));
        if (n == "exp64") return db(exp(bd(a))); if (n == "log64") return db(log(bd(a))); if (n == "pow64") return db(pow(bd(a), bd(b)));
        if (n == "log10_64") return db(log10(bd(a))); if (n == "ldexp64") return db(ldexp(bd(a), (int)(int32_t)b)); if (n == "exp2_64") return db(exp2(bd(a))); if (n == "exp2_32") return fb(exp2f(bf(a)));
        if (n == "tan64") return db(tan(bd(a))); if (n == "atan2_64") return db(atan2(bd(a), bd(b))); if (n == "log2_32") return fb(log2f(bf(a))); if (n == "log2_64") return db(log2(bd(a)));
        ok = false; return 0; }
    default: ok = false; return 0;
    }
}

// linear normal form ---------------------------------------------------------------------
struct Term { Ref t; uint64_t c; };
static bool collect(Ref r, uint64_t coef, std::vector<Term> &ts, uint64_t &k, size_t lim) {
    Node &n = N(r);
    if (n.op == O_CONST) { k += coef * n.k; return true; }
    if (n.op == O_ADD) return collect(n.a, coef, ts, k, lim) && collect(n.b, coef, ts, k, lim);
    if (n.op == O_MUL && N(n.b).op == O_CONST) { ts.push_back({ n.a, coef * N(n.b).k }); return ts.size() <= lim; }
    ts.push_back({ r, coef });
    return ts.size() <= lim;
}
static Ref mulConstRaw(Ref t, uint64_t c, unsigned w) {
    c &= maskW(w);
    if (c == 0) return mkConst(0, w);
    if (c == 1) return t;
    return mk(O_MUL, w, t, mkConst(c, w));
}
static Ref rebuildLin(std::vector<Term> &ts, uint64_t k, unsigned w) {
    std::sort(ts.begin(), ts.end(), [](const Term &x, const Term &y) { return x.t < y.t; });
    uint64_t m = maskW(w);
    size_t o = 0;
    for (size_t i = 0; i < ts.size();) {
        uint64_t c = 0; size_t j = i;
        while (j < ts.size() && ts[j].t == ts[i].t) c += ts[j++].c;
        c &= m;
        if (c) { Term t{ ts[i].t, c }; ts[o++] = t; }
        i = j;
    }
    ts.resize(o);
    k &= m;
    if (ts.empty()) return mkConst(k, w);
    Ref acc = mulConstRaw(ts[0].t, ts[0].c, w);
    for (size_t i = 1; i < ts.size(); i++) acc = raw(O_ADD, w, acc, mulConstRaw(ts[i].t, ts[i].c, w));
    if (k) acc = raw(O_ADD, w, acc, mkConst(k, w));
    return simpRange(acc);
}
static Ref mkAdd(Ref a, Ref b) {
    unsigned w = N(a).w;
    if (w > 64) {
        if (isConst(a) && isConst(b)) { auto x = cbits(a), y = cbits(b); u128 cy = 0; for (size_t i = 0; i < x.size(); i++) { cy += (u128)x[i] + y[i]; x[i] = (uint64_t)cy; cy >>= 64; } return mkWide(x, w); }
        if (a > b) std::swap(a, b);
        return raw(O_ADD, w, a, b);
    }
    if (isConst(a)) std::swap(a, b);
    if (isConst(b) && constVal(b) == 0) return a;
    std::vector<Term> ts; uint64_t k = 0;
    if (collect(a, 1, ts, k, 200) && collect(b, 1, ts, k, 200)) return rebuildLin(ts, k, w);
    if (a > b && !isConst(b)) std::swap(a, b);
    return mk(O_ADD, w, a, b);
}
static Ref mkMul(Ref a, Ref b) {
    unsigned w = N(a).w;
    if (isConst(a)) std::swap(a, b);
    if (w > 64) {
        if (isConst(a) && isConst(b) && w <= 128) { auto x = cbits(a), y = cbits(b); u128 p = (((u128)x[1] << 64) | x[0]) * (((u128)y[1] << 64) | y[0]); return mkWide({ (uint64_t)p, (uint64_t)(p >> 64) }, w); }
        if (!isConst(b) && a > b) std::swap(a, b);
        return raw(O_MUL, w, a, b);
    }
    if (isConst(b)) {
        uint64_t c = constVal(b);
        if (c == 0) return b;
        if (c == 1) return a;
        std::vector<Term> ts; uint64_t k = 0;
        if (collect(a, c, ts, k, 100)) return rebuildLin(ts, k, w);
        return mk(O_MUL, w, a, b);
    }
    if (a > b) std::swap(a, b);
    // pull constant factors out: (x*c)*y -> (x*y)*c
    if (N(a).op == O_MUL && isConst(N(a).b)) return mkMul(mkMul(N(a).a, b), N(a).b);
    if (N(b).op == O_MUL && isConst(N(b).b)) return mkMul(mkMul(a, N(b).a), N(b).b);
    return mk(O_MUL, w, a, b);
}
Ref mkNeg(Ref a) {
    unsigned w = N(a).w;
    if (w > 64) { std::vector<uint64_t> v((w + 63) / 64, ~0ull); return mkMul(a, mkWide(v, w)); }
    return mkMul(a, mkConst(maskW(w), w));
}
Ref mkSub(Ref a, Ref b) { if (a == b) return mkConst(0, N(a).w); return mkAdd(a, mkNeg(b)); }
Ref mkNot(Ref a) {
    unsigned w = N(a).w;
    if (w > 64) { std::vector<uint64_t> v((w + 63) / 64, ~0ull); return mkBin(O_XOR, a, mkWide(v, w)); }
    return mkBin(O_XOR, a, mkConst(maskW(w), w));
}
static inline int bitlen(uint64_t x) { return x ? 64 - __builtin_clzll(x) : 0; }
static inline int sbitlen(int64_t lo, int64_t hi) { // signed bits needed
    int a = bitlen((uint64_t)(lo < 0 ? ~lo : lo)) + 1, b = bitlen((uint64_t)(hi < 0 ? ~hi : hi)) + 1; return std::max(a, b);
}

static unsigned powerOfTwo(uint64_t c, unsigned w) { return w <= 64 && c > 1 && !(c & (c - 1)) && c < 1ull << (w - 1) ? (unsigned)__builtin_ctzll(c) : 0; }
Ref mkBin(Op op, Ref a, Ref b) {
    unsigned w = N(a).w;
    if (w != N(b).w) { fprintf(stderr, "mkBin width mismatch op %d %u %u\n", op, w, N(b).w); abort(); }
    if (w <= 64 && isConst(a) && isConst(b)) { bool ok = true; uint64_t r = foldOp(op, w, w, constVal(a), constVal(b), 0, 0, ok); if (ok) return mkConst(r, (op == O_EQ || op == O_ULT || op == O_SLT) ? 1 : w); }
    switch (op) {
    case O_ADD: return mkAdd(a, b);
    case O_MUL: return mkMul(a, b);
    case O_EQ: return mkEq(a, b);
    case O_ULT: return mkUlt(a, b);
    case O_SLT: return mkSlt(a, b);
    case O_AND: case O_OR: case O_XOR: {
        if (isConst(a)) std::swap(a, b);
        if (w > 64) {
            if (isConst(a) && isConst(b)) { auto x = cbits(a), y = cbits(b); for (size_t i = 0; i < x.size(); i++) x[i] = op == O_AND ? x[i] & y[i] : op == O_OR ? x[i] | y[i] : x[i] ^ y[i]; return mkWide(x, w); }
            if (isConst(b)) { auto y = cbits(b); bool z = true; for (auto v : y) z &= v == 0; if (z) return op == O_AND ? b : a; }
            if (op == O_OR && !isConst(b)) { // disjoint halves produced by i128 assembly: (zext x) | (zext y << k)
                if (N(a).op == O_CONCAT || N(b).op == O_CONCAT || N(a).op == O_ZEXT || N(b).op == O_ZEXT) {
                    // split at 64-bit boundaries
                    Ref r = 0;
                    for (unsigned lo = 0; lo < w; lo += 64) { unsigned cw = std::min(64u, w - lo); Ref p = mkBin(O_OR, mkExtract(a, lo, cw), mkExtract(b, lo, cw)); r = r ? mkConcat(p, r) : p; }
                    return r;
                }
            }
            if (a > b && !isConst(b)) std::swap(a, b);
            return raw(op, w, a, b);
        }
        uint64_t m = maskW(w);
        if (a == b) return op == O_XOR ? mkConst(0, w) : a;
        if (isConst(b)) {
            uint64_t c = constVal(b);
            Node &x = N(a);
            if (op == O_AND) {
                if (c == 0) return b;
                if (c == m) return a;
                if (x.op == O_AND && isConst(x.b)) return mkBin(O_AND, x.a, mkConst(c & constVal(x.b), w));
                int bl = bitlen(c);
                if (c == maskW(bl)) { if (x.umax <= c) return a; return mkZExt(mkExtract(a, 0, bl), w); }
                if (bl < (int)w) return mkZExt(mkBin(O_AND, mkExtract(a, 0, bl), mkConst(c, bl)), w);
                int tz = __builtin_ctzll(c);
                if (tz && (c >> tz) == maskW(bl - tz)) return mkConcat(mkExtract(a, tz, bl - tz), mkConst(0, tz)); // bl == w here
                if (x.op == O_ITE && (isConst(x.b) || isConst(x.c))) return mkIte(x.a, mkBin(O_AND, x.b, b), mkBin(O_AND, x.c, b));
            } else if (op == O_OR) {
                if (c == 0) return a;
                if (c == m) return b;
                if (x.op == O_OR && isConst(x.b)) return mkBin(O_OR, x.a, mkConst(c | constVal(x.b), w));
                if (x.op == O_ITE && isConst(x.b) && isConst(x.c)) return mkIte(x.a, mkBin(O_OR, x.b, b), mkBin(O_OR, x.c, b));
            } else {
                if (c == 0) return a;
                if (x.op == O_XOR && isConst(x.b)) return mkBin(O_XOR, x.a, mkConst(c ^ constVal(x.b), w));
                if (x.op == O_ITE && isConst(x.b) && isConst(x.c)) return mkIte(x.a, mkBin(O_XOR, x.b, b), mkBin(O_XOR, x.c, b));
                if (w == 1 && x.op == O_ITE) return mkIte(x.a, mkNot(x.b), mkNot(x.c));
                if (c == m && w > 1) return mkAdd(mkNeg(a), mkConst(m, w)); // ~x = -x-1
            }
        } else {
            if (w == 1) {
                // boolean simplifications
                auto isNotOf = [&](Ref p, Ref q) { return N(p).op == O_XOR && N(p).a == q && isConst(N(p).b); };
                if (isNotOf(a, b) || isNotOf(b, a)) return op == O_AND ? mkFalse() : mkTrue();
                if (op == O_XOR) { if (N(a).op == O_XOR && isConst(N(a).b)) return mkNot(mkBin(O_XOR, N(a).a, b)); if (N(b).op == O_XOR && isConst(N(b).b)) return mkNot(mkBin(O_XOR, a, N(b).a)); }
            }
            if (op == O_OR || op == O_XOR) {
                // disjoint bit ranges: turn byte assembly into concat
                for (int t = 0; t < 2; t++) {
                    Ref hi = t ? b : a, lo = t ? a : b;
                    if (N(lo).umax < m && N(lo).op != O_CONST) {
                        int bl = bitlen(N(lo).umax);
                        // hi must have its low bl bits zero
                        Ref h = hi;
                        unsigned tz = 0;
                        if (N(h).op == O_CONCAT && isConst64(N(h).b) && constVal(N(h).b) == 0) tz = N(N(h).b).w;
                        else if (N(h).op == O_ZEXT && N(N(h).a).op == O_CONCAT && isConst64(N(N(h).a).b) && constVal(N(N(h).a).b) == 0) tz = N(N(N(h).a).b).w;
                        if ((int)tz >= bl && tz > 0) return mkConcat(mkExtract(hi, tz, w - tz), mkExtract(lo, 0, tz));
                    }
                }
            }
        }
        if (a > b && !isConst(b)) std::swap(a, b);
        return mk(op, w, a, b);
    }
    case O_SHL:
        if (isConst(b)) {
            uint64_t s = w > 64 ? cbits(b)[0] : constVal(b);
            if (s == 0) return a;
            if (s >= w) return mkConst(0, w);
            if (w > 64) return mkConcat(mkExtract(a, 0, w - (unsigned)s), mkConst(0, (unsigned)s));
            // arithmetic context: keep linear if it is a sum, otherwise a concat
            Node &x = N(a);
            if (x.op == O_ADD || x.op == O_MUL || (x.op == O_ITE && (isConst(x.b) || isConst(x.c)))) {
                if (x.op == O_ITE) return mkIte(x.a, mkBin(O_SHL, x.b, b), mkBin(O_SHL, x.c, b));
                return mkMul(a, mkConst(1ull << s, w));
            }
            return mkMul(a, mkConst(1ull << s, w));
        }
        if (isConst(a) && w <= 64 && constVal(a) == 0) return a;
        return mk(O_SHL, w, a, b);
    case O_LSHR:
        if (isConst(b)) {
            uint64_t s = w > 64 ? cbits(b)[0] : constVal(b);
            if (s == 0) return a;
            if (s >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w);
        }
        if (isConst(a) && w <= 64 && constVal(a) == 0) return a;
        return mk(O_LSHR, w, a, b);
    case O_ASHR:
        if (w <= 64 && N(a).smin >= 0) return mkBin(O_LSHR, a, b);
        if (isConst(b)) {
            uint64_t s = w > 64 ? cbits(b)[0] : constVal(b);
            if (s == 0) return a;
            if (s >= w) s = w - 1;
            return mkSExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w);
        }
        return mk(O_ASHR, w, a, b);
    case O_SDIV:
        if (w <= 64 && N(a).smin >= 0 && N(b).smin >= 0) return mkBin(O_UDIV, a, b);
        if (isConst64(b) && constVal(b) == 1) return a;
        if (isConst64(b)) if (unsigned s = powerOfTwo(constVal(b), w)) return mkBin(O_ASHR, mkBin(O_ADD, a, mkBin(O_AND, mkBin(O_ASHR, a, mkConst(w - 1, w)), mkConst(constVal(b) - 1, w))), mkConst(s, w));
        return mk(op, w, a, b);
    case O_SREM:
        if (w <= 64 && N(a).smin >= 0 && N(b).smin >= 0) return mkBin(O_UREM, a, b);
        if (isConst64(b) && powerOfTwo(constVal(b), w)) { Ref m = mkConst(constVal(b) - 1, w), k = mkBin(O_AND, mkBin(O_ASHR, a, mkConst(w - 1, w)), m); return mkSub(mkBin(O_AND, mkBin(O_ADD, a, k), m), k); }
        return mk(op, w, a, b);
    case O_UDIV: case O_UREM:
        if (isConst64(b)) {
            uint64_t c = constVal(b);
            if (c && (c & (c - 1)) == 0) { unsigned s = __builtin_ctzll(c); if (op == O_UDIV) return mkBin(O_LSHR, a, mkConst(s, w)); return mkBin(O_AND, a, mkConst(c - 1, w)); }
        }
        if (w <= 64) { // canonical minimal width
            int n = std::max(1, std::max(bitlen(N(a).umax), bitlen(N(b).umax)));
            if (n < (int)w) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        }
        return mk(op, w, a, b);
    default: break;
    }
    return mk(op, w, a, b);
}

Ref mkEq(Ref a, Ref b) {
    if (a == b) return mkTrue();
    unsigned w = N(a).w;
    if (isConst(a)) std::swap(a, b);
    if (isConst(a) && isConst(b)) { if (w > 64) return cbits(a) == cbits(b) ? mkTrue() : mkFalse(); return constVal(a) == constVal(b) ? mkTrue() : mkFalse(); }
    if (w > 64) {
        Ref r = mkTrue();
        for (unsigned lo = 0; lo < w; lo += 64) { unsigned cw = std::min(64u, w - lo); r = mkBin(O_AND, r, mkEq(mkExtract(a, lo, cw), mkExtract(b, lo, cw))); }
        return r;
    }
    Node &x = N(a), &y = N(b);
    if (x.umax < y.umin || y.umax < x.umin || x.smax < y.smin || y.smax < x.smin) return mkFalse();
    if (w == 1) { if (isConst(b)) return constVal(b) ? a : mkNot(a); return mkNot(mkBin(O_XOR, a, b)); }
    if (isConst(b)) {
        uint64_t c = constVal(b);
        switch (x.op) {
        case O_ZEXT: return mkEq(x.a, mkConst(c, N(x.a).w));
        case O_SEXT: { unsigned wi = N(x.a).w; uint64_t t = c & maskW(wi); if ((uint64_t)(sextW(t, wi) & maskW(w)) != c) return mkFalse(); return mkEq(x.a, mkConst(t, wi)); }
        case O_ADD: if (isConst(x.b)) return mkEq(x.a, mkConst(c - constVal(x.b), w)); break;
        case O_MUL: if (isConst(x.b)) { uint64_t k = constVal(x.b);
            if (k & 1) { uint64_t inv = k; for (int i = 0; i < 6; i++) inv *= 2 - k * inv; return mkEq(x.a, mkConst(c * inv, w)); }
            unsigned tz = __builtin_ctzll(k); if (c & maskW(tz)) return mkFalse();
            if (k == (1ull << tz)) return mkEq(mkExtract(x.a, 0, w - tz), mkConst(c >> tz, w - tz)); }
            break;
        case O_XOR: if (isConst(x.b)) return mkEq(x.a, mkConst(c ^ constVal(x.b), w)); break;
        case O_CONCAT: { unsigned wl = N(x.b).w; return mkBin(O_AND, mkEq(x.a, mkConst(c >> wl, w - wl)), mkEq(x.b, mkConst(c, wl))); }
        case O_ITE:
            if (isConst(x.b) && isConst(x.c)) return constVal(x.b) == c ? (constVal(x.c) == c ? mkTrue() : x.a) : (constVal(x.c) == c ? mkNot(x.a) : mkFalse());
            if (isConst(x.b)) return constVal(x.b) == c ? mkBin(O_OR, x.a, mkEq(x.c, b)) : mkBin(O_AND, mkNot(x.a), mkEq(x.c, b));
            if (isConst(x.c)) return constVal(x.c) == c ? mkBin(O_OR, mkNot(x.a), mkEq(x.b, b)) : mkBin(O_AND, x.a, mkEq(x.b, b));
            break;
        default: break;
        }
    } else {
        if (x.op == O_ITE && y.op == O_ITE && x.a == y.a) return mkIte(x.a, mkEq(x.b, y.b), mkEq(x.c, y.c));
        if (x.op == O_CONCAT && y.op == O_CONCAT && N(x.b).w == N(y.b).w) return mkBin(O_AND, mkEq(x.a, y.a), mkEq(x.b, y.b));
    }
    // minimal width
    int n = std::max(1, std::min(std::max(bitlen(x.umax), bitlen(y.umax)), std::max(sbitlen(x.smin, x.smax), sbitlen(y.smin, y.smax))));
    if (n < (int)w) return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n));
    if (!isConst(b)) {
        // move everything to one side in linear form when cheap
        if ((N(a).op == O_ADD || N(b).op == O_ADD || N(a).op == O_MUL || N(b).op == O_MUL)) {
            Ref d = mkSub(a, b);
            if (isConst(d)) return constVal(d) == 0 ? mkTrue() : mkFalse();
        }
        if (a > b) std::swap(a, b);
    }
    return mk(O_EQ, 1, a, b);
}
Ref mkUle(Ref a, Ref b) { return mkNot(mkUlt(b, a)); }
Ref mkSle(Ref a, Ref b) { return mkNot(mkSlt(b, a)); }
Ref mkUlt(Ref a, Ref b) {
    if (a == b) return mkFalse();
    unsigned w = N(a).w;
    if (w > 64) {
        if (isConst(a) && isConst(b)) { auto x = cbits(a), y = cbits(b); for (size_t i = x.size(); i--;) if (x[i] != y[i]) return x[i] < y[i] ? mkTrue() : mkFalse(); return mkFalse(); }
        // narrow if both high parts are zero
        Ref ha = mkExtract(a, 64, w - 64), hb = mkExtract(b, 64, w - 64), la = mkExtract(a, 0, 64), lb = mkExtract(b, 0, 64);
        return mkBin(O_OR, mkUlt(ha, hb), mkBin(O_AND, mkEq(ha, hb), mkUlt(la, lb)));
    }
    Node &x = N(a), &y = N(b);
    if (x.umax < y.umin) return mkTrue();
    if (x.umin >= y.umax) return mkFalse();
    if (w == 1) return mkBin(O_AND, mkNot(a), b);
    if (isConst(a)) { uint64_t c = constVal(a); if (c == maskW(w)) return mkFalse(); return mkNot(mkUlt(b, mkConst(c + 1, w))); }
    if (isConst(b)) {
        uint64_t c = constVal(b);
        if (c == x.umin + 1) return mkEq(a, mkConst(x.umin, w));
        if (c == x.umax) return mkNot(mkEq(a, b));
        // x+k < c without unsigned wrap
        if (x.op == O_ADD && isConst(x.b)) {
            uint64_t k = constVal(x.b); Node &p = N(x.a);
            if ((u128)p.umax + k <= maskW(w)) { if (c <= k) return mkFalse(); return mkUlt(x.a, mkConst(c - k, w)); }
        }
        if (x.op == O_ITE && isConst(x.b) && isConst(x.c)) return mkIte(x.a, mkUlt(x.b, b), mkUlt(x.c, b));
        if (x.op == O_CONCAT && isConst(N(a).a)) { // equal constant high parts
            unsigned wl = N(x.b).w; uint64_t h = constVal(x.a), ch = c >> wl; if (h < ch) return mkTrue(); if (h > ch) return mkFalse(); return mkUlt(x.b, mkConst(c, wl));
        }
    }
    if (x.op == O_ITE && y.op == O_ITE && x.a == y.a) return mkIte(x.a, mkUlt(x.b, y.b), mkUlt(x.c, y.c));
    int n = std::max(1, std::max(bitlen(x.umax), bitlen(y.umax)));
    if (n < (int)w) return mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
    return mk(O_ULT, 1, a, b);
}
Ref mkSlt(Ref a, Ref b) {
    if (a == b) return mkFalse();
    unsigned w = N(a).w;
    if (w > 64) {
        Ref sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
        return mkIte(mkBin(O_XOR, sa, sb), sa, mkUlt(a, b));
    }
    Node &x = N(a), &y = N(b);
    if (x.smax < y.smin) return mkTrue();
    if (x.smin >= y.smax) return mkFalse();
    if (w == 1) return mkBin(O_AND, a, mkNot(b));
    if (x.smin >= 0 && y.smin >= 0) return mkUlt(a, b);
    if (isConst(a)) { int64_t c = sextW(constVal(a), w); if (c == smaxW(w)) return mkFalse(); return mkNot(mkSlt(b, mkConst((uint64_t)(c + 1), w))); }
    if (isConst(b)) {
        int64_t c = sextW(constVal(b), w);
        if (x.op == O_ADD && isConst(x.b)) {
            int64_t k = sextW(constVal(x.b), w); Node &p = N(x.a);
            i128 lo = (i128)p.smin + k, hi = (i128)p.smax + k, d = (i128)c - k;
            if (lo >= sminW(w) && hi <= smaxW(w)) {
                if (d > smaxW(w)) return mkTrue();
                if (d < sminW(w)) return mkFalse();
                return mkSlt(x.a, mkConst((uint64_t)(int64_t)d, w));
            }
        }
        if (x.op == O_ITE && isConst(x.b) && isConst(x.c)) return mkIte(x.a, mkSlt(x.b, b), mkSlt(x.c, b));
    }
    if (x.op == O_ITE && y.op == O_ITE && x.a == y.a) return mkIte(x.a, mkSlt(x.b, y.b), mkSlt(x.c, y.c));
    int n = std::max(1, std::max(sbitlen(x.smin, x.smax), sbitlen(y.smin, y.smax)));
    if (n < (int)w) return mkSlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
    return mk(O_SLT, 1, a, b);
}
Ref mkIte(Ref c, Ref a, Ref b) {
    if (isConst(c)) return constVal(c) ? a : b;
    if (a == b) return a;
    unsigned w = N(a).w;
    if (w != N(b).w) { fprintf(stderr, "mkIte width mismatch %u %u\n", w, N(b).w); abort(); }
    Node &cn = N(c);
    if (cn.op == O_XOR && isConst(cn.b)) return mkIte(cn.a, b, a);
    if (w == 1) {
        if (isConst(a)) return constVal(a) ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
        if (isConst(b)) return constVal(b) ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
        if (a == c) return mkBin(O_OR, c, b);
        if (b == c) return mkBin(O_AND, c, a);
    }
    if (N(a).op == O_ITE && N(a).a == c) return mkIte(c, N(a).b, b);
    if (N(b).op == O_ITE && N(b).a == c) return mkIte(c, a, N(b).c);
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (N(b).op == O_ITE && N(b).b == a) return mkIte(mkBin(O_OR, c, N(b).a), a, N(b).c);
    if (N(a).op == O_ITE && N(a).c == b) return mkIte(mkBin(O_AND, c, N(a).a), N(a).b, b);
    // common wrappers
    if (N(a).op == O_ZEXT && N(b).op == O_ZEXT && N(N(a).a).w == N(N(b).a).w) {
        // keep zext outside only for non-arithmetic leaves; pushing is done by mkZExt so avoid looping
    }
    return mk(O_ITE, w, c, a, b);
}
Ref mkConcat(Ref hi, Ref lo) {
    unsigned wh = N(hi).w, wl = N(lo).w, w = wh + wl;
    if (isConst(hi) && isConst(lo)) {
        if (w <= 64) return mkConst((constVal(hi) << wl) | constVal(lo), w);
        auto h = cbits(hi), l = cbits(lo);
        std::vector<uint64_t> r((w + 63) / 64, 0);
        l.resize(r.size() + 1); for (size_t i = 0; i < r.size(); i++) r[i] = l[i];
        for (size_t i = 0; i < h.size(); i++) { unsigned pos = wl + 64 * (unsigned)i; size_t q = pos / 64; unsigned s = pos % 64; if (q < r.size()) r[q] |= h[i] << s; if (s && q + 1 < r.size()) r[q + 1] |= h[i] >> (64 - s); }
        return mkWide(r, w);
    }
    bool hz = false;
    if (isConst(hi)) { auto h = cbits(hi); hz = true; for (auto v : h) hz &= v == 0; }
    if (hz) return mkZExt(lo, w);
    Node &H = N(hi), &L = N(lo);
    if (H.op == O_EXTRACT && L.op == O_EXTRACT && H.a == L.a && H.k == L.k + wl) return mkExtract(H.a, (unsigned)L.k, w);
    // concat(zext(x), lo) -> zext(concat(x, lo))
    if (H.op == O_ZEXT) return mkZExt(mkConcat(H.a, lo), w);
    // the low half is a full value and the high half an extract of the same source's zext/sext: leave
    if (L.op == O_CONCAT) { Node &M = N(L.a); if (H.op == O_EXTRACT && M.op == O_EXTRACT && H.a == M.a && H.k == M.k + M.w) return mkConcat(mkExtract(H.a, (unsigned)M.k, H.w + M.w), L.b); }
    // sign extension assembled from pieces
    // right-assoc canonical form: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (H.op == O_CONCAT) return mkConcat(H.a, mkConcat(H.b, lo));
    return mk(O_CONCAT, w, hi, lo);
}
static std::unordered_map<uint64_t, Ref> g_extMemo[3]; // extract / zext / sext
static inline uint64_t mkey(Ref a, unsigned lo, unsigned w) { return ((uint64_t)a << 32) | ((uint64_t)lo << 16) | w; }

static Ref doExtract(Ref a, unsigned lo, unsigned w) {
    Node &x = N(a);
    if (isConst(a)) {
        auto v = cbits(a);
        v.resize((x.w + 63) / 64 + 1, 0);
        std::vector<uint64_t> r((w + 63) / 64, 0);
        for (size_t i = 0; i < r.size(); i++) { unsigned p = lo + 64 * (unsigned)i; size_t q = p / 64; unsigned s = p % 64; r[i] = (q < v.size() ? v[q] >> s : 0) | (s && q + 1 < v.size() ? v[q + 1] << (64 - s) : 0); }
        return mkWide(r, w);
    }
    switch (x.op) {
    case O_EXTRACT: return mkExtract(x.a, lo + (unsigned)x.k, w);
    case O_CONCAT: {
        unsigned wl = N(x.b).w;
        if (lo + w <= wl) return mkExtract(x.b, lo, w);
        if (lo >= wl) return mkExtract(x.a, lo - wl, w);
        return mkConcat(mkExtract(x.a, 0, lo + w - wl), mkExtract(x.b, lo, wl - lo)); }
    case O_ZEXT: {
        unsigned wi = N(x.a).w;
        if (lo >= wi) return mkConst(0, w);
        if (lo + w <= wi) return mkExtract(x.a, lo, w);
        return mkZExt(mkExtract(x.a, lo, wi - lo), w); }
    case O_SEXT: {
        unsigned wi = N(x.a).w;
        if (lo + w <= wi) return mkExtract(x.a, lo, w);
        if (lo < wi) return mkSExt(mkExtract(x.a, lo, wi - lo), w);
        return mkSExt(mkExtract(x.a, wi - 1, 1), w); }
    case O_ITE:
        if (x.size <= 64 || isConst(x.b) || isConst(x.c)) return mkIte(x.a, mkExtract(x.b, lo, w), mkExtract(x.c, lo, w));
        break;
    case O_AND: case O_OR: case O_XOR:
        return mkBin((Op)x.op, mkExtract(x.a, lo, w), mkExtract(x.b, lo, w));
    case O_ADD: case O_MUL:
        if (lo == 0) {
            if (x.op == O_ADD) {
                // truncate every term, then rebuild
                std::vector<Ref> ts; std::vector<Ref> st{ a };
                while (!st.empty()) { Ref r = st.back(); st.pop_back(); if (N(r).op == O_ADD) { st.push_back(N(r).a); st.push_back(N(r).b); } else ts.push_back(r); }
                std::vector<Term> lin; uint64_t k = 0; bool ok = w <= 64;
                if (ok) for (Ref t : ts) if (!collect(mkExtract(t, 0, w), 1, lin, k, 400)) { ok = false; break; }
                if (ok) return rebuildLin(lin, k, w);
                return raw(O_ADD, w, mkExtract(x.a, 0, w), mkExtract(x.b, 0, w));
            }
            return mkMul(mkExtract(x.a, 0, w), mkExtract(x.b, 0, w));
        }
        if (lo > 0 && x.op == O_MUL && x.w <= 64 && isConst64(x.b)) {
            uint64_t c = constVal(x.b); unsigned tz = c ? __builtin_ctzll(c) : 0;
            if (tz && lo >= tz) return mkExtract(mkMul(mkExtract(x.a, 0, x.w - tz), mkConst(c >> tz, x.w - tz)), lo - tz, w);
        }
        break;
    default: break;
    }
    if (lo > 0 && lo + w < x.w) {
        Ref t = mkExtract(a, 0, lo + w);
        if (N(t).op != O_EXTRACT) return mkExtract(t, lo, w);
        return mk(O_EXTRACT, w, N(t).a, 0, 0, lo + N(t).k);
    }
    if (x.w <= 64 && lo > 0) {
        int bl = bitlen(x.umax);
        if (bl <= (int)lo) return mkConst(0, w);
        if (bl < (int)(lo + w)) return mkZExt(mkExtract(a, lo, bl - lo), w);
    }
    return mk(O_EXTRACT, w, a, 0, 0, lo);
}
Ref mkExtract(Ref a, unsigned lo, unsigned w) {
    if (lo == 0 && w == N(a).w) return a;
    if (lo + w > N(a).w) { fprintf(stderr, "mkExtract range %u+%u > %u\n", lo, w, (unsigned)N(a).w); abort(); }
    if (isConst(a) && N(a).w <= 64) return mkConst(constVal(a) >> lo, w);
    uint64_t key = mkey(a, lo, w);
    auto it = g_extMemo[0].find(key);
    if (it != g_extMemo[0].end()) return it->second;
    Ref r = doExtract(a, lo, w);
    g_extMemo[0][key] = r;
    return r;
}
static Ref doZExt(Ref a, unsigned w) {
    Node &x = N(a);
    unsigned wi = x.w;
    if (isConst(a)) return mkWide(cbits(a), w);
    switch (x.op) {
    case O_ZEXT: return mkZExt(x.a, w);
    case O_ITE:
        if (w <= 64 && wi > 1 && (x.size <= 64 || isConst(x.b) || isConst(x.c))) return mkIte(x.a, mkZExt(x.b, w), mkZExt(x.c, w));
        break;
    case O_ADD:
        if (w <= 64) {
            // push inwards if no unsigned wrap over the whole linear sum
            std::vector<Term> ts; uint64_t k = 0;
            if (!collect(a, 1, ts, k, 200)) break;
            u128 hi = 0; bool ok = true;
            uint64_t m = maskW(wi);
            // all-nonnegative interpretation
            for (auto &t : ts) { hi += (u128)N(t.t).umax * (t.c & m); if (hi > m) { ok = false; break; } }
            if (ok && hi + (k & m) <= m) {
                std::vector<Term> t2; uint64_t k2 = k & m;
                for (auto &t : ts) collect(mkZExt(t.t, w), t.c & m, t2, k2, 1000);
                return rebuildLin(t2, k2, w);
            }
            // signed coefficients, mathematically within [0, 2^wi): value equals the wide signed sum
            i128 lo = 0, h2 = 0;
            for (auto &t : ts) { int64_t c = sextW(t.c & m, wi); i128 p = (i128)c * (i128)N(t.t).umin, q = (i128)c * (i128)N(t.t).umax; lo += std::min(p, q); h2 += std::max(p, q); }
            int64_t kk = sextW(k & m, wi); lo += kk; h2 += kk;
            if (lo >= 0 && h2 <= (i128)m) {
                std::vector<Term> t2; uint64_t k2 = (uint64_t)kk;
                for (auto &t : ts) collect(mkZExt(t.t, w), (uint64_t)sextW(t.c & m, wi), t2, k2, 1000);
                return rebuildLin(t2, k2, w);
            }
        }
        break;
    case O_MUL:
        if (w <= 64 && (u128)N(x.a).umax * N(x.b).umax <= maskW(wi)) return mkMul(mkZExt(x.a, w), mkZExt(x.b, w));
        break;
    default: break;
    }
    return mk(O_ZEXT, w, a);
}
Ref mkZExt(Ref a, unsigned w) {
    if (w == N(a).w) return a;
    if (w < N(a).w) { fprintf(stderr, "mkZExt shrink\n"); abort(); }
    uint64_t key = mkey(a, 0, w);
    auto it = g_extMemo[1].find(key);
    if (it != g_extMemo[1].end()) return it->second;
    Ref r = doZExt(a, w);
    g_extMemo[1][key] = r;
    return r;
}
static Ref doSExt(Ref a, unsigned w) {
    Node &x = N(a);
    unsigned wi = x.w;
    if (isConst(a)) {
        auto v = cbits(a);
        bool neg = (v[(wi - 1) / 64] >> ((wi - 1) % 64)) & 1;
        if (neg && wi % 64) v[(wi - 1) / 64] |= ~maskW(wi % 64);
        v.resize((w + 63) / 64, neg ? ~0ull : 0);
        return mkWide(v, w);
    }
    if (wi <= 64 && x.smin >= 0) return mkZExt(a, w);
    switch (x.op) {
    case O_SEXT: return mkSExt(x.a, w);
    case O_ITE:
        if (w <= 64 && wi > 1 && (x.size <= 64 || isConst(x.b) || isConst(x.c))) return mkIte(x.a, mkSExt(x.b, w), mkSExt(x.c, w));
        break;
    case O_ADD:
        if (w <= 64) {
            std::vector<Term> ts; uint64_t k = 0;
            if (!collect(a, 1, ts, k, 200)) break;
            uint64_t m = maskW(wi);
            i128 lo = 0, hi = 0; bool ok = true;
            for (auto &t : ts) { int64_t c = sextW(t.c & m, wi); i128 p = (i128)c * N(t.t).smin, q = (i128)c * N(t.t).smax; lo += std::min(p, q); hi += std::max(p, q); }
            int64_t kk = sextW(k & m, wi); lo += kk; hi += kk;
            if (lo < sminW(wi) || hi > smaxW(wi)) ok = false;
            if (ok) {
                std::vector<Term> t2; uint64_t k2 = (uint64_t)kk;
                for (auto &t : ts) collect(mkSExt(t.t, w), (uint64_t)sextW(t.c & m, wi), t2, k2, 1000);
                return rebuildLin(t2, k2, w);
            }
        }
        break;
    case O_MUL:
        if (w <= 64) {
            Node &p = N(x.a), &q = N(x.b);
            i128 v[4] = { (i128)p.smin * q.smin, (i128)p.smin * q.smax, (i128)p.smax * q.smin, (i128)p.smax * q.smax };
            if (*std::min_element(v, v + 4) >= sminW(wi) && *std::max_element(v, v + 4) <= smaxW(wi)) return mkMul(mkSExt(x.a, w), mkSExt(x.b, w));
        }
        break;
    default: break;
    }
    return mk(O_SEXT, w, a);
}
Ref mkSExt(Ref a, unsigned w) {
    if (w == N(a).w) return a;
    uint64_t key = mkey(a, 0, w);
    auto it = g_extMemo[2].find(key);
    if (it != g_extMemo[2].end()) return it->second;
    Ref r = doSExt(a, w);
    g_extMemo[2][key] = r;
    return r;
}
Ref mkF(Op op, unsigned w, Ref a, Ref b, Ref c, uint64_t k) {
    if ((!a || isConst64(a)) && (!b || isConst64(b)) && (!c || isConst64(c)) && w <= 64) {
        bool ok = true;
        uint64_t r = foldOp(op, w, a ? N(a).w : w, a ? constVal(a) : 0, b ? constVal(b) : 0, c ? constVal(c) : 0, k, ok);
        if (ok) return mkConst(r, w);
    }
    if ((op == O_FADD || op == O_FMUL || op == O_FEQ || op == O_FUNO) && a > b) std::swap(a, b);
    if (op == O_FMA && a > b) std::swap(a, b);
    // x*1.0, exact conversions
    if (op == O_FMUL) { if (isConst64(a)) std::swap(a, b); uint64_t one = w == 32 ? 0x3f800000 : 0x3ff0000000000000ull; if (isConst64(b) && constVal(b) == one) return a; if (a > b) std::swap(a, b); }
    if (op == O_FUNO && a == b && (N(a).op == O_SITOFP || N(a).op == O_UITOFP)) return mkFalse();
    if (op == O_FPTRUNC && N(a).op == O_FPEXT && N(N(a).a).w == w) return N(a).a;
    if ((op == O_SITOFP) && N(a).smin >= 0) return mkF(O_UITOFP, w, a);
    if (op == O_UITOFP) { // canonical source width
        int bl = std::max(1, bitlen(N(a).umax)); if (bl < N(a).w) return mkF(O_UITOFP, w, mkExtract(a, 0, bl)); }
    if (op == O_SITOFP) { int bl = sbitlen(N(a).smin, N(a).smax); if (bl < N(a).w) return mkF(O_SITOFP, w, mkExtract(a, 0, bl)); }
    return raw(op, w, a, b, c, k);
}

// evaluation --------------------------------------------------------------------------------
static uint32_t g_evgen = 1;
static uint64_t evalRec(Ref r, Model &m, bool &ok) {
    Node &n = N(r);
    if (n.op == O_CONST) { if (n.w > 64) { ok = false; return 0; } return n.k; }
    if (n.evgen == m.gen) return n.ev;
    uint64_t v = 0;
    if (n.op == O_SYM) v = m.get((uint32_t)n.k) & maskW(n.w);
    else if (n.op == O_ITE) { uint64_t c = evalRec(n.a, m, ok); v = evalRec(c ? n.b : n.c, m, ok); }
    else if (n.op == O_EXTRACT && N(n.a).w > 64) {
        // wide source: only concat/zext trees
        Ref s = n.a; unsigned lo = (unsigned)n.k; (void)lo;
        Node &sn = N(s);
        if (sn.op == O_CONCAT || sn.op == O_ZEXT || sn.op == O_SEXT) { ok = false; }
        else ok = false;
    } else if (n.w > 64) { ok = false; return 0; }
    else if (n.op == O_CONCAT) v = (evalRec(n.a, m, ok) << N(n.b).w) | evalRec(n.b, m, ok);
    else {
        uint64_t a = n.a ? evalRec(n.a, m, ok) : 0, b = n.b ? evalRec(n.b, m, ok) : 0, c = n.c ? evalRec(n.c, m, ok) : 0;
        v = foldOp((Op)n.op, n.w, n.a ? N(n.a).w : n.w, a, b, c, n.k, ok);
    }
    if (ok) { n.ev = v; n.evgen = m.gen; }
    return v;
}
uint64_t evalExpr(Ref r, Model &m, bool &ok) {
    if (!m.gen) m.gen = ++g_evgen;
    return evalRec(r, m, ok);
}
static const char *opn[] = { "?", "const", "sym", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "concat", "extract", "zext", "sext",
    "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma", "feq", "flt", "fle", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "frint", "ffloor", "fceil", "ftrunc", "fround", "cvtps2dq", "f16tof32", "f32tof16", "uf" };
std::string exprStr(Ref r, int depth) {
    if (!r) return "_";
    Node &n = N(r);
    if (n.op == O_CONST) { if (n.w > 64) return "wide"; return std::to_string(n.k) + ":" + std::to_string(n.w); }
    if (n.op == O_SYM) return g_syms[n.k].name;
    if (depth == 0) return "..";
    std::string s = std::string("(") + opn[n.op] + ":" + std::to_string(n.w);
    if (n.op == O_EXTRACT) s += "@" + std::to_string(n.k);
    if (n.op == O_UF) s += "@" + g_ufs[n.k];
    for (Ref k : { n.a, n.b, n.c }) if (k) s += " " + exprStr(k, depth - 1);
    return s + ")";
}

// ---- substitution ---------------------------------------------------------------------------
static Ref rebuild(Ref r, Ref a, Ref b, Ref c) {
    Node &n = N(r);
    switch (n.op) {
    case O_ADD: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: return mkBin((Op)n.op, a, b);
    case O_EQ: return mkEq(a, b);
    case O_ULT: return mkUlt(a, b);
    case O_SLT: return mkSlt(a, b);
    case O_ITE: return mkIte(a, b, c);
    case O_CONCAT: return mkConcat(a, b);
    case O_EXTRACT: return mkExtract(a, (unsigned)n.k, n.w);
    case O_ZEXT: return mkZExt(a, n.w);
    case O_SEXT: return mkSExt(a, n.w);
    default: return mkF((Op)n.op, n.w, a, b, c, n.k);
    }
}
struct Subst {
    const std::vector<std::pair<uint32_t, uint64_t>> &fx; std::unordered_map<Ref, Ref> memo;
    bool touches(uint32_t ss) { auto &v = symSet(ss); for (auto &f : fx) if (std::binary_search(v.begin(), v.end(), f.first)) return true; return false; }
    Ref go(Ref r) {
        if (!r) return 0;
        if (!touches(N(r).symset)) return r;
        auto it = memo.find(r); if (it != memo.end()) return it->second;
        Ref x;
        if (N(r).op == O_SYM) { x = r; for (auto &f : fx) if (f.first == N(r).k) x = mkConst(f.second, N(r).w); }
        else { Ref ka = N(r).a, kb = N(r).b, kc = N(r).c; Ref a = go(ka), b = go(kb), c = go(kc); x = rebuild(r, a, b, c); }
        return memo[r] = x;
    }
};
Ref substSyms(Ref r, const std::vector<std::pair<uint32_t, uint64_t>> &fixed) { if (fixed.empty()) return r; Subst s{ fixed, {} }; return s.go(r); }
