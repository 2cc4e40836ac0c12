#include "vm.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <sys/resource.h>

VM *g_vm;
std::string demangle(const std::string &s) { int st; char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); if (!d) return s; std::string r(d); free(d); return r; }
std::string jsonEsc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o;
}
// ---- state -------------------------------------------------------------------------------------
static void unref(MemObj *o) { if (--o->rc == 0) { free(o->data); free(o->sym); delete o; } }
State::State(const State &o) = default;
State::~State() { for (Chunk *c : chunks) if (c && --c->rc == 0) { for (MemObj *m : c->o) if (m) unref(m); delete c; } }
static Chunk *ownChunk(State &s, uint32_t c) {
    if (c >= s.chunks.size()) s.chunks.resize(c + 1);
    Chunk *&p = s.chunks[c];
    if (!p) { p = new Chunk; memset(p, 0, sizeof *p); p->rc = 1; }
    else if (p->rc > 1) { Chunk *n = new Chunk(*p); n->rc = 1; for (MemObj *m : n->o) if (m) m->rc++; p->rc--; p = n; }
    return p;
}
void State::setObj(uint32_t id, MemObj *o) { Chunk *c = ownChunk(*this, id / CHUNK); MemObj *&p = c->o[id % CHUNK]; if (p) unref(p); p = o; }
MemObj *State::writable(uint32_t id) {
    Chunk *c = ownChunk(*this, id / CHUNK); MemObj *&p = c->o[id % CHUNK];
    if (p->rc > 1) {
        MemObj *n = new MemObj(*p); n->rc = 1;
        if (p->data) { n->data = (uint8_t *)malloc(p->cap ? p->cap : 1); memcpy(n->data, p->data, p->cap); }
        if (p->sym) { n->sym = (uint32_t *)malloc((p->cap ? p->cap : 1) * 4); memcpy(n->sym, p->sym, p->cap * 4); }
        p->rc--; p = n;
    }
    return p;
}
State *VM::clone(State &s) {
    State *n = new State(s);
    for (Chunk *c : n->chunks) if (c) c->rc++;
    for (auto &m : n->merge) m.g->live++;
    static int ids = 0; n->id = ++ids;
    forks++; n->forks++; s.forks++;
    return n;
}
void VM::leaveGroup(Group *g) { if (--g->live == 0) finalizeGroup(g); }
void VM::terminate(State &s) {
    s.dead = true;
    if (&s == cur) alive = false;
    auto m = std::move(s.merge); s.merge.clear();
    while (!m.empty()) { Group *g = m.back().g; m.pop_back(); leaveGroup(g); }
}
void VM::kill(State &s, const std::string &why, bool inc) { if (inc) incomplete.insert(why); notes[why]++; pathsKilled++; if (opt.verbose) fprintf(stderr, "[vsx] path killed: %s\n%s", why.c_str(), stackTrace(s).c_str()); terminate(s); }

// ---- memory ------------------------------------------------------------------------------------
uint64_t VM::alloc(State &s, uint64_t size, uint8_t kind, bool zero, const char *tag, Ref symSize) {
    uint32_t id;
    if (kind == OK_STACK && !s.freeStackIds.empty()) { id = s.freeStackIds.back(); s.freeStackIds.pop_back(); }
    else id = s.nextId++;
    MemObj *o = new MemObj; o->rc = 1; o->id = id; o->size = size; o->symSize = symSize; o->kind = kind; o->freed = false; o->ro = false; o->tag = tag;
    o->cap = symSize ? 0 : std::min<uint64_t>(size, 1 << 20);
    o->data = (uint8_t *)calloc(o->cap ? o->cap : 1, 1); o->sym = nullptr;
    if (!zero) { o->sym = (uint32_t *)malloc((o->cap ? o->cap : 1) * 4); for (uint64_t i = 0; i < o->cap; i++) o->sym[i] = SYM_UNINIT; if (symSize || size > o->cap) o->tag = tag; }
    s.setObj(id, o);
    return (uint64_t)id << 32;
}
void VM::ensureCap(MemObj *o, uint64_t upto) {
    if (upto <= o->cap) return;
    uint64_t nc = std::max<uint64_t>(upto, std::min<uint64_t>(o->cap * 2, o->size));
    if (o->symSize) nc = std::max<uint64_t>(upto, o->cap * 2);
    o->data = (uint8_t *)realloc(o->data, nc); memset(o->data + o->cap, 0, nc - o->cap);
    if (o->sym) { o->sym = (uint32_t *)realloc(o->sym, nc * 4); for (uint64_t i = o->cap; i < nc; i++) o->sym[i] = SYM_UNINIT; }
    o->cap = nc;
}
void VM::ensureSym(MemObj *o) { if (!o->sym) o->sym = (uint32_t *)calloc(o->cap ? o->cap : 1, 4); }
static const char *kindName(int k) { static const char *n[] = { "global", "function", "stack", "malloc", "new", "new[]", "mmap", "exception", "runtime" }; return n[k]; }
bool VM::freeObj(State &s, uint64_t addr, uint8_t kind, const char *what) {
    if (!addr) return true;
    MemObj *o = s.obj((uint32_t)(addr >> 32));
    if (!o || (addr & 0xffffffff)) { report(s, "invalid-free", std::string(what) + " of an address that is not the start of an allocation"); return false; }
    if (o->freed) { report(s, "double-free", std::string(what) + " of memory already released"); return false; }
    if (o->kind != kind) { report(s, "mismatched-free", std::string(what) + " of " + kindName(o->kind) + " memory"); return false; }
    MemObj *n = new MemObj(*o); n->rc = 1; n->data = (uint8_t *)calloc(1, 1); n->sym = nullptr; n->cap = 0; n->freed = true;
    s.setObj((uint32_t)(addr >> 32), n);
    return true;
}
Val VM::loadObj(State &s, MemObj *o, uint64_t off, unsigned bytes) {
    if (off + bytes > o->cap) { if (!o->sym) { ensureCap(s.writable(o->id), off + bytes); o = s.obj(o->id); } else { o = s.writable(o->id); ensureCap(o, off + bytes); } }
    bool anysym = false;
    if (o->sym) for (unsigned i = 0; i < bytes; i++) if (o->sym[off + i]) { anysym = true; break; }
    if (!anysym) {
        if (bytes <= 8) { uint64_t v = 0; memcpy(&v, o->data + off, bytes); return CV(v); }
        std::vector<uint64_t> v((bytes + 7) / 8, 0); memcpy(v.data(), o->data + off, bytes); return Val{ 0, mkWide(v, bytes * 8) };
    }
    bool uninit = false;
    for (unsigned i = 0; i < bytes; i++) if (o->sym[off + i] == SYM_UNINIT) { uninit = true; break; }
    if (uninit) {
        o = s.writable(o->id); uninitReads++;
        for (unsigned i = 0; i < bytes; i++) if (o->sym[off + i] == SYM_UNINIT) {
            // group consecutive uninitialised bytes of this access into one symbol when it covers the whole access
            unsigned j = i; while (j < bytes && o->sym[off + j] == SYM_UNINIT && j - i < 8) j++;
            unsigned len = j - i; if (len == 3) len = 2; else if (len > 4 && len < 8) len = 4;
            Ref e = mkSym("uninit" + std::to_string(g_syms.size()), len * 8);
            for (unsigned q = 0; q < len; q++) o->sym[off + i + q] = (e << 3) | q;
            i += len - 1;
        }
    }
    uint32_t s0 = o->sym[off];
    if (s0 && (s0 & 7) == 0 && bytes <= 8) {
        Ref e = s0 >> 3; bool all = N(e).w == bytes * 8;
        for (unsigned i = 1; all && i < bytes; i++) if (o->sym[off + i] != s0 + i) all = false;
        if (all) return Val{ 0, e };
    }
    Ref acc = 0;
    for (unsigned i = 0; i < bytes;) {
        uint32_t x = o->sym[off + i]; Ref p; unsigned len = 1;
        if (!x) { while (i + len < bytes && !o->sym[off + i + len] && len < 8) len++; uint64_t v = 0; memcpy(&v, o->data + off + i, len); p = mkConst(v, len * 8); }
        else { Ref e = x >> 3; unsigned ix = x & 7; while (i + len < bytes && o->sym[off + i + len] == x + len && ix + len < 8) len++; p = mkExtract(e, ix * 8, len * 8); }
        acc = acc ? mkConcat(p, acc) : p; i += len;
    }
    return fromRef(acc);
}
void VM::storeObj(State &s, MemObj *o, uint64_t off, unsigned bytes, Val v) {
    if (off + bytes > o->cap) ensureCap(o, off + bytes);
    if (v.e && isConst(v.e)) {
        if (N(v.e).w <= 64) v = CV(constVal(v.e));
        else { auto &wv = wideConst(v.e); memcpy(o->data + off, wv.data(), bytes); if (o->sym) memset(o->sym + off, 0, bytes * 4); return; }
    }
    if (!v.e) {
        if (bytes <= 8) memcpy(o->data + off, &v.c, bytes); else { memcpy(o->data + off, &v.c, 8); memset(o->data + off + 8, 0, bytes - 8); }
        if (o->sym) memset(o->sym + off, 0, bytes * 4);
        return;
    }
    ensureSym(o);
    Ref e = v.e; unsigned w = N(e).w;
    if (w < bytes * 8) { e = mkZExt(e, bytes * 8); }
    else if (w > bytes * 8) e = mkExtract(e, 0, bytes * 8);
    if (isConst(e)) { storeObj(s, o, off, bytes, Val{ 0, e }); return; }
    for (unsigned b = 0; b < bytes; b += 8) {
        unsigned len = std::min(8u, bytes - b);
        Ref p = bytes <= 8 ? e : mkExtract(e, b * 8, len * 8);
        if (isConst64(p)) { uint64_t c = constVal(p); memcpy(o->data + off + b, &c, len); memset(o->sym + off + b, 0, len * 4); continue; }
        // split concats so that constant bytes stay concrete and elements keep their identity
        std::vector<Ref> parts; Ref q = p; unsigned at = 0;
        while (N(q).op == O_CONCAT && N(N(q).b).w % 8 == 0) { Ref lo = N(q).b; unsigned lw = N(lo).w / 8; 
            if (isConst64(lo)) { uint64_t c = constVal(lo); memcpy(o->data + off + b + at, &c, lw); memset(o->sym + off + b + at, 0, lw * 4); }
            else for (unsigned i = 0; i < lw; i++) o->sym[off + b + at + i] = (lo << 3) | i;
            at += lw; q = N(q).a; }
        if (N(q).op == O_ZEXT && N(N(q).a).w % 8 == 0) {
            unsigned lw = N(N(q).a).w / 8; Ref in = N(q).a;
            for (unsigned i = 0; i < lw; i++) o->sym[off + b + at + i] = (in << 3) | i;
            at += lw;
            for (; at < len; at++) { o->data[off + b + at] = 0; o->sym[off + b + at] = 0; }
            continue;
        }
        if (isConst64(q)) { uint64_t c = constVal(q); memcpy(o->data + off + b + at, &c, len - at); memset(o->sym + off + b + at, 0, (len - at) * 4); continue; }
        for (unsigned i = 0; at + i < len; i++) o->sym[off + b + at + i] = (q << 3) | i;
    }
}
void VM::writeBytes(State &s, uint64_t addr, const void *p, size_t n) { if (!n) return; MemObj *o = s.writable((uint32_t)(addr >> 32)); uint64_t off = addr & 0xffffffff; ensureCap(o, off + n); memcpy(o->data + off, p, n); if (o->sym) memset(o->sym + off, 0, n * 4); }
uint64_t VM::read64(State &s, uint64_t a) { MemObj *o = s.obj((uint32_t)(a >> 32)); Val v = loadObj(s, o, a & 0xffffffff, 8); return v.c; }
uint32_t VM::read32(State &s, uint64_t a) { MemObj *o = s.obj((uint32_t)(a >> 32)); Val v = loadObj(s, o, a & 0xffffffff, 4); return (uint32_t)v.c; }
void VM::write64(State &s, uint64_t a, uint64_t v) { writeBytes(s, a, &v, 8); }
void VM::write32(State &s, uint64_t a, uint32_t v) { writeBytes(s, a, &v, 4); }
std::string VM::readCStr(State &s, uint64_t addr, size_t lim, bool *sym) {
    std::string r; MemObj *o = s.obj((uint32_t)(addr >> 32)); if (!o || o->freed) return "<bad pointer>";
    uint64_t off = addr & 0xffffffff;
    while (r.size() < lim && off < o->size) {
        if (off >= o->cap) break;
        if (o->sym && o->sym[off]) { if (sym) *sym = true; r += '?'; off++; continue; }
        if (!o->data[off]) return r;
        r += (char)o->data[off++];
    }
    return r;
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

// full check of a concrete range
bool VM::checkRange(State &s, Val addr, uint64_t len, bool write, uint64_t *out) {
    if (addr.e) {
        if (!concretize(s, addr, 64, "address of a block operation")) return false;
    }
    *out = addr.c;
    if (len == 0) return true;
    MemObj *o = s.obj((uint32_t)(addr.c >> 32)); uint64_t off = addr.c & 0xffffffff;
    const char *wh = write ? "write" : "read";
    if (!o) { report(s, "bad-pointer", std::string(wh) + " of " + std::to_string(len) + " bytes at " + hex(addr.c)); return false; }
    if (o->freed) { report(s, "use-after-free", std::string(wh) + " of released " + kindName(o->kind) + " memory"); return false; }
    if (o->symSize) {
        Ref bad = mkUlt(o->symSize, mkConst(off + len, 64));
        if (!isConst(bad) || constVal(bad)) { int d = branch(s, bad, nullptr, nullptr, nullptr, nullptr); if (d != 0) { report(s, "out-of-bounds", std::string(wh) + " of " + std::to_string(len) + " bytes at offset " + std::to_string(off) + " of an allocation of symbolic size", bad); if (d == 1) return false; addCons(s, mkNot(bad)); } }
    } else if (off + len > o->size || off > o->size) { report(s, "out-of-bounds", std::string(wh) + " of " + std::to_string(len) + " bytes at offset " + std::to_string(off) + " of a " + kindName(o->kind) + " object of " + std::to_string(o->size) + " bytes"); return false; }
    if (write && o->ro) { report(s, "write-to-constant", "write to read-only memory"); return false; }
    if (o->kind == OK_FUNC) { report(s, "bad-pointer", std::string(wh) + " of code"); return false; }
    return true;
}
// resolve a symbolic address to one object (forking if several are possible); *off is the symbolic offset
bool VM::resolve(State &s, Val addr, unsigned bytes, bool write, uint32_t *id, Ref *off) {
    bool ok = true; uint64_t v = 0;
    if (s.modelOk) v = evalExpr(addr.e, s.model, ok);
    if (!s.modelOk || !ok) { Model m; Ref t = mkTrue(); Res r = solve(s.cons, mkEq(addr.e, addr.e) == t ? mkBin(O_OR, mkEq(mkExtract(addr.e, 0, 1), mkConst(0, 1)), mkEq(mkExtract(addr.e, 0, 1), mkConst(1, 1))) : t, nullptr, &m); (void)r; ok = true; v = evalExpr(addr.e, m, ok); if (!ok) { kill(s, "cannot resolve symbolic pointer", true); return false; } }
    uint32_t oid = (uint32_t)(v >> 32);
    MemObj *o = s.obj(oid); uint64_t base = (uint64_t)oid << 32;
    Ref o64 = mkSub(addr.e, mkConst(base, 64));
    if (!o || o->freed || o->kind == OK_FUNC || (!o->symSize && (v & 0xffffffff) + bytes > o->size)) {
        report(s, !o ? "bad-pointer" : o->freed ? "use-after-free" : "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(bytes) + " bytes at symbolic address, offset " + std::to_string((int64_t)(v - base)) + (o ? std::string(" of a ") + kindName(o->kind) + " object of " + std::to_string(o->size) + " bytes" : ""), mkEq(addr.e, mkConst(v, 64)));
        return false;
    }
    Ref in;
    if (o->symSize) in = mkUle(mkBin(O_ADD, o64, mkConst(bytes, 64)), o->symSize);
    else in = mkUle(o64, mkConst(o->size - bytes, 64));
    if (!(isConst(in) && constVal(in))) {
        Model mf; bool mfOk = false;
        int d = branch(s, in, nullptr, &mf, nullptr, &mfOk);
        if (d == 2) { // other addresses are possible: explore them in a clone
            State *n = clone(s); addCons(*n, mkNot(in)); if (mfOk) n->model = mf; else n->modelOk = false; work.push_back(n); resolveForks++;
            addCons(s, in);
        } else if (d == 0) { kill(s, "inconsistent address", true); return false; }
    }
    *id = oid; *off = o64;
    if (write && o->ro) { report(s, "write-to-constant", "write to read-only memory"); return false; }
    return true;
}
struct SlotIdx { uint64_t lo, stride, m; Ref idx; };
// how many low bits are certainly zero
static unsigned lowZeros(Ref x, int depth = 0) {
    Node &q = N(x); unsigned w = q.w;
    if (q.op == O_CONST) return q.k ? (unsigned)__builtin_ctzll(q.k) : w;
    if (depth > 6) return 0;
    if (q.op == O_ZEXT || q.op == O_SEXT) return lowZeros(q.a, depth + 1);
    if (q.op == O_SHL && isConst(q.b)) return std::min<unsigned>(w, (unsigned)constVal(q.b) + lowZeros(q.a, depth + 1));
    if (q.op == O_MUL && isConst(q.b)) return std::min<unsigned>(w, lowZeros(q.b) + lowZeros(q.a, depth + 1));
    if (q.op == O_ADD || q.op == O_OR || q.op == O_XOR) return std::min(lowZeros(q.a, depth + 1), lowZeros(q.b, depth + 1));
    if (q.op == O_CONCAT) { unsigned l = lowZeros(q.b, depth + 1); return l < N(q.b).w ? l : l + lowZeros(q.a, depth + 1); }
    if (q.op == O_ITE) return std::min(lowZeros(q.b, depth + 1), lowZeros(q.c, depth + 1));
    return 0;
}
static bool slotIndex(Ref off, uint64_t limit, SlotIdx &r) {
    Node &n = N(off);
    int64_t lo = n.smin, hi = n.smax;
    if (lo < 0) lo = 0;
    if (hi > (int64_t)limit) hi = (int64_t)limit;
    // gather linear terms
    struct T { Ref t; uint64_t c; }; std::vector<T> ts; uint64_t k = 0;
    std::vector<std::pair<Ref, uint64_t>> st{ { off, 1 } };
    while (!st.empty()) { auto [x, c] = st.back(); st.pop_back(); Node &q = N(x); if (q.op == O_CONST) k += c * q.k; else if (q.op == O_ADD) { st.push_back({ q.a, c }); st.push_back({ q.b, c }); } else if (q.op == O_MUL && isConst(q.b)) ts.push_back({ q.a, c * constVal(q.b) }); else ts.push_back({ x, c }); }
    for (auto &t : ts) { unsigned z = lowZeros(t.t); if (z && z < 40) { t.t = mkBin(O_ASHR, t.t, mkConst(z, 64)); t.c <<= z; } } // only for offsets that stay far below 2^63
    uint64_t g = 0; { for (auto &t : ts) { uint64_t a = (uint64_t)((int64_t)t.c < 0 ? -(int64_t)t.c : (int64_t)t.c), b = g; while (b) { uint64_t x = a % b; a = b; b = x; } g = a; } }
    if (!g) g = 1;
    // align lo to k mod g
    uint64_t km = ((k % g) + g) % g; if ((int64_t)k < 0) { int64_t kk = (int64_t)k % (int64_t)g; if (kk < 0) kk += (int64_t)g; km = (uint64_t)kk; }
    uint64_t l = (uint64_t)lo; if (l % g != km) { uint64_t d = (km + g - l % g) % g; l += d; }
    if ((int64_t)l > hi) return false;
    r.lo = l; r.stride = g; r.m = (hi - l) / g + 1;
    // index = (off - lo) / g, exact
    Ref idx = 0; uint64_t kc = (uint64_t)(((int64_t)k - (int64_t)l) / (int64_t)g);
    idx = mkConst(kc, 64);
    for (auto &t : ts) idx = mkBin(O_ADD, idx, mkBin(O_MUL, t.t, mkConst((uint64_t)((int64_t)t.c / (int64_t)g), 64)));
    r.idx = idx;
    return true;
}
static Ref muxTree(const std::vector<Ref> &v, Ref idx, size_t lo, size_t n, int bit) {
    if (lo >= v.size()) return 0;
    if (bit < 0) return v[lo];
    size_t half = (size_t)1 << bit;
    Ref a = muxTree(v, idx, lo, half, bit - 1), b = muxTree(v, idx, lo + half, half, bit - 1);
    (void)n;
    if (!b || a == b) return a;
    return mkIte(mkExtract(idx, bit, 1), b, a);
}
bool VM::load(State &s, Val addr, unsigned bytes, Val *out, unsigned w) {
    if (!addr.e) {
        uint32_t id = (uint32_t)(addr.c >> 32); uint64_t off = addr.c & 0xffffffff;
        MemObj *o = s.obj(id);
        if (!o || o->freed || off + bytes > o->size || o->kind == OK_FUNC || o->symSize) { uint64_t x; if (!checkRange(s, addr, bytes, false, &x)) return false; o = s.obj(id); }
        *out = loadObj(s, o, off, bytes);
    } else {
        uint32_t id; Ref off;
        if (!resolve(s, addr, bytes, false, &id, &off)) return false;
        MemObj *o = s.obj(id);
        SlotIdx si;
        if (!slotIndex(off, (o->symSize ? (1 << 20) : o->size) - bytes, si)) { kill(s, "inconsistent offset", true); return false; }
        if (si.m > 70000) { Val a = addr; if (!concretize(s, a, 64, "large symbolic offset")) return false; *out = loadObj(s, s.obj((uint32_t)(a.c >> 32)), a.c & 0xffffffff, bytes); }
        else {
            std::vector<Ref> v; v.reserve(si.m);
            for (uint64_t i = 0; i < si.m; i++) { Val x = loadObj(s, s.obj(id), si.lo + i * si.stride, bytes); v.push_back(toRef(x, bytes * 8)); }
            int nb = 0; while (((uint64_t)1 << nb) < si.m) nb++;
            *out = fromRef(muxTree(v, si.idx, 0, v.size(), nb - 1));
        }
    }
    if (w < bytes * 8) *out = vTrunc(*out, bytes * 8, w);
    return true;
}
bool VM::store(State &s, Val addr, unsigned bytes, Val v, unsigned w) {
    if (!addr.e) {
        uint32_t id = (uint32_t)(addr.c >> 32); uint64_t off = addr.c & 0xffffffff;
        MemObj *o = s.obj(id);
        if (!o || o->freed || off + bytes > o->size || o->kind == OK_FUNC || o->ro || o->symSize) { uint64_t x; if (!checkRange(s, addr, bytes, true, &x)) return false; }
        storeObj(s, s.writable(id), off, bytes, v);
        return true;
    }
    uint32_t id; Ref off;
    if (!resolve(s, addr, bytes, true, &id, &off)) return false;
    MemObj *o = s.writable(id);
    SlotIdx si;
    if (!slotIndex(off, (o->symSize ? (1 << 20) : o->size) - bytes, si)) { kill(s, "inconsistent offset", true); return false; }
    if (si.m > 2048) { Val a = addr; if (!concretize(s, a, 64, "large symbolic store offset")) return false; storeObj(s, s.writable((uint32_t)(a.c >> 32)), a.c & 0xffffffff, bytes, v); return true; }
    Ref nv = toRef(v, w); if (w < bytes * 8) nv = mkZExt(nv, bytes * 8);
    for (uint64_t i = 0; i < si.m; i++) {
        Ref old = toRef(loadObj(s, o, si.lo + i * si.stride, bytes), bytes * 8); o = s.writable(id);
        storeObj(s, o, si.lo + i * si.stride, bytes, fromRef(mkIte(mkEq(si.idx, mkConst(i, 64)), nv, old)));
    }
    return true;
}
bool VM::memcpyC(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return true;
    MemObj *so = s.obj((uint32_t)(src >> 32)); uint64_t soff = src & 0xffffffff, doff = d & 0xffffffff;
    if (soff + n > so->cap) { so = s.writable((uint32_t)(src >> 32)); ensureCap(so, soff + n); }
    MemObj *o = s.writable((uint32_t)(d >> 32)); so = s.obj((uint32_t)(src >> 32));
    ensureCap(o, doff + n);
    memmove(o->data + doff, so->data + soff, n);
    bool any = false; if (so->sym) for (uint64_t i = 0; i < n; i++) if (so->sym[soff + i]) { any = true; break; }
    if (any) { ensureSym(o); memmove(o->sym + doff, so->sym + soff, n * 4); }
    else if (o->sym) memset(o->sym + doff, 0, n * 4);
    return true;
}
// ---- path condition ---------------------------------------------------------------------------------
int VM::known(State &s, Ref c) {
    if (isConst(c)) return (int)constVal(c);
    Ref nc = mkNot(c);
    for (size_t i = s.cons.size(); i--;) { if (s.cons[i] == c) return 1; if (s.cons[i] == nc) return 0; }
    return -1;
}
void VM::addCons(State &s, Ref c) {
    if (isConst(c)) return;
    if (N(c).op == O_AND && N(c).w == 1) { addCons(s, N(c).a); addCons(s, N(c).b); return; }
    for (Ref r : s.cons) if (r == c) return;
    s.cons.push_back(c);
    if (N(c).op == O_EQ && isConst64(N(c).b)) {
        // e == constant: unwrap invertible operations to a symbol
        Ref e = N(c).a; uint64_t v = constVal(N(c).b); 
        for (;;) {
            Node &n = N(e);
            if (n.op == O_SYM) { bool have = false; for (auto &f : s.fixed) if (f.first == n.k) have = true; if (!have) s.fixed.push_back({ (uint32_t)n.k, v & maskW(n.w) }); break; }
            if (n.op == O_ZEXT || n.op == O_SEXT) { e = n.a; v &= maskW(N(e).w); continue; }
            if (n.op == O_ADD && isConst64(n.b) && n.w <= 64) { v = (v - constVal(n.b)) & maskW(n.w); e = n.a; continue; }
            if (n.op == O_XOR && isConst64(n.b) && n.w <= 64) { v ^= constVal(n.b); e = n.a; continue; }
            if (n.op == O_MUL && isConst64(n.b) && n.w <= 64 && constVal(n.b) == maskW(n.w)) { v = (0 - v) & maskW(n.w); e = n.a; continue; }
            break;
        }
    }
}
// after a concretization: symbols of the expression that have a single value left
static void pinSymbols(VM &vm, State &s, Ref e) {
    auto &v = symSet(N(e).symset); if (v.empty() || v.size() > 3 || !s.modelOk) return;
    std::vector<uint32_t> syms(v.begin(), v.end());
    for (uint32_t y : syms) {
        bool have = false; for (auto &f : s.fixed) if (f.first == y) have = true;
        if (have || g_syms[y].w > 64) continue;
        Ref sy = mkSymRef(y); if (!sy) continue;
        uint64_t val = s.model.get(y);
        Ref eq = mkEq(sy, mkConst(val, g_syms[y].w));
        if (solve(s.cons, mkNot(eq), nullptr, nullptr) == Res::Unsat) vm.addCons(s, eq);
    }
}
Res VM::check(State &s, Ref cond, Model *out) { return solve(s.cons, cond, s.modelOk ? &s.model : nullptr, out); }
int VM::branch(State &s, Ref cond, Model *mt, Model *mf, bool *mtOk, bool *mfOk) {
    if (mtOk) *mtOk = false;
    if (mfOk) *mfOk = false;
    int k = known(s, cond); if (k >= 0) return k;
    if (!s.fixed.empty()) { Ref c2 = substSyms(cond, s.fixed); if (c2 != cond) { cond = c2; k = known(s, cond); if (k >= 0) return k; } }
    Ref nc = mkNot(cond);
    bool ok = true; uint64_t v = 2;
    if (s.modelOk) { v = evalExpr(cond, s.model, ok); if (!ok) v = 2; }
    Res rt, rf;
    Model a, b;
    if (v == 1) { rt = Res::Sat; a = s.model; if (mtOk) *mtOk = true; } else { rt = check(s, cond, &a); if (mtOk && rt == Res::Sat) *mtOk = true; }
    if (rt == Res::Unsat) { return 0; }
    if (v == 0) { rf = Res::Sat; b = s.model; if (mfOk) *mfOk = true; } else { rf = check(s, nc, &b); if (mfOk && rf == Res::Sat) *mfOk = true; }
    if (rf == Res::Unsat) { return 1; }
    if (rt == Res::Unknown || rf == Res::Unknown) { notes["undecided branch (both sides explored)"]++; s.approx = true; }
    if (mt) *mt = std::move(a);
    if (mf) *mf = std::move(b);
    return 2;
}
int VM::decide(State &s, Ref cond) {
    Model mt, mf; bool to, fo;
    int d = branch(s, cond, &mt, &mf, &to, &fo);
    if (d != 2) return d;
    State *n = clone(s);
    addCons(*n, mkNot(cond)); if (fo) { n->model = std::move(mf); n->modelOk = true; } else n->modelOk = false;
    addCons(s, cond); if (to) { s.model = std::move(mt); s.modelOk = true; } else s.modelOk = false;
    work.push_back(n);
    return 1;
}
bool VM::concretize(State &s, Val &v, unsigned w, const char *why, uint64_t limit) {
    if (!v.e) return true;
    (void)limit;
    bool ok = true; uint64_t x = 0;
    Ref e0 = v.e;
    if (!s.fixed.empty()) { Ref e1 = substSyms(e0, s.fixed); if (isConst64(e1)) { uint64_t x1 = constVal(e1); Thread &t = s.th(); Frame &f = t.frames.back(); for (uint32_t i = 0; i < f.f->nslots; i++) { Val &r = t.regs[f.regBase + i]; if (r.e == e0) r = CV(x1); } v = CV(x1); return true; } }
    // already pinned by a constraint?
    for (size_t i = s.cons.size(); i--;) { Node &n = N(s.cons[i]); if (n.op == O_EQ && n.a == e0 && isConst64(n.b)) { v = CV(constVal(n.b)); return true; } }
    if (s.modelOk) x = evalExpr(e0, s.model, ok);
    if (!s.modelOk || !ok) {
        // obtain some model of the slice that mentions e0
        Model m; Ref probe = mkEq(e0, e0); Res r = Res::Unknown;
        for (uint64_t t : { 0ull, 1ull }) { (void)t; }
        probe = mkNot(mkEq(e0, mkConst(0, w)));
        r = solve(s.cons, probe, nullptr, &m);
        if (r == Res::Sat) { ok = true; x = evalExpr(e0, m, ok); if (!ok) { kill(s, "cannot concretize", true); return false; } }
        else if (r == Res::Unsat) x = 0;
        else { kill(s, std::string("cannot concretize ") + why, true); return false; }
    }
    Ref eq = mkEq(e0, mkConst(x, w));
    Model mf; bool fo = false;
    concretizations++; if (opt.verbose) notes[std::string("conc: ") + why + " in " + s.fr().f->dname.substr(0, 90)]++;
    int d = branch(s, eq, nullptr, &mf, nullptr, &fo);
    if (d == 0) { kill(s, std::string("cannot concretize ") + why, true); return false; }
    if (d == 2) { State *n = clone(s); addCons(*n, mkNot(eq)); if (fo) { n->model = std::move(mf); n->modelOk = true; } else n->modelOk = false; work.push_back(n); }
    addCons(s, eq);
    if (N(e0).op != O_SYM) pinSymbols(*this, s, e0);
    // write back into identical registers of the current frame
    Thread &t = s.th(); Frame &f = t.frames.back();
    for (uint32_t i = 0; i < f.f->nslots; i++) { Val &r = t.regs[f.regBase + i]; if (r.e == e0) r = CV(x); }
    v = CV(x);
    return true;
}
std::string VM::stackTrace(State &s) {
    std::string r; auto &t = s.th();
    for (size_t i = t.frames.size(); i-- && t.frames.size() - i < 30;) r += "    " + t.frames[i].f->dname + "\n";
    return r;
}
std::string VM::inputsJson(State &s, Model &m) {
    std::string j = "[";
    for (auto &in : s.inputs) {
        if (j.size() > 1) j += ",";
        j += "{\"name\":\"" + jsonEsc(in.name) + "\",\"esize\":" + std::to_string(in.esize) + ",\"count\":" + std::to_string(in.count) + ",\"values\":[";
        for (uint32_t i = 0; i < in.count; i++) { if (i) j += ","; j += std::to_string((m.get(in.firstSym + i) + in.add) & maskW(in.esize * 8)); }
        j += "]}";
    }
    return j + "]";
}
void VM::report(State &s, const std::string &kind, const std::string &msg, Ref cond) {
    Model m; bool have = false;
    if (cond && !isConst(cond)) {
        Res r = check(s, cond, &m);
        if (r == Res::Unsat) { if (&s == cur) kill(s, "infeasible report", false); return; }
        if (r == Res::Sat) have = true;
    } else if (s.modelOk) { m = s.model; have = true; }
    if (!have) {
        // path model unknown: try to find one for the whole path
        Ref all = mkTrue(); for (Ref c : s.cons) all = mkBin(O_AND, all, c);
        if (cond) all = mkBin(O_AND, all, cond);
        Res r = solve({}, all, nullptr, &m);
        if (r == Res::Unsat) { if (alive) kill(s, "infeasible report", false); return; }
        if (r == Res::Unknown) { undecided++; notes["undecided violation candidate: " + kind + ": " + msg]++; incomplete.insert("undecided violation candidate"); if (alive) terminate(s); return; }
    }
    std::string tr = stackTrace(s);
    std::string j = "{\"kind\":\"" + jsonEsc(kind) + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"trace\":\"" + jsonEsc(tr) + "\",\"approx\":" + (s.approx ? "true" : "false") + ",\"inputs\":" + inputsJson(s, m) + ",\"schedule\":[";
    for (size_t i = 0; i < s.schedule.size(); i++) j += (i ? "," : "") + std::string("[") + std::to_string(s.schedule[i].first) + "," + std::to_string(s.schedule[i].second) + "]";
    j += "]}";
    bool dup = false;
    for (auto &v : violations) if (v == j) dup = true;
    if (!dup) violations.push_back(j);
    if (opt.verbose) fprintf(stderr, "[vsx] VIOLATION %s: %s\n%s", kind.c_str(), msg.c_str(), tr.c_str());
    if ((int)violations.size() >= opt.maxViol) stop = true;
    if (&s == cur && kind != "assert") terminate(s);
}
// ---- values ----------------------------------------------------------------------------------------
Val vBin(Op op, const Val &a, const Val &b, unsigned w) {
    if (!(a.e | b.e)) { bool ok = true; return CV(foldOp(op, w, w, a.c, b.c, 0, 0, ok)); }
    return fromRef(mkBin(op, toRef(a, w), toRef(b, w)));
}
Val vIcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (!(a.e | b.e)) {
        int64_t x = sextW(a.c, w), y = sextW(b.c, w);
        switch (p) { case P_EQ: return CV(a.c == b.c); case P_NE: return CV(a.c != b.c); case P_ULT: return CV(a.c < b.c); case P_ULE: return CV(a.c <= b.c); case P_UGT: return CV(a.c > b.c); case P_UGE: return CV(a.c >= b.c); case P_SLT: return CV(x < y); case P_SLE: return CV(x <= y); case P_SGT: return CV(x > y); default: return CV(x >= y); }
    }
    Ref x = toRef(a, w), y = toRef(b, w), r;
    switch (p) { case P_EQ: r = mkEq(x, y); break; case P_NE: r = mkNot(mkEq(x, y)); break; case P_ULT: r = mkUlt(x, y); break; case P_ULE: r = mkUle(x, y); break; case P_UGT: r = mkUlt(y, x); break; case P_UGE: r = mkUle(y, x); break; case P_SLT: r = mkSlt(x, y); break; case P_SLE: r = mkSle(x, y); break; case P_SGT: r = mkSlt(y, x); break; default: r = mkSle(y, x); break; }
    return fromRef(r);
}
Val vIte(const Val &c, const Val &a, const Val &b, unsigned w) { if (!c.e) return c.c ? a : b; if (a.c == b.c && a.e == b.e) return a; return fromRef(mkIte(c.e, toRef(a, w), toRef(b, w))); }
Val vZext(const Val &a, unsigned w, unsigned nw) { (void)w; if (!a.e) { if (nw > 64) return Val{ 0, mkConst(a.c, nw) }; return a; } return fromRef(mkZExt(a.e, nw)); }
Val vSext(const Val &a, unsigned w, unsigned nw) { if (!a.e) { if (nw > 64) return fromRef(mkSExt(mkConst(a.c, w), nw)); return CV((uint64_t)sextW(a.c, w) & maskW(nw)); } return fromRef(mkSExt(a.e, nw)); }
Val vTrunc(const Val &a, unsigned w, unsigned nw) { (void)w; if (!a.e) return CV(a.c & maskW(nw)); return fromRef(mkExtract(a.e, 0, nw)); }
Val vExtract(const Val &a, unsigned w, unsigned lo, unsigned nw) { (void)w; if (!a.e) return CV((a.c >> lo) & maskW(nw)); return fromRef(mkExtract(a.e, lo, nw)); }
Val vConcat(const Val &hi, unsigned wh, const Val &lo, unsigned wl) { if (!(hi.e | lo.e) && wh + wl <= 64) return CV((hi.c << wl) | lo.c); return fromRef(mkConcat(toRef(hi, wh), toRef(lo, wl))); }
Val vF(Op op, unsigned w, const Val &a, unsigned wa, const Val *b, const Val *c) {
    if (!a.e && (!b || !b->e) && (!c || !c->e)) { bool ok = true; uint64_t r = foldOp(op, w, wa, a.c, b ? b->c : 0, c ? c->c : 0, 0, ok); return CV(r & maskW(w)); }
    return fromRef(mkF(op, w, toRef(a, wa), b ? toRef(*b, wa) : 0, c ? toRef(*c, wa) : 0));
}
Val vFcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    auto F = [&](Op op, const Val &x, const Val &y) -> Val { if (!(x.e | y.e)) { bool ok = true; return CV(foldOp(op, 1, w, x.c, y.c, 0, 0, ok)); } return fromRef(mkF(op, 1, toRef(x, w), toRef(y, w))); };
    auto NOT = [&](const Val &x) { return x.e ? fromRef(mkNot(x.e)) : CV(!x.c); };
    auto OR = [&](const Val &x, const Val &y) { return vBin(O_OR, x, y, 1); };
    // llvm::CmpInst: 0 FALSE 1 OEQ 2 OGT 3 OGE 4 OLT 5 OLE 6 ONE 7 ORD 8 UNO 9 UEQ 10 UGT 11 UGE 12 ULT 13 ULE 14 UNE 15 TRUE
    switch (p) {
    case 0: return CV(0); case 1: return F(O_FEQ, a, b); case 2: return F(O_FLT, b, a); case 3: return F(O_FLE, b, a); case 4: return F(O_FLT, a, b); case 5: return F(O_FLE, a, b);
    case 6: return OR(F(O_FLT, a, b), F(O_FLT, b, a)); case 7: return NOT(F(O_FUNO, a, b)); case 8: return F(O_FUNO, a, b); case 9: return OR(F(O_FUNO, a, b), F(O_FEQ, a, b));
    case 10: return NOT(F(O_FLE, a, b)); case 11: return NOT(F(O_FLT, a, b)); case 12: return NOT(F(O_FLE, b, a)); case 13: return NOT(F(O_FLT, b, a)); case 14: return NOT(F(O_FEQ, a, b)); default: return CV(1);
    }
}
void vBitcast(const Val *src, unsigned sn, unsigned sw, Val *dst, unsigned dn, unsigned dw) {
    (void)sn;
    if (sw == dw) { for (unsigned i = 0; i < dn; i++) dst[i] = src[i]; return; }
    std::vector<Val> out(dn);
    if (sw > dw) { unsigned r = sw / dw; for (unsigned i = 0; i < dn; i++) out[i] = vExtract(src[i / r], sw, (i % r) * dw, dw); }
    else { unsigned r = dw / sw; for (unsigned i = 0; i < dn; i++) { Val acc = src[i * r]; unsigned aw = sw; for (unsigned j = 1; j < r; j++) { acc = vConcat(src[i * r + j], sw, acc, aw); aw += sw; } out[i] = acc; } }
    for (unsigned i = 0; i < dn; i++) dst[i] = out[i];
}
// ---- frames -----------------------------------------------------------------------------------------
void VM::pushFrame(State &s, Func *f, CallInfo *ci, int32_t retDst, uint16_t retSlots, const std::vector<Val> &args, const std::vector<Val> &va) {
    compile(f);
    Thread &t = s.th();
    Frame nf; nf.f = f; nf.pc = 0; nf.call = ci; nf.retDst = retDst; nf.retSlots = retSlots;
    nf.regBase = t.frames.empty() ? 0 : t.frames.back().regBase + t.frames.back().f->nslots;
    if (t.regs.size() < nf.regBase + f->nslots) t.regs.resize(nf.regBase + f->nslots + 64, CV(0));
    size_t n = std::min<size_t>(args.size(), t.regs.size() - nf.regBase);
    for (size_t i = 0; i < n && i < f->nslots; i++) t.regs[nf.regBase + i] = args[i];
    t.frames.push_back(std::move(nf));
    f->calls++;
    if (f->vararg) {
        uint64_t a = alloc(s, va.size() * 8 + 8, OK_STACK, true, "varargs");
        MemObj *o = s.writable((uint32_t)(a >> 32));
        for (size_t i = 0; i < va.size(); i++) storeObj(s, o, i * 8, 8, va[i]);
        t.frames.back().va = a; t.frames.back().allocas.push_back((uint32_t)(a >> 32));
    }
    if (t.frames.size() > 2000) report(s, "stack-overflow", "call depth exceeds 2000");
}
void VM::popFrame(State &s) {
    Frame &f = s.fr();
    for (uint32_t id : f.allocas) { s.setObj(id, nullptr); s.freeStackIds.push_back(id); }
    s.th().frames.pop_back();
}
void VM::jump(State &s, Edge &e) {
    Thread &t = s.th(); Frame &f = t.frames.back(); Val *R = t.regs.data() + f.regBase; Val *C = consts.data();
    if (!e.moves.empty()) {
        static std::vector<Val> tmp; tmp.clear();
        for (auto &m : e.moves) { Val *p = m.src >= 0 ? R + m.src : C + ~m.src; for (unsigned i = 0; i < m.n; i++) tmp.push_back(p[i]); }
        size_t x = 0; for (auto &m : e.moves) for (unsigned i = 0; i < m.n; i++) R[m.dst + i] = tmp[x++];
    }
    f.pc = e.pc;
    if (!s.merge.empty()) checkMerge(s, e.block);
}
bool VM::checkMerge(State &s, uint32_t block) {
    while (!s.merge.empty()) {
        MergeRef r = s.merge.back();
        Thread &t = s.th();
        if (r.tid != s.cur || t.frames.size() < r.depth || (t.frames.size() == r.depth && t.frames.back().f != r.f)) { s.merge.pop_back(); leaveGroup(r.g); continue; }
        if (t.frames.size() > r.depth) return false;
        if (block != r.block) return false;
        // park
        s.merge.pop_back();
        r.g->parked.push_back(&s);
        if (&s == cur) alive = false;
        if (--r.g->live == 0) finalizeGroup(r.g);
        return true;
    }
    return false;
}
void VM::finalizeGroup(Group *g) {
    std::vector<State *> p = std::move(g->parked); delete g;
    std::vector<State *> res;
    for (State *s : p) {
        bool m = false;
        for (State *r : res) if (tryMerge(*r, *s)) {
            m = true; merges++;
            auto refs = std::move(s->merge); s->merge.clear(); for (auto &x : refs) x.g->live--; // the merged state stays in those groups
            if (s != cur) delete s; else s->dead = true;
            break;
        }
        if (!m) { if (!res.empty()) mergeFail++; res.push_back(s); }
    }
    for (State *r : res) {
        // the merged state may be at the merge point of an enclosing group too
        if (!r->merge.empty()) {
            MergeRef mr = r->merge.back(); Frame &f = r->fr();
            if (mr.tid == r->cur && r->th().frames.size() == mr.depth && f.f == mr.f && f.pc == f.f->blockPc[mr.block]) {
                r->merge.pop_back(); mr.g->parked.push_back(r);
                if (--mr.g->live == 0) finalizeGroup(mr.g);
                continue;
            }
        }
        work.push_back(r);
    }
}
static bool looksPtr(State &s, uint64_t v) { uint64_t id = v >> 32; return id != 0 && id < s.nextId; }
bool VM::tryMerge(State &a, State &b) {
    if (a.threads.size() != b.threads.size() || a.cur != b.cur || a.inputs.size() != b.inputs.size() || a.schedule.size() != b.schedule.size() || a.switchPoints != b.switchPoints || a.explore != b.explore || a.preemptions != b.preemptions || a.condWaiters != b.condWaiters || a.kv != b.kv) return false;
    for (size_t i = 0; i < a.inputs.size(); i++) if (a.inputs[i].firstSym != b.inputs[i].firstSym) return false;
    for (size_t i = 0; i < a.threads.size(); i++) {
        Thread &x = a.threads[i], &y = b.threads[i];
        if (x.frames.size() != y.frames.size() || x.st != y.st || x.waitOn != y.waitOn || x.phase != y.phase || x.caught != y.caught || x.tls != y.tls) return false;
        for (size_t f = 0; f < x.frames.size(); f++) { Frame &p = x.frames[f], &q = y.frames[f]; if (p.f != q.f || p.pc != q.pc || p.regBase != q.regBase || p.allocas != q.allocas || p.va != q.va) return false; }
        size_t lim = x.frames.empty() ? 0 : (int)i == a.cur ? x.frames.back().regBase : x.frames.back().regBase + x.frames.back().f->nslots;
        for (size_t r = 0; r < lim; r++) if (x.regs[r].c != y.regs[r].c || x.regs[r].e != y.regs[r].e) return false;
    }
    // path conditions
    size_t p = 0; while (p < a.cons.size() && p < b.cons.size() && a.cons[p] == b.cons[p]) p++;
    if (a.cons.size() - p > 24 || b.cons.size() - p > 24) return false;
    Ref A = mkTrue(), B = mkTrue();
    for (size_t i = p; i < a.cons.size(); i++) A = mkBin(O_AND, A, a.cons[i]);
    for (size_t i = p; i < b.cons.size(); i++) B = mkBin(O_AND, B, b.cons[i]);
    // memory differences
    struct Diff { uint32_t id; }; std::vector<uint32_t> diffs;
    size_t nc = std::max(a.chunks.size(), b.chunks.size());
    std::vector<uint32_t> takeB; // objects freed on both sides but different
    for (size_t c = 0; c < nc; c++) {
        Chunk *x = c < a.chunks.size() ? a.chunks[c] : nullptr, *y = c < b.chunks.size() ? b.chunks[c] : nullptr;
        if (x == y) continue;
        for (int i = 0; i < CHUNK; i++) {
            MemObj *o = x ? x->o[i] : nullptr, *q = y ? y->o[i] : nullptr;
            if (o == q) continue;
            if (!o || !q) { MemObj *t = o ? o : q; if (t->freed) { if (!o) takeB.push_back((uint32_t)(c * CHUNK + i)); continue; } return false; }
            if (o->freed && q->freed) continue;
            if (o->freed != q->freed || o->size != q->size || o->kind != q->kind || o->symSize != q->symSize) return false;
            diffs.push_back((uint32_t)(c * CHUNK + i));
        }
    }
    if (diffs.size() > 64) return false;
    Frame &fa = a.fr(); Val *RA = a.th().regs.data() + fa.regBase, *RB = b.th().regs.data() + b.fr().regBase;
    computeLive(fa.f);
    uint32_t blk = 0; { bool f = false; for (uint32_t i = 0; i < fa.f->blockPc.size(); i++) if (fa.f->blockPc[i] == fa.pc) { blk = i; f = true; break; } if (!f) return false; }
    // registers: width of a slot is only known through its values
    struct RD { int32_t slot; unsigned w; }; std::vector<RD> rd;
    for (auto &l : fa.f->liveIn[blk]) for (int i = 0; i < l.second; i++) {
        Val &x = RA[l.first + i], &y = RB[l.first + i];
        if (x.c == y.c && x.e == y.e) continue;
        unsigned w = x.e ? N(x.e).w : y.e ? N(y.e).w : 64;
        if (!x.e && !y.e) { if (looksPtr(a, x.c) || looksPtr(b, y.c)) return false; w = 0; }
        rd.push_back({ l.first + i, w });
    }
    // memory check pass
    struct MD { uint32_t id; uint64_t off; unsigned len; }; std::vector<MD> md;
    for (uint32_t id : diffs) {
        MemObj *o = a.obj(id), *q = b.obj(id); uint64_t n = std::max(o->cap, q->cap);
        auto A1 = [&](uint64_t i) { return i < o->cap ? o->data[i] : 0; }; auto B1 = [&](uint64_t i) { return i < q->cap ? q->data[i] : 0; };
        auto AS = [&](uint64_t i) -> uint32_t { return i < o->cap ? (o->sym ? o->sym[i] : 0) : (o->sym ? SYM_UNINIT : 0); }; auto BS = [&](uint64_t i) -> uint32_t { return i < q->cap ? (q->sym ? q->sym[i] : 0) : (q->sym ? SYM_UNINIT : 0); };
        auto dif = [&](uint64_t i) { uint32_t x = AS(i), y = BS(i); return x != y || (x == 0 && A1(i) != B1(i)); };
        for (uint64_t i = 0; i < n; i++) {
            if (!dif(i)) continue;
            unsigned len = 1; uint64_t st = i;
            uint32_t sx = AS(i), sy = BS(i);
            if (sx == SYM_UNINIT || sy == SYM_UNINIT) len = 1;
            else if (sx || sy) {
                uint32_t s0 = sx ? sx : sy; unsigned ew = (N(s0 >> 3).w + 7) / 8; if (sx && sy) ew = std::max<unsigned>(ew, (N(sy >> 3).w + 7) / 8); if (ew > 8) ew = 8;
                if (ew == 3) ew = 2; if (ew > 4 && ew < 8) ew = 4;
                st = i & ~(uint64_t)(ew - 1); len = ew; if (st + len > o->size) { st = i; len = 1; }
            } else {
                uint64_t w8 = i & ~7ull; 
                if (w8 + 8 <= o->size) {
                    bool conc = true; for (int t = 0; t < 8; t++) if (AS(w8 + t) || BS(w8 + t)) conc = false;
                    if (conc) { uint64_t x = 0, y = 0; for (int t = 0; t < 8; t++) { x |= (uint64_t)A1(w8 + t) << (8 * t); y |= (uint64_t)B1(w8 + t) << (8 * t); } if (looksPtr(a, x) || looksPtr(b, y)) { if ((x >> 32) != (y >> 32) || true) { bool hi = (x >> 32) != (y >> 32); if (hi || ((x ^ y) && (x >> 32))) return false; } }
                        if ((x >> 32) != (y >> 32)) { st = w8; len = 8; } }
                }
                if (len == 1) { uint64_t w4 = i & ~3ull; if (w4 + 4 <= o->size) { bool z = false; for (int t = 0; t < 4; t++) if (AS(w4 + t) || BS(w4 + t)) z = true; if (!z) { st = w4; len = 4; } } }
            }
            md.push_back({ id, st, len });
            if (md.size() > 4096) return false;
            i = std::max(i, st + len - 1);
        }
    }
    // commit
    auto width = [](uint64_t x, uint64_t y) { uint64_t m = x | y; return m <= 1 ? 1u : 64u; };
    for (auto &r : rd) {
        Val &x = RA[r.slot], &y = RB[r.slot]; unsigned w = r.w;
        if (!w) {
            // both concrete: find the width from other uses - use the recorded slot width
            w = fa.f->code.empty() ? 64 : 0;
            (void)width;
        }
        if (!w) { static std::unordered_map<Func *, std::vector<uint16_t>> sw; auto &v = sw[fa.f];
            if (v.empty()) { v.assign(fa.f->nslots, 0); extern void slotWidths(Func *, std::vector<uint16_t> &); slotWidths(fa.f, v); }
            w = v[r.slot] ? v[r.slot] : 64; }
        x = fromRef(mkIte(A, toRef(x, w), toRef(y, w)));
    }
    for (auto &m : md) {
        MemObj *q = b.obj(m.id); MemObj *o = a.writable(m.id);
        if (m.len == 1 && ((o->sym && m.off < o->cap && o->sym[m.off] == SYM_UNINIT) || m.off >= o->cap) ) { // uninitialised on one side: any value is allowed, take the other
            Val y = loadObj(b, q, m.off, 1); storeObj(a, a.writable(m.id), m.off, 1, y); continue; }
        if (m.len == 1 && ((q->sym && m.off < q->cap && q->sym[m.off] == SYM_UNINIT) || m.off >= q->cap)) continue;
        Val x = loadObj(a, o, m.off, m.len), y = loadObj(b, q, m.off, m.len);
        o = a.writable(m.id);
        storeObj(a, o, m.off, m.len, fromRef(mkIte(A, toRef(x, m.len * 8), toRef(y, m.len * 8))));
    }
    for (uint32_t id : takeB) { MemObj *t = b.obj(id); t->rc++; a.setObj(id, t); }
    a.nextId = std::max(a.nextId, b.nextId);
    a.cons.resize(p);
    { std::vector<std::pair<uint32_t, uint64_t>> f; for (auto &x : a.fixed) for (auto &y : b.fixed) if (x == y) { f.push_back(x); break; } a.fixed = f; }
    addCons(a, mkBin(O_OR, A, B));
    a.approx |= b.approx; a.icount = std::max(a.icount, b.icount);
    return true;
}
// ---- exceptions ---------------------------------------------------------------------------------
bool VM::typeMatches(State &s, uint64_t thrown, uint64_t want) {
    if (thrown == want) return true;
    auto nm = [&](uint64_t ti) { return readCStr(s, read64(s, ti + 8)); };
    if (nm(thrown) == nm(want)) return true;
    uint64_t vt = read64(s, thrown); std::string vn = globalName.count(vt & ~0xffffffffull) ? globalName[vt & ~0xffffffffull] : "";
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return typeMatches(s, read64(s, thrown + 16), want);
    if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint32_t n = read32(s, thrown + 20); for (uint32_t i = 0; i < n; i++) if (typeMatches(s, read64(s, thrown + 24 + 16 * i), want)) return true; }
    return false;
}
// exception object header lives 64 bytes before the object: [typeinfo][dtor][count]
bool VM::unwind(State &s) {
    Thread &t = s.th();
    uint64_t ti = read64(s, t.excPtr - 64);
    // is there a handler at all?
    int hf = -1;
    for (size_t i = t.frames.size(); i-- > 0;) {
        Frame &f = t.frames[i]; KInst &k = f.f->code[f.pc];
        if (k.op != K_CALL || !((CallInfo *)k.aux)->invoke) continue;
        if (i + 1 == t.frames.size() && false) continue;
        KInst &lp = f.f->code[((CallInfo *)k.aux)->unwind.pc];
        if (lp.op != K_LANDINGPAD) continue;
        LPInfo &li = *(LPInfo *)lp.aux;
        for (auto &c : li.clauses) { if (c.first && (c.second == 0 || typeMatches(s, ti, c.second))) { hf = (int)i; break; } if (!c.first) { hf = (int)i; break; } }
        if (hf >= 0) break;
    }
    if (hf < 0) { report(s, "uncaught-exception", "exception of type " + demangle(readCStr(s, read64(s, ti + 8))) + " terminates the program"); return false; }
    while (!t.frames.empty()) {
        Frame &f = t.frames.back(); KInst &k = f.f->code[f.pc];
        if (k.op == K_CALL && ((CallInfo *)k.aux)->invoke) {
            CallInfo &ci = *(CallInfo *)k.aux;
            KInst &lp = f.f->code[ci.unwind.pc];
            if (lp.op == K_LANDINGPAD) {
                LPInfo &li = *(LPInfo *)lp.aux; bool enter = li.cleanup; uint32_t sel = 0;
                for (auto &c : li.clauses) {
                    if (c.first && (c.second == 0 || typeMatches(s, ti, c.second))) { enter = true; sel = c.second ? (uint32_t)(c.second >> 32) : 1; break; }
                    if (!c.first) { enter = true; sel = 0xffffffff; break; }
                }
                if (enter) { t.excSel = sel; t.schedDone = false; jump(s, ci.unwind); return true; }
            }
        }
        popFrame(s);
    }
    report(s, "uncaught-exception", "unwound past the last frame");
    return false;
}
// ---- scheduling ----------------------------------------------------------------------------------
bool VM::schedule(State &s, bool blocked) {
    (void)blocked;
    std::vector<int> run;
    for (size_t i = 0; i < s.threads.size(); i++) if (s.threads[i].st == T_RUN) run.push_back((int)i);
    if (run.empty()) {
        std::string d = "no thread can make progress:";
        for (size_t i = 0; i < s.threads.size(); i++) { static const char *n[] = { "running", "mutex", "condition variable", "join", "done" }; d += " T" + std::to_string(i) + "=" + n[s.threads[i].st]; }
        report(s, "deadlock", d); return false;
    }
    yielded = true; switches++;
    { auto m = std::move(s.merge); s.merge.clear(); while (!m.empty()) { Group *g = m.back().g; m.pop_back(); leaveGroup(g); } }
    int pick = run[0];
    for (int r : run) if (r > s.cur) { pick = r; break; }
    if (s.explore && run.size() > 1) {
        uint32_t sp = s.switchPoints++;
        Ref sym = mkSym("sched" + std::to_string(sp), 8);
        addCons(s, mkUlt(sym, mkConst(run.size(), 8)));
        if (s.modelOk) s.model.set((uint32_t)N(sym).k, 0);
        for (size_t i = 1; i < run.size(); i++) { State *n = clone(s); addCons(*n, mkEq(sym, mkConst(i, 8))); if (n->modelOk) n->model.set((uint32_t)N(sym).k, i); n->cur = run[i]; n->schedule.push_back({ (int)sp, run[i] }); work.push_back(n); transitions++; }
        addCons(s, mkEq(sym, mkConst(0, 8)));
        s.schedule.push_back({ (int)sp, run[0] }); pick = run[0]; transitions++;
    } else s.switchPoints++;
    if (!s.explore) s.schedule.push_back({ (int)s.switchPoints - 1, pick });
    s.cur = pick;
    return true;
}
bool VM::switchPoint(State &s) {
    // voluntary scheduling point: the running thread may be preempted
    if (!s.explore) return true;
    std::vector<int> run;
    for (size_t i = 0; i < s.threads.size(); i++) if (s.threads[i].st == T_RUN && (int)i != s.cur) run.push_back((int)i);
    if (run.empty()) return true;
    uint32_t sp = s.switchPoints++;
    if (s.preemptions >= opt.preempt) return true;
    Ref sym = mkSym("sched" + std::to_string(sp), 8);
    addCons(s, mkUlt(sym, mkConst(run.size() + 1, 8)));
    if (s.modelOk) s.model.set((uint32_t)N(sym).k, 0);
    for (size_t i = 0; i < run.size(); i++) {
        State *n = clone(s); addCons(*n, mkEq(sym, mkConst(i + 1, 8))); if (n->modelOk) n->model.set((uint32_t)N(sym).k, i + 1);
        { auto m = std::move(n->merge); n->merge.clear(); while (!m.empty()) { Group *g = m.back().g; m.pop_back(); leaveGroup(g); } }
        n->preemptions++; n->schedule.push_back({ (int)sp, run[i] }); n->cur = run[i]; work.push_back(n); transitions++;
    }
    addCons(s, mkEq(sym, mkConst(0, 8)));
    s.schedule.push_back({ (int)sp, s.cur });
    transitions++;
    return true;
}
void VM::doReturn(State &s, Val *v, unsigned n) {
    Val tmp[8]; std::vector<Val> big; Val *src = v;
    if (n <= 8) { for (unsigned i = 0; i < n; i++) tmp[i] = v[i]; src = tmp; } else { big.assign(v, v + n); src = big.data(); }
    Frame &f = s.fr(); CallInfo *ci = f.call; int32_t dst = f.retDst; uint16_t rs = f.retSlots;
    uint8_t onr = f.onReturn;
    popFrame(s);
    Thread &t = s.th();
    if (t.frames.empty()) {
        (void)onr;
        if (s.cur == 0) { pathsDone++; terminate(s); return; }
        t.st = T_DONE;
        for (auto &o : s.threads) if (o.st == T_JOIN && o.waitOn == (uint64_t)s.cur) o.st = T_RUN;
        schedule(s, true);
        return;
    }
    Frame &c = t.frames.back(); Val *R = t.regs.data() + c.regBase;
    if (dst >= 0) for (unsigned i = 0; i < rs && i < n; i++) R[dst + i] = src[i];
    if (ci && ci->invoke) jump(s, ci->normal); else c.pc++;
}
bool VM::callFunc(State &s, KInst &k, CallInfo &ci, Func *f, Val *R) {
    Val *C = consts.data();
    if (f->decl && !f->nat) { report(s, "unsupported", "call of external function " + f->dname); incomplete.insert("external " + f->name); return false; }
    std::vector<Val> args, va; unsigned fixed = 0;
    compile(f);
    size_t nfix = f->vararg ? f->nargs : ci.args.size();
    for (size_t i = 0; i < ci.args.size(); i++) {
        auto &a = ci.args[i]; Val *p = a.op >= 0 ? R + a.op : C + ~a.op;
        if (i < nfix) {
            if (a.byval) { uint64_t d = alloc(s, a.byval, OK_STACK, false, "byval"); uint64_t src; if (!checkRange(s, *p, a.byval, false, &src)) return false; memcpyC(s, d, src, a.byval); args.push_back(CV(d)); s.fr().allocas.push_back((uint32_t)(d >> 32)); }
            else for (unsigned j = 0; j < a.n; j++) args.push_back(p[j]);
            fixed++;
        } else { Val x = p[0]; if (a.w < 64 && x.e) x = fromRef(mkZExt(x.e, 64)); va.push_back(x); }
    }
    pushFrame(s, f, &ci, k.dst, ci.retSlots, args, va);
    return alive;
}

void VM::execLoop(State &s) {
    Val *C = consts.data();
    uint64_t cnt = 0;
#define V(o) ((o) >= 0 ? R + (o) : C + ~(o))
    while (alive) {
        C = consts.data();
        Thread &t = s.th(); Frame &f = t.frames.back(); KInst *code = f.f->code.data(); Val *R = t.regs.data() + f.regBase; uint32_t pc = f.pc;
        yielded = false;
        insts += cnt; s.icount += cnt; cnt = 0;
        if (stop) return;
        if ((insts & 0xfff) < 64) {}
        {
            static uint64_t lastCheck = 0, lastCalls = 0;
            if (insts - lastCheck > 2000000 || g_ss.solverCalls - lastCalls > 100) {
                lastCheck = insts; lastCalls = g_ss.solverCalls;
                double now = nowSec();
                if (now - t0 > opt.maxTime) { incomplete.insert("time limit"); stop = true; return; }
                if (insts > opt.maxInsts) { incomplete.insert("instruction limit"); stop = true; return; }
                if (s.icount > opt.maxPathInsts) { kill(s, "path instruction limit", true); return; }
                FILE *fs = fopen("/proc/self/statm", "r"); if (fs) { long a = 0, b = 0; if (fscanf(fs, "%ld %ld", &a, &b) == 2 && (size_t)b * 4 / 1024 > opt.maxMemMB) { incomplete.insert("memory limit"); stop = true; } fclose(fs); if (stop) return; }
            }
        }
        for (;;) {
            KInst &k = code[pc]; cnt++;
            if (cnt > 1000000) { f.pc = pc; break; }
            switch (k.op) {
            case K_NOP: pc++; continue;
            case K_MOV: { Val *a = V(k.a); Val *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = a[i]; pc++; continue; }
            case K_ADD: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; uint64_t m = maskW(k.w); for (unsigned i = 0; i < k.n; i++) { if (!(a[i].e | b[i].e)) d[i] = CV((a[i].c + b[i].c) & m); else d[i] = fromRef(mkBin(O_ADD, toRef(a[i], k.w), toRef(b[i], k.w))); } pc++; continue; }
            case K_SUB: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vSub(a[i], b[i], k.w); pc++; continue; }
            case K_MUL: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vBin(O_MUL, a[i], b[i], k.w); pc++; continue; }
            case K_AND: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) { if (!(a[i].e | b[i].e)) d[i] = CV(a[i].c & b[i].c); else d[i] = vBin(O_AND, a[i], b[i], k.w); } pc++; continue; }
            case K_OR: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) { if (!(a[i].e | b[i].e)) d[i] = CV(a[i].c | b[i].c); else d[i] = vBin(O_OR, a[i], b[i], k.w); } pc++; continue; }
            case K_XOR: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) { if (!(a[i].e | b[i].e)) d[i] = CV(a[i].c ^ b[i].c); else d[i] = vBin(O_XOR, a[i], b[i], k.w); } pc++; continue; }
            case K_SHL: case K_LSHR: case K_ASHR: {
                Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; Op o = k.op == K_SHL ? O_SHL : k.op == K_LSHR ? O_LSHR : O_ASHR;
                for (unsigned i = 0; i < k.n; i++) {
                    Val sh = b[i]; // scalar shifts beyond the width: the machine masks the count
                    if (k.n == 1 && k.w >= 32 && k.w <= 64) { if (!sh.e) sh.c &= (k.w == 64 ? 63 : k.w == 32 ? 31 : ~0ull); else if (N(sh.e).umax >= k.w && (k.w == 32 || k.w == 64)) sh = vBin(O_AND, sh, CV(k.w - 1), k.w); }
                    d[i] = vBin(o, a[i], sh, k.w);
                }
                pc++; continue; }
            case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: {
                Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; Op o = k.op == K_UDIV ? O_UDIV : k.op == K_SDIV ? O_SDIV : k.op == K_UREM ? O_UREM : O_SREM;
                f.pc = pc; bool bad = false;
                for (unsigned i = 0; i < k.n && !bad; i++) {
                    if (!b[i].e) { if (!b[i].c) { report(s, "division-by-zero", "integer division by zero"); bad = true; } }
                    else { Ref z = mkEq(b[i].e, mkConst(0, k.w)); if (!isConst(z)) { int dd = branch(s, z, nullptr, nullptr, nullptr, nullptr); if (dd) { report(s, "division-by-zero", "integer division by zero", z); if (alive) { addCons(s, mkNot(z)); s.modelOk = false; } if (dd == 1 || !alive) bad = true; } } }
                    if (!bad && (k.op == K_SDIV || k.op == K_SREM) && k.w >= 32 && k.w <= 64) { // INT_MIN / -1 traps
                        Val mn = CV(1ull << (k.w - 1)), m1 = CV(maskW(k.w));
                        Val c = vBin(O_AND, vIcmp(P_EQ, a[i], mn, k.w), vIcmp(P_EQ, b[i], m1, k.w), 1);
                        if (!c.e) { if (c.c) { report(s, "division-overflow", "INT_MIN / -1"); bad = true; } }
                        else { int dd = branch(s, c.e, nullptr, nullptr, nullptr, nullptr); if (dd) { report(s, "division-overflow", "INT_MIN / -1", c.e); if (alive) { addCons(s, mkNot(c.e)); s.modelOk = false; } if (dd == 1 || !alive) bad = true; } }
                    }
                    if (!bad) d[i] = vBin(o, a[i], b[i], k.w);
                }
                if (bad) { if (alive) terminate(s); goto reload; }
                pc++; continue; }
            case K_ICMP: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vIcmp(k.sub, a[i], b[i], k.w); pc++; continue; }
            case K_FCMP: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vFcmp(k.sub, a[i], b[i], k.w); pc++; continue; }
            case K_FBIN: { Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vF((Op)k.sub, k.w, a[i], k.w, &b[i]); pc++; continue; }
            case K_FNEG: { Val *a = V(k.a), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vBin(O_XOR, a[i], CV(1ull << (k.w - 1)), k.w); pc++; continue; }
            case K_FCAST: { Val *a = V(k.a), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vF((Op)k.sub, k.w, a[i], k.w2); pc++; continue; }
            case K_SELECT: {
                Val c = *V(k.a); Val *a = V(k.b), *b = V(k.c), *d = R + k.dst;
                if (!c.e) { Val *p = c.c ? a : b; for (unsigned i = 0; i < k.n; i++) d[i] = p[i]; }
                else if (k.aux) { auto &mp = *(std::vector<MemPart> *)k.aux; for (unsigned i = 0; i < k.n; i++) d[i] = vIte(c, a[i], b[i], mp[i].w); }
                else for (unsigned i = 0; i < k.n; i++) d[i] = vIte(c, a[i], b[i], k.w);
                pc++; continue; }
            case K_SELECTV: { Val *c = V(k.a), *a = V(k.b), *b = V(k.c), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vIte(c[i], a[i], b[i], k.w); pc++; continue; }
            case K_ZEXT: { Val *a = V(k.a), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vZext(a[i], k.w2, k.w); pc++; continue; }
            case K_SEXT: { Val *a = V(k.a), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vSext(a[i], k.w2, k.w); pc++; continue; }
            case K_TRUNC: { Val *a = V(k.a), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) d[i] = vTrunc(a[i], k.w2, k.w); pc++; continue; }
            case K_BITCAST: { vBitcast(V(k.a), (unsigned)k.c, k.w2, R + k.dst, k.n, k.w); pc++; continue; }
            case K_EXTRACTELT: {
                Val ix = *V(k.b); Val *a = V(k.a);
                if (!ix.e) R[k.dst] = a[ix.c % k.c];
                else { Val acc = a[0]; for (int i = 1; i < k.c; i++) acc = vIte(vIcmp(P_EQ, ix, CV((uint64_t)i), k.w2), a[i], acc, k.w); R[k.dst] = acc; }
                pc++; continue; }
            case K_INSERTELT: {
                Val ix = *V(k.c); Val *a = V(k.a); Val x = *V(k.b); Val *d = R + k.dst;
                for (unsigned i = 0; i < k.n; i++) d[i] = a[i];
                if (!ix.e) d[ix.c % k.n] = x; else for (unsigned i = 0; i < k.n; i++) d[i] = vIte(vIcmp(P_EQ, ix, CV(i), k.w2), x, d[i], k.w);
                pc++; continue; }
            case K_SHUFFLE: { ShufInfo &si = *(ShufInfo *)k.aux; Val *a = V(k.a), *b = V(k.b), *d = R + k.dst; for (unsigned i = 0; i < k.n; i++) { int m = si.mask[i]; d[i] = m < 0 ? CV(0) : (unsigned)m < si.n0 ? a[m] : b[m - si.n0]; } pc++; continue; }
            case K_GEP: {
                GepInfo &g = *(GepInfo *)k.aux; Val r = *V(k.a);
                if (g.off) r = vAdd(r, CV((uint64_t)g.off), 64);
                for (size_t i = 0; i < g.idx.size(); i++) {
                    Val ix = *V(g.idx[i].first); if (g.idxw[i] < 64) ix = vSext(ix, g.idxw[i], 64); else if (g.idxw[i] > 64) ix = vTrunc(ix, g.idxw[i], 64);
                    if (!(r.e | ix.e)) r.c += ix.c * (uint64_t)g.idx[i].second;
                    else r = vAdd(r, vBin(O_MUL, ix, CV((uint64_t)g.idx[i].second), 64), 64);
                }
                R[k.dst] = r; pc++; continue; }
            case K_LOAD: {
                Val a = *V(k.a); f.pc = pc;
                if (!k.aux) {
                    unsigned bytes = (unsigned)k.c;
                    if (!a.e) { // fast path
                        MemObj *o = s.obj((uint32_t)(a.c >> 32)); uint64_t off = a.c & 0xffffffff;
                        if (o && !o->freed && off + bytes <= o->cap && off + bytes <= o->size && !o->sym && bytes <= 8 && !o->symSize && o->kind != OK_FUNC) { uint64_t v = 0; memcpy(&v, o->data + off, bytes); R[k.dst] = CV(v & maskW(k.w)); pc++; continue; }
                    }
                    Val v; if (!load(s, a, bytes, &v, k.w)) goto reload;
                    R = t.regs.data() + f.regBase; R[k.dst] = v; pc++; continue;
                }
                auto &mp = *(std::vector<MemPart> *)k.aux;
                if (a.e && mp.size() > 1) { if (!concretize(s, a, 64, "vector/aggregate load address")) goto reload; }
                uint64_t base = a.c; if (!a.e) { if (!checkRange(s, a, (uint64_t)k.c, false, &base)) goto reload; }
                bool dead = false;
                for (auto &p : mp) {
                    Val v;
                    if (p.bits == 0xffff) { Val by; if (!load(s, CV(base + p.off / 8), 1, &by, 8)) { dead = true; break; } v = vExtract(by, 8, p.off % 8, p.w); }
                    else if (a.e) { if (!load(s, a, (p.w + 7) / 8, &v, p.w)) { dead = true; break; } }
                    else { MemObj *o = s.obj((uint32_t)(base >> 32)); v = loadObj(s, o, (base & 0xffffffff) + p.off, (p.w + 7) / 8); if (p.w % 8) v = vTrunc(v, ((p.w + 7) / 8) * 8, p.w); }
                    R[k.dst + p.slot] = v;
                }
                if (dead) goto reload;
                pc++; continue; }
            case K_STORE: {
                Val a = *V(k.a); f.pc = pc;
                if (!k.aux) { if (!store(s, a, (unsigned)k.c, *V(k.b), k.w)) goto reload; pc++; continue; }
                auto &mp = *(std::vector<MemPart> *)k.aux; Val *b = V(k.b);
                if (a.e) { if (!concretize(s, a, 64, "vector/aggregate store address")) goto reload; b = V(k.b); }
                uint64_t base; if (!checkRange(s, a, (uint64_t)k.c, true, &base)) goto reload;
                if (mp.size() && mp[0].bits == 0xffff) {
                    // bit packed vector
                    Val acc = b[mp[0].slot]; unsigned aw = mp[0].w; for (size_t i = 1; i < mp.size(); i++) { acc = vConcat(b[mp[i].slot], mp[i].w, acc, aw); aw += mp[i].w; }
                    unsigned by = (aw + 7) / 8; if (aw < by * 8) acc = vZext(acc, aw, by * 8);
                    storeObj(s, s.writable((uint32_t)(base >> 32)), base & 0xffffffff, by, acc); pc++; continue;
                }
                MemObj *o = s.writable((uint32_t)(base >> 32));
                for (auto &p : mp) storeObj(s, o, (base & 0xffffffff) + p.off, (p.w + 7) / 8, b[p.slot]);
                pc++; continue; }
            case K_ALLOCA: {
                f.pc = pc; Val n = *V(k.a); if (n.e && !concretize(s, n, k.w2, "alloca size")) goto reload;
                uint64_t a = alloc(s, (uint64_t)(uintptr_t)k.aux * n.c, OK_STACK, false, "stack"); f.allocas.push_back((uint32_t)(a >> 32)); R[k.dst] = CV(a); pc++; continue; }
            case K_BR: f.pc = pc; jump(s, ((BrInfo *)k.aux)->t); if (!alive) goto reload; pc = f.pc; continue;
            case K_CONDBR: {
                Val c = *V(k.a); BrInfo &b = *(BrInfo *)k.aux; f.pc = pc;
                int d;
                if (!c.e) d = (int)(c.c & 1);
                else {
                    Model mt, mf; bool to, fo;
                    d = branch(s, c.e, &mt, &mf, &to, &fo);
                    if (d == 2) {
                        if (opt.merge && b.mergeBlock >= 0 && s.merge.size() < 200) { Group *g = new Group; g->live = 1; s.merge.push_back({ g, s.cur, t.frames.size(), (uint32_t)b.mergeBlock, f.f }); }
                        State *n = clone(s);
                        addCons(*n, mkNot(c.e)); if (fo) { n->model = std::move(mf); n->modelOk = true; } else n->modelOk = false;
                        addCons(s, c.e); if (to) { s.model = std::move(mt); s.modelOk = true; } else s.modelOk = false;
                        work.push_back(n); d = 1;
                        Frame &nf = n->fr(); (void)nf;
                    }
                }
                jump(s, d ? b.t : b.f); if (!alive) goto reload; pc = f.pc; continue; }
            case K_SWITCH: {
                Val c = *V(k.a); SwitchInfo &si = *(SwitchInfo *)k.aux; f.pc = pc;
                if (c.e) {
                    // fork over the cases that are possible, then the default
                    Edge *taken = nullptr;
                    for (size_t i = 0; i < si.vals.size(); i++) { Ref e = mkEq(c.e, mkConst(si.vals[i], k.w)); if (isConst(e) && !constVal(e)) continue; int d = decide(s, e); if (d == 1) { taken = &si.edges[i]; break; } }
                    jump(s, taken ? *taken : si.def);
                } else {
                    Edge *e = &si.def; for (size_t i = 0; i < si.vals.size(); i++) if (si.vals[i] == c.c) { e = &si.edges[i]; break; }
                    jump(s, *e);
                }
                if (!alive) goto reload; pc = f.pc; continue; }
            case K_RET: { f.pc = pc; unsigned n = k.n; Val *v = n ? V(k.a) : nullptr; doReturn(s, v, n); goto reload; }
            case K_UNREACHABLE: f.pc = pc; report(s, "unreachable", k.sub ? "unsupported instruction" : "control reached code that must be unreachable"); goto reload;
            case K_LANDINGPAD: R[k.dst] = CV(t.excPtr); R[k.dst + 1] = CV(t.excSel); pc++; continue;
            case K_RESUME: f.pc = pc; t.excPtr = V(k.a)->c; unwind(s); goto reload;
            case K_ATOMICRMW: {
                f.pc = pc; unsigned by = (k.w + 7) / 8; Val a = *V(k.a), v = *V(k.b), old;
                if (s.explore && opt.switchAtomics) { if (!t.schedDone) { t.schedDone = true; switchPoint(s); } t.schedDone = false; }
                if (!load(s, a, by, &old, k.w)) goto reload;
                Val nv;
                switch (k.sub) { // llvm::AtomicRMWInst::BinOp: 0 xchg 1 add 2 sub 3 and 4 nand 5 or 6 xor 7 max 8 min 9 umax 10 umin
                case 0: nv = v; break; case 1: nv = vAdd(old, v, k.w); break; case 2: nv = vSub(old, v, k.w); break; case 3: nv = vBin(O_AND, old, v, k.w); break; case 5: nv = vBin(O_OR, old, v, k.w); break; case 6: nv = vBin(O_XOR, old, v, k.w); break;
                case 7: nv = vIte(vIcmp(P_SGT, old, v, k.w), old, v, k.w); break; case 8: nv = vIte(vIcmp(P_SLT, old, v, k.w), old, v, k.w); break; case 9: nv = vIte(vIcmp(P_UGT, old, v, k.w), old, v, k.w); break; case 10: nv = vIte(vIcmp(P_ULT, old, v, k.w), old, v, k.w); break;
                default: kill(s, "unsupported atomicrmw", true); goto reload; }
                if (!store(s, a, by, nv, k.w)) goto reload;
                R[k.dst] = old; pc++; continue; }
            case K_CMPXCHG: {
                f.pc = pc; unsigned by = (k.w + 7) / 8; Val a = *V(k.a), ex = *V(k.b), nv = *V(k.c), old;
                if (s.explore && opt.switchAtomics) { if (!t.schedDone) { t.schedDone = true; switchPoint(s); } t.schedDone = false; }
                if (!load(s, a, by, &old, k.w)) goto reload;
                Val eq = vIcmp(P_EQ, old, ex, k.w);
                if (!store(s, a, by, vIte(eq, nv, old, k.w), k.w)) goto reload;
                R[k.dst] = old; R[k.dst + 1] = eq; pc++; continue; }
            case K_CALL: {
                CallInfo &ci = *(CallInfo *)k.aux; f.pc = pc;
                Func *fn = ci.f; Native nat = ci.nat;
                if (ci.indirect) {
                    Val fp = *V(ci.fnOp); if (fp.e && !concretize(s, fp, 64, "function pointer")) goto reload;
                    auto it = funcByAddr.find(fp.c); if (it == funcByAddr.end()) { report(s, "bad-call", "call through invalid function pointer " + hex(fp.c)); goto reload; }
                    fn = it->second; nat = fn->nat;
                }
                if (nat) {
                    CallCtx cc{ s, k, ci, R, C };
                    NRes r = nat(*this, cc);
                    if (fn) fn->calls++;
                    if (r == NR_OK && alive && !yielded) { if (ci.invoke) { jump(s, ci.normal); if (!alive) goto reload; pc = f.pc; } else pc++; R = t.regs.data() + f.regBase; continue; }
                    if (r == NR_OK && alive && yielded) { s.threads[&t - s.threads.data()].frames.back().pc++; }
                    goto reload;
                }
                if (!fn) { report(s, "unsupported", "call of " + ci.iname); incomplete.insert("unsupported " + ci.iname); goto reload; }
                callFunc(s, k, ci, fn, R);
                goto reload; }
            default: report(s, "unsupported", "engine instruction"); goto reload;
            }
        }
    reload:;
    }
    insts += cnt; s.icount += cnt;
#undef V
}
void slotWidths(Func *f, std::vector<uint16_t> &v) {
    for (auto &k : f->code) if (k.dst >= 0) {
        unsigned w = k.w;
        if (k.op == K_ICMP || k.op == K_FCMP) w = 1;
        if (k.op == K_CALL) w = ((CallInfo *)k.aux)->retW;
        if (k.op == K_GEP || k.op == K_ALLOCA) w = 64;
        if (w) for (unsigned i = 0; i < std::max<unsigned>(k.n, 1); i++) if ((size_t)k.dst + i < v.size()) v[k.dst + i] = (uint16_t)w;
    }
    extern void phiWidths(Func *, std::vector<uint16_t> &); phiWidths(f, v);
}
void VM::runState(State *s) {
    cur = s; alive = true; s->dead = false;
    execLoop(*s);
    if (alive && stop) { terminate(*s); }
    // a state that was parked is owned by its group; a dead one is deleted by run()
}
void VM::run() {
    while (!work.empty() && !stop) {
        if (nowSec() - t0 > opt.maxTime) { incomplete.insert("time limit"); break; }
        if (pathsDone + pathsKilled > opt.maxPaths) { incomplete.insert("path limit"); break; }
        State *s = work.back(); work.pop_back();
        if (s->th().frames.empty()) { delete s; continue; }
        runState(s);
        cur = nullptr;
        if (s->dead && !keepDead) delete s;
    }
    if (stop && (int)violations.size() >= opt.maxViol) incomplete.insert("stopped at first violation");
}
