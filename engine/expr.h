// Hash-consed bit-vector expressions with constant folding, range analysis and
// local simplification.  Floating point operations are expressions over IEEE bit patterns.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <functional>

typedef uint32_t Ref; // 0 = "no expression" (value is concrete)

enum Op : uint8_t {
    O_INVALID, O_CONST, O_SYM,
    O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_SLT,          // width 1
    O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
    // floating point over bit patterns; node width = result width
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FMA,
    O_FEQ, O_FLT, O_FLE, O_FUNO,  // width 1 (ordered eq/lt/le, unordered)
    O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
    O_FRINT, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND,
    O_CVTPS2DQ,                   // float -> i32, round to nearest even, 0x80000000 when out of range
    O_F16TOF32, O_F32TOF16,
    O_UF,                         // k = uninterpreted function id (exp, log, pow, sin, cos ...)
    O__N
};

struct Node {
    uint8_t op; uint8_t nk; uint16_t w;
    Ref a, b, c;
    uint32_t symset;
    uint32_t hnext;
    uint64_t k;            // constant / symbol id / extract low bit / uf id
    uint64_t umin, umax;   // unsigned range (w<=64)
    int64_t smin, smax;    // signed range (w<=64)
    uint32_t size;         // saturating dag-ish size estimate
    uint32_t flags;        // 1: contains fp op, 2: contains UF
    uint32_t evgen; uint64_t ev; // evaluation cache (generation, value)
};
enum { NF_FP = 1, NF_UF = 2 };

struct SymInfo { std::string name; unsigned w; uint32_t order; };

extern std::vector<SymInfo> g_syms;
extern Node **g_chunks;
static inline Node &N(Ref r) { return g_chunks[r >> 16][r & 0xffff]; }

static inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextW(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Val { uint64_t c; Ref e; };
static inline Val CV(uint64_t c) { return Val{c, 0}; }

void exprInit();
uint32_t numExprs();
Ref mkConst(uint64_t v, unsigned w);
Ref mkSym(const std::string &name, unsigned w);
Ref mkSymRef(uint32_t id);
Ref mkBin(Op op, Ref a, Ref b);            // same width operands
Ref mkSub(Ref a, Ref b);
Ref mkNeg(Ref a);
Ref mkNot(Ref a);
Ref mkEq(Ref a, Ref b);
Ref mkUlt(Ref a, Ref b);
Ref mkUle(Ref a, Ref b);
Ref mkSlt(Ref a, Ref b);
Ref mkSle(Ref a, Ref b);
Ref mkIte(Ref c, Ref a, Ref b);
Ref mkConcat(Ref hi, Ref lo);
Ref mkExtract(Ref a, unsigned lo, unsigned w);
Ref mkZExt(Ref a, unsigned w);
Ref mkSExt(Ref a, unsigned w);
Ref mkF(Op op, unsigned w, Ref a, Ref b = 0, Ref c = 0, uint64_t k = 0);
uint32_t ufId(const std::string &name);
const std::string &ufName(uint32_t id);

static inline bool isConst(Ref r) { return N(r).op == O_CONST; }
static inline bool isConst64(Ref r) { return N(r).op == O_CONST && N(r).w <= 64; }
static inline uint64_t constVal(Ref r) { return N(r).k; }
const std::vector<uint64_t> &wideConst(Ref r);
Ref mkWide(const std::vector<uint64_t> &v, unsigned w);
Ref mkTrue(); Ref mkFalse();

// Val helpers (concrete <=64 bits, otherwise expression)
static inline Ref toRef(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromRef(Ref r) { if (isConst64(r)) return Val{constVal(r), 0}; return Val{0, r}; }

const std::vector<uint32_t> &symSet(uint32_t id);
uint32_t symSetUnion(uint32_t a, uint32_t b);

struct Model {
    std::vector<uint64_t> v;       // per symbol value
    uint32_t gen = 0;              // evaluation cache generation, 0 = not assigned yet
    uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
    void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(s + 1); v[s] = x; gen = 0; }
};
// evaluate an expression of width <= 64 in a model (missing symbols are 0); ok is cleared when an
// uninterpreted function or a wide value prevents evaluation
uint64_t evalExpr(Ref r, Model &m, bool &ok);
uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t k, bool &ok);
// replaces symbols by constants
Ref substSyms(Ref r, const std::vector<std::pair<uint32_t, uint64_t>> &fixed);
std::string exprStr(Ref r, int depth = 6);
uint16_t f32_to_f16(uint32_t x);
uint32_t f16_to_f32(uint16_t h);
