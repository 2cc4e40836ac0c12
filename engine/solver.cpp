#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <ctime>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>

SolverStats g_ss;
double g_qtimeout = 20, g_xtimeout = 60, g_deadline = 1e18;
std::string g_dumpDir;

double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Z3_context C;
static bool g_err;
static void errh(Z3_context c, Z3_error_code e) { g_err = true; if (e != Z3_OK) fprintf(stderr, "[z3] %s\n", Z3_get_error_msg(c, e)); }
void solverInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, errh);
    Z3_del_config(cfg);
}

// ---- translation -------------------------------------------------------------------------
struct Trans {
    bool fp; // FP theory (true) or uninterpreted functions (false)
    std::unordered_map<Ref, Z3_ast> bv, bo, fl;
    std::unordered_map<std::string, Z3_func_decl> fd;
    Z3_ast keep(Z3_ast a) { return a; }
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
    Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bvs(w)); }
    Z3_func_decl decl(const std::string &n, std::vector<unsigned> dom, unsigned ran) {
        auto it = fd.find(n);
        if (it != fd.end()) return it->second;
        std::vector<Z3_sort> s; for (auto w : dom) s.push_back(bvs(w));
        Z3_func_decl d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), (unsigned)s.size(), s.data(), bvs(ran));
        return fd[n] = d;
    }
    static bool isBoolOp(const Node &n) { return n.w == 1 && (n.op == O_EQ || n.op == O_ULT || n.op == O_SLT || n.op == O_AND || n.op == O_OR || n.op == O_XOR || n.op == O_ITE || (n.op >= O_FEQ && n.op <= O_FUNO)); }
    Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_16(C); }
    Z3_ast rne() { return Z3_mk_fpa_rne(C); }
    Z3_ast dbl(double d) { return Z3_mk_fpa_numeral_double(C, d, Z3_mk_fpa_sort_64(C)); }
    static bool fpValued(const Node &n) {
        switch (n.op) { case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FMA: case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC: case O_FRINT: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FROUND: case O_F16TOF32: case O_F32TOF16: return true; }
        return false;
    }
    Z3_ast FL(Ref r) { // FP-sorted term
        auto it = fl.find(r); if (it != fl.end()) return it->second;
        Node &n = N(r); Z3_ast x = nullptr;
        switch (n.op) {
        case O_FADD: x = Z3_mk_fpa_add(C, rne(), FL(n.a), FL(n.b)); break;
        case O_FSUB: x = Z3_mk_fpa_sub(C, rne(), FL(n.a), FL(n.b)); break;
        case O_FMUL: x = Z3_mk_fpa_mul(C, rne(), FL(n.a), FL(n.b)); break;
        case O_FDIV: x = Z3_mk_fpa_div(C, rne(), FL(n.a), FL(n.b)); break;
        case O_FSQRT: x = Z3_mk_fpa_sqrt(C, rne(), FL(n.a)); break;
        case O_FMA: x = Z3_mk_fpa_fma(C, rne(), FL(n.a), FL(n.b), FL(n.c)); break;
        case O_SITOFP: x = Z3_mk_fpa_to_fp_signed(C, rne(), BV(n.a), fsort(n.w)); break;
        case O_UITOFP: x = Z3_mk_fpa_to_fp_unsigned(C, rne(), BV(n.a), fsort(n.w)); break;
        case O_FPEXT: case O_FPTRUNC: case O_F16TOF32: case O_F32TOF16: x = Z3_mk_fpa_to_fp_float(C, rne(), FL(n.a), fsort(n.w)); break;
        case O_FRINT: x = Z3_mk_fpa_round_to_integral(C, rne(), FL(n.a)); break;
        case O_FFLOOR: x = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), FL(n.a)); break;
        case O_FCEIL: x = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), FL(n.a)); break;
        case O_FTRUNC: x = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), FL(n.a)); break;
        case O_FROUND: x = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rna(C), FL(n.a)); break;
        case O_ITE: if (fpValued(N(n.b)) || fpValued(N(n.c))) { x = Z3_mk_ite(C, BO(n.a), FL(n.b), FL(n.c)); break; } [[fallthrough]];
        default: x = Z3_mk_fpa_to_fp_bv(C, BV(r), fsort(n.w)); break;
        }
        return fl[r] = x;
    }
    Z3_ast uf(const char *nm, Node &n) {
        std::string name = std::string(nm) + "_" + std::to_string(n.w);
        std::vector<unsigned> dom; std::vector<Z3_ast> as;
        for (Ref k : { n.a, n.b, n.c }) if (k) { dom.push_back(N(k).w); as.push_back(BV(k)); name += "_" + std::to_string(N(k).w); }
        return Z3_mk_app(C, decl(name, dom, n.w), (unsigned)as.size(), as.data());
    }
    Z3_ast BO(Ref r) { // Bool term for a width-1 expression
        auto it = bo.find(r); if (it != bo.end()) return it->second;
        Node &n = N(r); Z3_ast x = nullptr;
        switch (n.op) {
        case O_CONST: x = n.k ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case O_EQ: x = N(n.a).w == 1 ? Z3_mk_eq(C, BO(n.a), BO(n.b)) : Z3_mk_eq(C, BV(n.a), BV(n.b)); break;
        case O_ULT: x = Z3_mk_bvult(C, BV(n.a), BV(n.b)); break;
        case O_SLT: x = Z3_mk_bvslt(C, BV(n.a), BV(n.b)); break;
        case O_AND: { Z3_ast t[2] = { BO(n.a), BO(n.b) }; x = Z3_mk_and(C, 2, t); break; }
        case O_OR: { Z3_ast t[2] = { BO(n.a), BO(n.b) }; x = Z3_mk_or(C, 2, t); break; }
        case O_XOR: if (isConst(n.b)) x = n.w == 1 && constVal(n.b) ? Z3_mk_not(C, BO(n.a)) : BO(n.a); else x = Z3_mk_xor(C, BO(n.a), BO(n.b)); break;
        case O_ITE: x = Z3_mk_ite(C, BO(n.a), BO(n.b), BO(n.c)); break;
        case O_FEQ: if (fp) x = Z3_mk_fpa_eq(C, FL(n.a), FL(n.b)); break;
        case O_FLT: if (fp) x = Z3_mk_fpa_lt(C, FL(n.a), FL(n.b)); break;
        case O_FLE: if (fp) x = Z3_mk_fpa_leq(C, FL(n.a), FL(n.b)); break;
        case O_FUNO: if (fp) { Z3_ast t[2] = { Z3_mk_fpa_is_nan(C, FL(n.a)), Z3_mk_fpa_is_nan(C, FL(n.b)) }; x = Z3_mk_or(C, 2, t); } break;
        default: break;
        }
        if (!x) x = Z3_mk_eq(C, n.op >= O_FEQ && n.op <= O_FUNO ? bvOf(r) : BV(r), num(1, 1));
        return bo[r] = x;
    }
    Z3_ast bvOf(Ref r) {
        Node &n = N(r);
        switch (n.op) {
        case O_CONST:
            if (n.w <= 64) return num(n.k, n.w);
            else { auto &v = wideConst(r); Z3_ast acc = nullptr; unsigned left = n.w; for (size_t i = 0; i < v.size(); i++) { unsigned cw = std::min(64u, left); left -= cw; Z3_ast p = num(v[i], cw); acc = acc ? Z3_mk_concat(C, p, acc) : p; } return acc; }
        case O_SYM: return Z3_mk_const(C, Z3_mk_int_symbol(C, (int)n.k), bvs(n.w));
        case O_ADD: return Z3_mk_bvadd(C, BV(n.a), BV(n.b));
        case O_MUL: if (isConst64(n.b) && n.w <= 64 && constVal(n.b) == maskW(n.w)) return Z3_mk_bvneg(C, BV(n.a)); return Z3_mk_bvmul(C, BV(n.a), BV(n.b));
        case O_UDIV: return Z3_mk_bvudiv(C, BV(n.a), BV(n.b));
        case O_SDIV: return Z3_mk_bvsdiv(C, BV(n.a), BV(n.b));
        case O_UREM: return Z3_mk_bvurem(C, BV(n.a), BV(n.b));
        case O_SREM: return Z3_mk_bvsrem(C, BV(n.a), BV(n.b));
        case O_AND: return Z3_mk_bvand(C, BV(n.a), BV(n.b));
        case O_OR: return Z3_mk_bvor(C, BV(n.a), BV(n.b));
        case O_XOR: return Z3_mk_bvxor(C, BV(n.a), BV(n.b));
        case O_SHL: return Z3_mk_bvshl(C, BV(n.a), BV(n.b));
        case O_LSHR: return Z3_mk_bvlshr(C, BV(n.a), BV(n.b));
        case O_ASHR: return Z3_mk_bvashr(C, BV(n.a), BV(n.b));
        case O_ITE: return Z3_mk_ite(C, BO(n.a), BV(n.b), BV(n.c));
        case O_CONCAT: return Z3_mk_concat(C, BV(n.a), BV(n.b));
        case O_EXTRACT: return Z3_mk_extract(C, (unsigned)(n.k + n.w - 1), (unsigned)n.k, BV(n.a));
        case O_ZEXT: return Z3_mk_zero_ext(C, n.w - N(n.a).w, BV(n.a));
        case O_SEXT: return Z3_mk_sign_ext(C, n.w - N(n.a).w, BV(n.a));
        case O_UF: return uf(("uf_" + ufName((uint32_t)n.k)).c_str(), n);
        case O_FREM: return uf("frem", n);
        default: break;
        }
        static const char *nm[] = { "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma", "feq", "flt", "fle", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "frint", "ffloor", "fceil", "ftrunc", "fround", "cvtps2dq", "f16tof32", "f32tof16" };
        if (!fp) return uf(nm[n.op - O_FADD], n);
        unsigned wa = N(n.a).w;
        auto D = [&]() { return wa == 64 ? FL(n.a) : Z3_mk_fpa_to_fp_float(C, rne(), FL(n.a), fsort(64)); };
        auto inr = [&](Z3_ast d, double lo, bool loStrict, double hi) {
            Z3_ast t[2] = { loStrict ? Z3_mk_fpa_gt(C, d, dbl(lo)) : Z3_mk_fpa_geq(C, d, dbl(lo)), Z3_mk_fpa_lt(C, d, dbl(hi)) };
            return Z3_mk_and(C, 2, t);
        };
        switch (n.op) {
        case O_FPTOSI: {
            if (n.w > 32) return Z3_mk_ite(C, inr(D(), -9223372036854775808.0, false, 9223372036854775808.0), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), FL(n.a), 64), num(1ull << 63, 64));
            Z3_ast v = Z3_mk_ite(C, inr(D(), -2147483649.0, true, 2147483648.0), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), FL(n.a), 32), num(0x80000000u, 32));
            return n.w == 32 ? v : Z3_mk_extract(C, n.w - 1, 0, v); }
        case O_FPTOUI: {
            if (n.w > 32) return uf("fptoui", n);
            Z3_ast v = Z3_mk_ite(C, inr(D(), -9223372036854775808.0, false, 9223372036854775808.0), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), FL(n.a), 64), num(0, 64));
            return Z3_mk_extract(C, n.w - 1, 0, v); }
        case O_CVTPS2DQ: {
            Z3_ast d = Z3_mk_fpa_round_to_integral(C, rne(), FL(n.a));
            Z3_ast dd = Z3_mk_fpa_to_fp_float(C, rne(), d, fsort(64));
            return Z3_mk_ite(C, inr(dd, -2147483648.0, false, 2147483648.0), Z3_mk_fpa_to_sbv(C, rne(), FL(n.a), 32), num(0x80000000u, 32)); }
        default: return Z3_mk_fpa_to_ieee_bv(C, FL(r));
        }
    }
    Z3_ast BV(Ref r) {
        auto it = bv.find(r); if (it != bv.end()) return it->second;
        Node &n = N(r);
        Z3_ast x;
        if (isBoolOp(n) && !(n.op >= O_FEQ && n.op <= O_FUNO && !fp)) x = Z3_mk_ite(C, BO(r), num(1, 1), num(0, 1));
        else x = bvOf(r);
        return bv[r] = x;
    }
};

// ---- canonical hashing of a query ---------------------------------------------------------------
struct H128 { uint64_t a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H128 &h) const { return h.a; } };
static inline uint64_t mx(uint64_t h, uint64_t v, uint64_t s) { h ^= v + s; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h += s * 0x9e3779b97f4a7c15ull; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29); }
struct Canon {
    std::unordered_map<Ref, H128> memo;
    std::vector<uint32_t> syms; // canonical order
    std::unordered_map<uint32_t, uint32_t> idx;
    H128 go(Ref r) {
        auto it = memo.find(r); if (it != memo.end()) return it->second;
        Node &n = N(r); H128 h{ 0x1234567ull + n.op, 0x9876543ull + n.w };
        auto add = [&](uint64_t v) { h.a = mx(h.a, v, 0x11111); h.b = mx(h.b, v, 0x7654321); };
        add(n.op | (n.w << 8));
        if (n.op == O_SYM) { auto i = idx.find((uint32_t)n.k); uint32_t id; if (i == idx.end()) { id = (uint32_t)syms.size(); idx[(uint32_t)n.k] = id; syms.push_back((uint32_t)n.k); } else id = i->second; add(id); }
        else if (n.op == O_CONST && n.w > 64) { for (auto v : wideConst(r)) add(v); }
        else add(n.k);
        for (Ref k : { n.a, n.b, n.c }) if (k) { H128 t = go(k); add(t.a); add(t.b); }
        return memo[r] = h;
    }
};
struct CacheEnt { Res r; std::vector<uint64_t> vals; };
static std::unordered_map<H128, CacheEnt, HH> g_cache;

static void collectFlags(const std::vector<Ref> &q, uint32_t &fl) { fl = 0; for (Ref r : q) fl |= N(r).flags; }

static Res z3check(const std::vector<Ref> &q, const std::vector<uint32_t> &syms, bool fp, double timeout, std::vector<uint64_t> &vals, std::string *smt) {
    static Trans *T[2]; static uint32_t uses[2];
    // asts live as long as the (non reference counted) context allows; recreate the context regularly
    static uint64_t made = 0;
    if (made > 3000000) { Z3_del_context(C); solverInit(); delete T[0]; delete T[1]; T[0] = T[1] = nullptr; made = 0; }
    if (!T[fp]) { T[fp] = new Trans; T[fp]->fp = fp; }
    (void)uses;
    Trans &t = *T[fp];
    size_t b4 = t.bv.size() + t.bo.size() + t.fl.size();
    std::vector<Z3_ast> as;
    uint32_t fl; collectFlags(q, fl);
    for (Ref r : q) as.push_back(t.BO(r));
    made += t.bv.size() + t.bo.size() + t.fl.size() - b4;
    made += 200;
    Z3_solver s;
    bool hasuf = (fl & NF_UF) || (!fp && (fl & NF_FP));
    if (fp) s = Z3_mk_simple_solver(C);
    const char *lg = fp ? nullptr : hasuf ? "QF_UFBV" : "QF_BV";
    if (!fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, lg));
    if (fp && !hasuf) { Z3_tactic tc = Z3_mk_tactic(C, "qffp"); s = Z3_mk_solver_from_tactic(C, tc); }
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(timeout * 1000));
    Z3_solver_set_params(C, s, p);
    for (auto a : as) Z3_solver_assert(C, s, a);
    if (smt) { *smt = Z3_solver_to_string(C, s); Z3_solver_dec_ref(C, s); Z3_params_dec_ref(C, p); return Res::Unknown; }
    g_err = false;
    double t0 = nowSec();
    Z3_lbool r = Z3_solver_check(C, s);
    double dt = nowSec() - t0;
    g_ss.solverCalls++; g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    Res res = Res::Unknown;
    if (g_err) { r = Z3_L_UNDEF; }
    if (r == Z3_L_FALSE) res = Res::Unsat;
    else if (r == Z3_L_TRUE) {
        res = Res::Sat;
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        vals.assign(syms.size(), 0);
        for (size_t i = 0; i < syms.size(); i++) {
            Z3_ast c = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)syms[i]), Z3_mk_bv_sort(C, g_syms[syms[i]].w)), o = nullptr;
            if (Z3_model_eval(C, m, c, true, &o)) { uint64_t v = 0; Z3_get_numeral_uint64(C, o, &v); vals[i] = v; }
        }
        Z3_model_dec_ref(C, m);
    }
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, s);
    return res;
}

static Res externalCheck(const std::vector<Ref> &q, const std::vector<uint32_t> &syms, bool fp, double timeout, std::vector<uint64_t> &vals) {
    std::string smt; std::vector<uint64_t> dummy;
    z3check(q, syms, fp, 1, dummy, &smt);
    uint32_t fl; collectFlags(q, fl);
    bool uf = (fl & NF_UF) || (!fp && (fl & NF_FP));
    std::string logic = std::string(uf ? "QF_UFBV" : "QF_BV"); if (fp) logic = uf ? "QF_UFBVFP" : "QF_BVFP";
    // symbol names are "k!ID"
    std::string txt = "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + smt + "\n(check-sat)\n(get-value (";
    size_t nsym = 0;
    for (auto sy : syms) { std::string nm = "k!" + std::to_string(sy); if (smt.find(nm) != std::string::npos) { txt += nm + " "; nsym++; } }
    txt += "))\n";
    char tmpl[] = "/tmp/vsxqXXXXXX"; int fd = mkstemp(tmpl); if (fd < 0) return Res::Unknown;
    if (write(fd, txt.data(), txt.size()) < 0) {} close(fd);
    struct P { pid_t pid; int fd; std::string out; bool done = false; };
    std::vector<P> ps;
    char tl[32], tl2[32]; snprintf(tl, sizeof tl, "-T:%d", (int)timeout + 1); snprintf(tl2, sizeof tl2, "--tlimit=%d", (int)(timeout * 1000));
    std::vector<std::vector<const char *>> cmds = { { "cvc5", tl2, "--bv-sat-solver=cadical", tmpl, nullptr }, { "z3-new", tl, tmpl, nullptr } };
    if (!fp && !uf) cmds.push_back({ "cvc5", tl2, "--solve-bv-as-int=sum", tmpl, nullptr });
    for (auto &c : cmds) {
        int pp[2]; if (pipe2(pp, O_CLOEXEC)) continue;
        pid_t pid = fork();
        if (pid == 0) { setpgid(0, 0); dup2(pp[1], 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); execvp(c[0], (char *const *)c.data()); _exit(127); }
        close(pp[1]); ps.push_back({ pid, pp[0], "" });
    }
    Res res = Res::Unknown; double t0 = nowSec(); size_t alive = ps.size();
    while (alive && res == Res::Unknown && nowSec() - t0 < timeout + 2) {
        fd_set fs; FD_ZERO(&fs); int mxf = 0;
        for (auto &p : ps) if (!p.done) { FD_SET(p.fd, &fs); mxf = std::max(mxf, p.fd); }
        timeval tv{ 0, 200000 };
        if (select(mxf + 1, &fs, nullptr, nullptr, &tv) <= 0) continue;
        for (auto &p : ps) if (!p.done && FD_ISSET(p.fd, &fs)) {
            char buf[65536]; ssize_t k = read(p.fd, buf, sizeof buf);
            if (k > 0) { p.out.append(buf, k); continue; }
            p.done = true; alive--;
            if (p.out.compare(0, 5, "unsat") == 0) { res = Res::Unsat; break; }
            if (p.out.compare(0, 3, "sat") == 0) {
                vals.assign(syms.size(), 0);
                for (size_t i = 0; i < syms.size(); i++) {
                    std::string key = "(k!" + std::to_string(syms[i]) + " "; size_t at = p.out.find(key); if (at == std::string::npos) continue; at += key.size();
                    uint64_t v = 0;
                    if (p.out.compare(at, 2, "#x") == 0) v = strtoull(p.out.c_str() + at + 2, nullptr, 16);
                    else if (p.out.compare(at, 2, "#b") == 0) v = strtoull(p.out.c_str() + at + 2, nullptr, 2);
                    else if (p.out.compare(at, 5, "(_ bv") == 0) v = strtoull(p.out.c_str() + at + 5, nullptr, 10);
                    vals[i] = v;
                }
                res = Res::Sat; break;
            }
        }
    }
    for (auto &p : ps) { kill(p.pid, SIGKILL); close(p.fd); int st; waitpid(p.pid, &st, 0); }
    unlink(tmpl);
    g_ss.external++; double dt = nowSec() - t0; g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    return res;
}

// Decides a formula over few free bits by computing its truth table: the domain of each symbol is first cut down
// by the conjuncts that mention only that symbol, then every remaining assignment is evaluated, a block at a time.
struct Tape {
    enum { B = 512 };
    struct I { uint8_t op; uint8_t w, wa, wb; int a, b, c; uint64_t k; };
    std::vector<I> ins; std::vector<uint64_t> v; std::unordered_map<Ref, int> at; std::vector<std::pair<uint32_t, int>> sy; bool ok = true;
    int add(Ref r) {
        if (!r) return -1;
        auto it = at.find(r); if (it != at.end()) return it->second;
        Node n = N(r); if (n.w > 64 || ins.size() > 20000) { ok = false; return -1; }
        I i{ n.op, (uint8_t)n.w, (uint8_t)(n.a ? std::min<int>(N(n.a).w, 255) : n.w), (uint8_t)(n.b ? std::min<int>(N(n.b).w, 255) : 0), -1, -1, -1, n.k };
        if (n.op != O_CONST && n.op != O_SYM) { i.a = add(n.a); i.b = add(n.b); i.c = add(n.c); }
        if (!ok) return -1;
        int x = (int)ins.size(); ins.push_back(i); at[r] = x; if (n.op == O_SYM) sy.push_back({ (uint32_t)n.k, x });
        return x;
    }
    void prep() { v.assign(ins.size() * B, 0); for (size_t i = 0; i < ins.size(); i++) if (ins[i].op == O_CONST) for (int j = 0; j < B; j++) v[i * B + j] = ins[i].k; }
    bool run() {
        bool good = true;
        for (size_t x = 0; x < ins.size(); x++) {
            const I &i = ins[x]; uint64_t *o = &v[x * B]; const uint64_t *a = i.a >= 0 ? &v[(size_t)i.a * B] : o, *b = i.b >= 0 ? &v[(size_t)i.b * B] : o, *c = i.c >= 0 ? &v[(size_t)i.c * B] : o; uint64_t m = maskW(i.w);
            #define EACH(e) for (int j = 0; j < B; j++) o[j] = (e); break
            switch (i.op) {
            case O_CONST: case O_SYM: break;
            case O_ADD: EACH((a[j] + b[j]) & m); case O_MUL: EACH((a[j] * b[j]) & m); case O_AND: EACH(a[j] & b[j]); case O_OR: EACH(a[j] | b[j]); case O_XOR: EACH(a[j] ^ b[j]);
            case O_EQ: EACH(a[j] == b[j]); case O_ULT: EACH(a[j] < b[j]); case O_ITE: EACH(a[j] ? b[j] : c[j]); case O_ZEXT: EACH(a[j]); case O_EXTRACT: EACH((a[j] >> i.k) & m);
            case O_CONCAT: EACH((a[j] << i.wb) | b[j]); case O_SEXT: EACH((uint64_t)sextW(a[j], i.wa) & m); case O_SLT: EACH(sextW(a[j], i.wa) < sextW(b[j], i.wa));
            default: for (int j = 0; j < B; j++) o[j] = foldOp((Op)i.op, i.w, i.wa, a[j], b[j], c[j], i.k, good);
            }
            #undef EACH
        }
        return good;
    }
};
static Res tableCheck(const std::vector<Ref> &q, const std::vector<uint32_t> &syms, double maxBits, double timeout, std::vector<uint64_t> &vals) {
    if (syms.empty() || syms.size() > 25) return Res::Unknown;
    double t0 = nowSec(); std::vector<std::vector<uint32_t>> dom(syms.size()); double bits = 0;
    for (size_t i = 0; i < syms.size(); i++) {
        unsigned w = g_syms[syms[i]].w; if (w > 20) return Res::Unknown;
        Tape t; std::vector<int> outs;
        for (Ref r : q) { auto &ss = symSet(N(r).symset); if (ss.size() == 1 && ss[0] == syms[i]) outs.push_back(t.add(r)); }
        if (!t.ok) return Res::Unknown;
        if (outs.empty()) { bits += w; if (bits > maxBits) return Res::Unknown; for (uint32_t k = 0; k < 1u << w; k++) dom[i].push_back(k); continue; }
        t.prep(); uint64_t n = 1ull << w;
        for (uint64_t at = 0; at < n; at += Tape::B) {
            for (auto &s : t.sy) for (int j = 0; j < Tape::B; j++) t.v[(size_t)s.second * Tape::B + j] = (at + j) & maskW(w);
            if (!t.run()) return Res::Unknown;
            for (int j = 0; j < Tape::B && at + j < n; j++) { bool ok = true; for (int o : outs) ok = ok && t.v[(size_t)o * Tape::B + j]; if (ok) dom[i].push_back((uint32_t)(at + j)); }
        }
        if (dom[i].empty()) { g_ss.tables++; return Res::Unsat; }
        bits += log2((double)dom[i].size());
    }
    if (bits > maxBits) return Res::Unknown;
    Tape t; std::vector<int> outs; for (Ref r : q) outs.push_back(t.add(r));
    if (!t.ok) return Res::Unknown;
    t.prep(); std::vector<size_t> ctr(syms.size(), 0); bool end = false; Res res = Res::Unsat; std::vector<std::vector<uint32_t>> blk(syms.size(), std::vector<uint32_t>(Tape::B));
    std::vector<int> pos(syms.size(), -1); for (auto &s : t.sy) for (size_t i = 0; i < syms.size(); i++) if (syms[i] == s.first) pos[i] = s.second;
    while (!end) {
        int n = 0;
        while (n < Tape::B && !end) {
            for (size_t i = 0; i < syms.size(); i++) { blk[i][n] = dom[i][ctr[i]]; if (pos[i] >= 0) t.v[(size_t)pos[i] * Tape::B + n] = blk[i][n]; }
            n++; size_t i = 0; for (; i < syms.size(); i++) { if (++ctr[i] < dom[i].size()) break; ctr[i] = 0; } if (i == syms.size()) end = true;
        }
        if (!t.run()) return Res::Unknown;
        for (int j = 0; j < n; j++) { bool ok = true; for (int o : outs) ok = ok && t.v[(size_t)o * Tape::B + j]; if (ok) { vals.assign(syms.size(), 0); for (size_t i = 0; i < syms.size(); i++) vals[i] = blk[i][j]; res = Res::Sat; end = true; break; } }
        if (nowSec() - t0 > timeout) return Res::Unknown;
    }
    double dt = nowSec() - t0; g_ss.tables++; g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    return res;
}
static bool modelSatisfies(const std::vector<Ref> &q, Model &m) { for (Ref r : q) { bool ok = true; if (!evalExpr(r, m, ok) || !ok) return false; } return true; }

static Res solveSlice(const std::vector<Ref> &q, const std::vector<uint32_t> &syms, std::vector<uint64_t> &vals) {
    uint32_t fl; collectFlags(q, fl);
    double left = g_deadline - nowSec();
    if (left < 1) return Res::Unknown;
    double to = std::min(g_qtimeout, left);
    Res tr = Res::Unknown; bool small = syms.size() <= 24; for (auto y : syms) small = small && g_syms[y].w <= 16;
    if (small) { // few free bits: a short attempt, then the truth table
        unsigned bits = 0; for (auto y : syms) bits += g_syms[y].w;
        if (!(fl & (NF_FP | NF_UF))) tr = z3check(q, syms, false, std::min(bits <= 16 ? 0.1 : 0.5, to), vals, nullptr);
        if (tr == Res::Unknown) tr = tableCheck(q, syms, 24.1, 20, vals);
        if (tr != Res::Unknown) return tr;
        small = syms.size() <= 3;
    }
    if (!(fl & NF_FP)) {
        Res r = z3check(q, syms, false, to, vals, nullptr);
        if (r == Res::Unknown && small) r = tableCheck(q, syms, 25, std::min(60.0, std::max(1.0, g_deadline - nowSec())), vals);
        left = g_deadline - nowSec();
        if (r == Res::Unknown && left > 3 && g_xtimeout > 0) r = externalCheck(q, syms, false, std::min(g_xtimeout, left), vals);
        return r;
    }
    g_ss.fpQueries++;
    Res r = z3check(q, syms, false, std::min(5.0, to), vals, nullptr);
    if (r == Res::Unsat) return r;
    if (r == Res::Sat) { Model m; for (size_t i = 0; i < syms.size(); i++) m.set(syms[i], vals[i]); if (modelSatisfies(q, m)) return Res::Sat; }
    r = z3check(q, syms, true, to, vals, nullptr);
    if (r == Res::Sat && (fl & NF_UF)) { Model m; for (size_t i = 0; i < syms.size(); i++) m.set(syms[i], vals[i]); if (!modelSatisfies(q, m)) r = Res::Unknown; }
    left = g_deadline - nowSec();
    if (r == Res::Unknown && left > 3 && g_xtimeout > 0) r = externalCheck(q, syms, true, std::min(g_xtimeout, left), vals);
    return r;
}

Res solve(const std::vector<Ref> &cons, Ref cond, Model *base, Model *out) {
    g_ss.queries++;
    if (isConst(cond) && !constVal(cond)) { g_ss.unsat++; return Res::Unsat; }
    if (base) {
        bool ok = true; uint64_t v = evalExpr(cond, *base, ok);
        if (ok && v) { g_ss.modelHits++; g_ss.sat++; if (out) *out = *base; return Res::Sat; }
    }
    // slicing
    std::vector<Ref> q{ cond };
    uint32_t ss = N(cond).symset;
    std::vector<uint8_t> used(cons.size(), 0);
    std::unordered_set<uint32_t> have(symSet(ss).begin(), symSet(ss).end());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
            auto &v = symSet(N(cons[i]).symset);
            bool hit = v.empty();
            for (auto s : v) if (have.count(s)) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; q.push_back(cons[i]); for (auto s : v) have.insert(s); }
        }
    }
    std::sort(q.begin() + 1, q.end()); q.erase(std::unique(q.begin() + 1, q.end()), q.end());
    Canon cn; H128 h{ 1, 2 };
    for (Ref r : q) { H128 t = cn.go(r); h.a = mx(h.a, t.a, 5); h.b = mx(h.b, t.b, 7); }
    auto it = g_cache.find(h);
    CacheEnt e;
    if (it != g_cache.end()) { g_ss.cacheHits++; e = it->second; }
    else {
        e.r = solveSlice(q, cn.syms, e.vals);
        if (e.r != Res::Unknown || nowSec() < g_deadline - 5) g_cache[h] = e;
    }
    if (e.r == Res::Sat) {
        g_ss.sat++;
        if (out) { if (base) *out = *base; else *out = Model(); for (size_t i = 0; i < cn.syms.size(); i++) out->set(cn.syms[i], e.vals[i]); out->gen = 0; }
    } else if (e.r == Res::Unsat) g_ss.unsat++; else g_ss.unknown++;
    return e.r;
}
