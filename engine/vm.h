// vsx: symbolic executor for LLVM bitcode of the code under test.
#pragma once
#include "expr.h"
#include "solver.h"
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>

enum KOp : uint8_t {
    K_NOP, K_MOV, K_ADD, K_SUB, K_MUL, K_BIN, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_ICMP, K_FCMP, K_SELECT, K_SELECTV, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_BR, K_CONDBR, K_SWITCH, K_CALL, K_RET, K_UNREACHABLE,
    K_ZEXT, K_SEXT, K_TRUNC, K_FBIN, K_FNEG, K_FCAST, K_BITCAST, K_EXTRACTELT, K_INSERTELT, K_SHUFFLE, K_LANDINGPAD, K_RESUME,
    K_ATOMICRMW, K_CMPXCHG, K_FREEZE, K_ZERO
};
enum Pred : uint8_t { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };

struct MemPart { uint32_t off; uint16_t w; uint16_t slot; uint16_t bits; };  // off bytes, width in bits (slot value), bits = number of stored bits
struct PhiMove { int32_t dst, src; uint16_t n; };
struct Edge { uint32_t pc; uint32_t block; std::vector<PhiMove> moves; };
struct Func;
struct VM;
struct State;
struct KInst;
struct CallCtx;
enum NRes { NR_OK, NR_RETRY, NR_DEAD, NR_FRAME };   // RETRY: instruction will be executed again; FRAME: control was transferred
typedef NRes (*Native)(VM &, CallCtx &);

struct ArgInfo { int32_t op; uint16_t n; uint16_t w; uint32_t byval; };
struct CallInfo {
    Func *f = nullptr; Native nat = nullptr; int32_t fnOp = 0; bool indirect = false;
    std::vector<ArgInfo> args;
    uint16_t retSlots = 0; uint16_t retW = 0;
    bool invoke = false; Edge normal, unwind;
    std::string asmStr; unsigned lanes = 1, laneW = 0; unsigned nlanesRet = 1; std::string iname;
    unsigned argLaneW = 0;
    bool vararg = false;
};
struct GepInfo { int64_t off; std::vector<std::pair<int32_t, int64_t>> idx; std::vector<uint16_t> idxw; };
struct SwitchInfo { std::vector<uint64_t> vals; std::vector<Edge> edges; Edge def; };
struct BrInfo { Edge t, f; int mergeBlock = -1; };
struct LPInfo { bool cleanup = false; std::vector<std::pair<bool, uint64_t>> clauses; /* isCatch, typeinfo addr (0 = catch all) */ std::vector<std::vector<uint64_t>> filters; };
struct ShufInfo { std::vector<int> mask; unsigned n0; };

struct KInst {
    uint8_t op, sub; uint16_t w, n, w2;
    int32_t dst, a, b, c;
    void *aux;
};
struct Func {
    std::string name, dname;
    void *llvm = nullptr;
    uint64_t addr = 0;
    bool decl = true, compiled = false, noret = false;
    Native nat = nullptr;
    std::vector<KInst> code;
    std::vector<uint32_t> blockPc;
    std::vector<std::vector<std::pair<int32_t, int32_t>>> liveIn;  // per block (slot, n)
    bool liveDone = false;
    uint32_t nslots = 0, nargs = 0;
    std::vector<std::pair<uint32_t, uint16_t>> argSlots; // slot, n
    bool vararg = false;
    uint64_t calls = 0, icount = 0;
    int ownerKind = 0;    // 1: code under test
};

enum ObjKind : uint8_t { OK_GLOBAL, OK_FUNC, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_MMAP, OK_EXC, OK_RT };
struct MemObj {
    uint32_t rc; uint32_t id; uint64_t size; Ref symSize; uint8_t kind; bool freed, ro;
    uint8_t *data; uint32_t *sym; uint64_t cap;   // cap: bytes of backing storage (lazily grown for sparse objects)
    const char *tag;
};
enum : uint32_t { SYM_UNINIT = 1 };
static const int CHUNK = 128;
struct Chunk { uint32_t rc; MemObj *o[CHUNK]; };

struct Frame {
    Func *f; uint32_t pc; uint32_t regBase; int32_t retDst; uint16_t retSlots; CallInfo *call; // call: invoking call site (in the caller)
    std::vector<uint32_t> allocas;
    uint64_t va = 0;
    uint8_t onReturn = 0; // 1: thread entry
};
enum TStatus : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread {
    std::vector<Frame> frames;
    std::vector<Val> regs;
    TStatus st = T_RUN; uint64_t waitOn = 0, waitMutex = 0; int phase = 0; bool schedDone = false;
    uint64_t excPtr = 0; uint32_t excSel = 0; std::vector<uint64_t> caught;
    std::map<uint64_t, uint64_t> tls;
    std::vector<std::pair<uint64_t,uint64_t>> atexit;
};
struct Group { int live = 0; int refs = 0; std::vector<State *> parked; };
struct MergeRef { Group *g; int tid; size_t depth; uint32_t block; Func *f; };
struct InputRec { std::string name; uint32_t count, esize; uint32_t firstSym; bool choice; uint64_t add = 0; };
struct SchedRec { int nrun; int tid; Ref sym; };

struct State {
    std::vector<Chunk *> chunks;
    uint32_t nextId = 1;
    std::vector<uint32_t> freeStackIds;
    std::vector<Thread> threads;
    int cur = 0;
    std::vector<Ref> cons;
    std::vector<std::pair<uint32_t, uint64_t>> fixed;   // symbols pinned by the path condition
    Model model; bool modelOk = true; bool approx = false;
    std::vector<MergeRef> merge;
    std::vector<InputRec> inputs;
    std::vector<std::pair<int,int>> schedule;  // (switch point index, chosen tid)
    std::vector<Ref> schedSyms;
    uint32_t switchPoints = 0; int preemptions = 0; bool explore = false;
    uint64_t icount = 0; uint32_t forks = 0;
    uint32_t depthForks = 0;
    std::vector<uint64_t> condWaiters; // packed: tid list in order, parallel arrays
    std::map<uint64_t, uint64_t> kv;   // harness scratch
    int id = 0; bool dead = false;
    State() {}
    State(const State &);
    ~State();
    MemObj *obj(uint32_t id) const { uint32_t c = id / CHUNK; return c < chunks.size() && chunks[c] ? chunks[c]->o[id % CHUNK] : nullptr; }
    void setObj(uint32_t id, MemObj *o);
    MemObj *writable(uint32_t id);
    Thread &th() { return threads[cur]; }
    Frame &fr() { return threads[cur].frames.back(); }
};

struct CallCtx {
    State &s; KInst &ki; CallInfo &ci; Val *regs; Val *consts;
    Val *arg(unsigned i) { int32_t o = ci.args[i].op; return o >= 0 ? regs + o : consts + ~o; }
    unsigned nargs() { return (unsigned)ci.args.size(); }
    Val *ret() { return regs + ki.dst; }
    void setRet(const Val &v) { if (ki.dst >= 0 && ci.retSlots) regs[ki.dst] = v; }
};

struct Violation { std::string kind, msg, where; State *s; Model m; };

struct Options {
    std::string file, entry = "main", out;
    std::map<std::string, std::string> params;
    double maxTime = 300; uint64_t maxPaths = 1000000000, maxInsts = 4000000000ull; uint64_t maxPathInsts = 400000000; size_t maxMemMB = 3500;
    bool merge = true; int preempt = 0; bool explore = false; int maxViol = 1; bool verbose = false; bool trace = false; int switchAtomics = 0; bool lifo = true;
    uint64_t maxSched = 64;
    bool leakCheck = false;
    int symSched = 1;
};

struct VM {
    Options opt;
    std::vector<Val> consts;
    std::vector<Func *> funcs;               // by object id for function objects
    std::unordered_map<uint64_t, Func *> funcByAddr;
    std::unordered_map<std::string, Func *> funcByName;
    std::unordered_map<std::string, uint64_t> globalAddr;
    std::unordered_map<uint64_t, std::string> globalName;
    std::unordered_map<uint64_t, std::pair<uint64_t, bool>> tlsGlobals; // addr -> size
    State *init = nullptr;
    std::vector<State *> work;
    State *cur = nullptr;
    // results
    std::vector<std::string> violations, witness; // JSON
    std::map<std::string, uint64_t> covers, obligations;   // reached covers; assertion id -> times decided
    std::map<std::string, std::pair<uint64_t, double>> undecidedMsgs;
    uint64_t pathsDone = 0, pathsKilled = 0, forks = 0, insts = 0, merges = 0, mergeFail = 0, asserts = 0, assertsTrivial = 0, undecided = 0, resolveForks = 0, concretizations = 0, uninitReads = 0, switches = 0, maxThreads = 1, transitions = 0;
    std::set<std::string> incomplete;      // reasons
    std::map<std::string, uint64_t> notes;
    std::set<std::string> expectCovers;
    bool stop = false, keepDead = false;
    double t0 = 0;

    // loading (load.cpp)
    bool load(const std::string &file);
    void compile(Func *f);
    void computeLive(Func *f);
    std::vector<uint64_t> ctors;
    int32_t constSlot(const std::vector<Val> &v);

    // memory
    uint64_t alloc(State &s, uint64_t size, uint8_t kind, bool zero, const char *tag, Ref symSize = 0);
    bool freeObj(State &s, uint64_t addr, uint8_t kind, const char *what);   // false: state terminated
    bool load(State &s, Val addr, unsigned bytes, Val *out, unsigned w);      // false: retry/dead
    bool store(State &s, Val addr, unsigned bytes, Val v, unsigned w);
    bool checkRange(State &s, Val addr, uint64_t len, bool write, uint64_t *out);     // concrete result address range; false retry/dead
    Val loadObj(State &s, MemObj *o, uint64_t off, unsigned bytes);
    void storeObj(State &s, MemObj *o, uint64_t off, unsigned bytes, Val v);
    bool memcpyC(State &s, uint64_t d, uint64_t src, uint64_t n);
    void ensureCap(MemObj *o, uint64_t upto);
    void ensureSym(MemObj *o);
    bool resolve(State &s, Val addr, unsigned bytes, bool write, uint32_t *id, Ref *off); // id + symbolic offset, or offset 0 => concrete address in *out
    std::string readCStr(State &s, uint64_t addr, size_t lim = 4096, bool *sym = nullptr);
    void writeBytes(State &s, uint64_t addr, const void *p, size_t n);
    uint64_t read64(State &s, uint64_t addr);
    void write64(State &s, uint64_t addr, uint64_t v);
    uint32_t read32(State &s, uint64_t addr);
    void write32(State &s, uint64_t addr, uint32_t v);

    // control
    State *clone(State &s);
    void terminate(State &s);                   // removes the state from its groups and marks it finished
    void addCons(State &s, Ref c);
    int known(State &s, Ref c);                 // 1 true 0 false -1 unknown (syntactic)
    Res check(State &s, Ref cond, Model *out);  // satisfiability of path && cond
    // 1: must be true, 0: must be false, 2: both feasible; models of both sides may be returned
    int branch(State &s, Ref cond, Model *mt, Model *mf, bool *mtOk, bool *mfOk);
    int decide(State &s, Ref cond);             // forks if both; returns the side taken by s (1/0)
    bool concretize(State &s, Val &v, unsigned w, const char *why, uint64_t limit = 100000); // forks; v becomes concrete. false: dead
    void report(State &s, const std::string &kind, const std::string &msg, Ref cond = 0); // violation on this path (if feasible with cond)
    void kill(State &s, const std::string &why, bool incomplete);
    void run();
    void runState(State *s);
    void jump(State &s, Edge &e);
    bool checkMerge(State &s, uint32_t block);
    void leaveGroup(Group *g);
    void finalizeGroup(Group *g);
    bool tryMerge(State &a, State &b);
    void pushFrame(State &s, Func *f, CallInfo *ci, int32_t retDst, uint16_t retSlots, const std::vector<Val> &args, const std::vector<Val> &va);
    bool callFunc(State &s, KInst &ki, CallInfo &ci, Func *f, Val *R);
    void doReturn(State &s, Val *v, unsigned n);
    void popFrame(State &s);
    bool unwind(State &s);                       // raise thread's exception; false if terminated
    bool typeMatches(State &s, uint64_t thrown, uint64_t want);
    bool schedule(State &s, bool blocked);       // pick next thread; false if none (deadlock / finished)
    bool switchPoint(State &s);                  // returns false if the state switched to another thread (retry later)
    std::string stackTrace(State &s);
    std::string inputsJson(State &s, Model &m);
    void execLoop(State &s);
    bool alive = true;     // set false when the current state was terminated or parked
    bool yielded = false;  // thread switch happened, reload frame
};
extern VM *g_vm;
void registerNatives(VM &vm);
Native findNative(const std::string &name);
Native findIntrinsic(const std::string &name);
Native asmNative();
std::string jsonEsc(const std::string &s);
std::string demangle(const std::string &s);

// value helpers ---------------------------------------------------------------------------------
Val vBin(Op op, const Val &a, const Val &b, unsigned w);
static inline Val vAdd(const Val &a, const Val &b, unsigned w) { if (!(a.e | b.e)) return CV((a.c + b.c) & maskW(w)); return fromRef(mkBin(O_ADD, toRef(a, w), toRef(b, w))); }
static inline Val vSub(const Val &a, const Val &b, unsigned w) { if (!(a.e | b.e)) return CV((a.c - b.c) & maskW(w)); return fromRef(mkSub(toRef(a, w), toRef(b, w))); }
Val vIcmp(unsigned pred, const Val &a, const Val &b, unsigned w);
Val vIte(const Val &c, const Val &a, const Val &b, unsigned w);
Val vZext(const Val &a, unsigned w, unsigned nw);
Val vSext(const Val &a, unsigned w, unsigned nw);
Val vTrunc(const Val &a, unsigned w, unsigned nw);
Val vExtract(const Val &a, unsigned w, unsigned lo, unsigned nw);
Val vConcat(const Val &hi, unsigned wh, const Val &lo, unsigned wl);
Val vF(Op op, unsigned w, const Val &a, unsigned wa, const Val *b = nullptr, const Val *c = nullptr);
Val vFcmp(unsigned pred, const Val &a, const Val &b, unsigned w);
void vBitcast(const Val *src, unsigned sn, unsigned sw, Val *dst, unsigned dn, unsigned dw);
