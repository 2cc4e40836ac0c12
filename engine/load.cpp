// Translates LLVM bitcode into the engine's instruction arrays.
#include "vm.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/BitVector.h>
using namespace llvm;

static LLVMContext *ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;

static unsigned slotsOf(Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += slotsOf(e); return n; }
    if (auto *a = dyn_cast<ArrayType>(t)) return (unsigned)a->getNumElements() * slotsOf(a->getElementType());
    if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0;
    return 1;
}
static unsigned scalarW(Type *t) {
    if (auto *v = dyn_cast<FixedVectorType>(t)) t = v->getElementType();
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isHalfTy() || t->isBFloatTy()) return 16;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static void flatten(Type *t, uint64_t off, std::vector<MemPart> &out, uint16_t &slot) {
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + sl->getElementOffset(i), out, slot); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out, slot); return; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) {
        unsigned w = scalarW(v);
        for (unsigned i = 0; i < v->getNumElements(); i++) {
            if (w % 8) out.push_back({ (uint32_t)(off * 8 + i * w), (uint16_t)w, slot++, 0xffff });   // bit packed: off is a bit offset
            else out.push_back({ (uint32_t)(off + i * (w / 8)), (uint16_t)w, slot++, (uint16_t)w });
        }
        return;
    }
    unsigned w = scalarW(t);
    out.push_back({ (uint32_t)off, (uint16_t)w, slot++, (uint16_t)w });
}
static Val apVal(const APInt &a) {
    if (a.getBitWidth() <= 64) return CV(a.getZExtValue());
    std::vector<uint64_t> v(a.getRawData(), a.getRawData() + a.getNumWords());
    return Val{ 0, mkWide(v, a.getBitWidth()) };
}
static void constVals(VM &vm, const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<ConstantTokenNone>(c)) {
        unsigned n = slotsOf(t); unsigned w = scalarW(t);
        for (unsigned i = 0; i < n; i++) out.push_back(w > 64 ? Val{ 0, mkConst(0, w) } : CV(0));
        return;
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(apVal(ci->getValue())); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(apVal(cf->getValueAPF().bitcastToAPInt())); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(vm, cd->getElementAsConstant(i), out); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(vm, ca->getOperand(i), out); return; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) { constVals(vm, ga->getAliasee(), out); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = vm.globalAddr.find(gv->getName().str()); if (it == vm.globalAddr.end()) { errs() << "unknown global " << gv->getName() << "\n"; exit(3); } out.push_back(CV(it->second)); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); std::vector<Val> b; constVals(vm, cast<Constant>(ce->getOperand(0)), b); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; exit(3); } out.push_back(CV(b[0].c + off.getZExtValue())); return; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(vm, cast<Constant>(ce->getOperand(0)), out); return;
        case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: { constVals(vm, cast<Constant>(ce->getOperand(0)), out); out.back().c &= maskW(scalarW(t)); return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor: { std::vector<Val> a; constVals(vm, cast<Constant>(ce->getOperand(0)), a); constVals(vm, cast<Constant>(ce->getOperand(1)), a); uint64_t r = ce->getOpcode() == Instruction::Add ? a[0].c + a[1].c : ce->getOpcode() == Instruction::Sub ? a[0].c - a[1].c : a[0].c ^ a[1].c; out.push_back(CV(r & maskW(scalarW(t)))); return; }
        case Instruction::ICmp: { std::vector<Val> a; constVals(vm, cast<Constant>(ce->getOperand(0)), a); constVals(vm, cast<Constant>(ce->getOperand(1)), a); bool eq = a[0].c == a[1].c; out.push_back(CV(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq)); return; }
        default: break;
        }
    }
    errs() << "unsupported constant: "; c->print(errs()); errs() << "\n"; exit(3);
}
int32_t VM::constSlot(const std::vector<Val> &v) {
    static std::map<std::vector<std::pair<uint64_t, uint32_t>>, int32_t> memo;
    std::vector<std::pair<uint64_t, uint32_t>> k; for (auto &x : v) k.push_back({ x.c, x.e });
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    int32_t s = (int32_t)consts.size(); consts.insert(consts.end(), v.begin(), v.end());
    return memo[k] = ~s;
}
static void initGlobal(VM &vm, State &s, uint64_t addr, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { if (DL->getTypeAllocSize(cd->getElementType()) * cd->getNumElements() == cd->getRawDataValues().size()) { vm.writeBytes(s, addr, cd->getRawDataValues().data(), cd->getRawDataValues().size()); return; } }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(vm, s, addr + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(vm, s, addr + i * es, ca->getOperand(i)); return; }
    std::vector<Val> v; constVals(vm, c, v);
    std::vector<MemPart> mp; uint16_t sl = 0; flatten(c->getType(), 0, mp, sl);
    for (auto &p : mp) { MemObj *o = s.writable((uint32_t)(addr >> 32)); vm.storeObj(s, o, (addr & 0xffffffff) + p.off, (p.w + 7) / 8, v[p.slot]); }
}

struct FnMap { DenseMap<const Value *, uint32_t> slot; DenseMap<const BasicBlock *, uint32_t> bid; };
static std::unordered_map<Func *, FnMap *> g_fm;

bool VM::load(const std::string &file) {
    ctx = new LLVMContext; SMDiagnostic err;
    mod = parseIRFile(file, err, *ctx);
    if (!mod) { err.print("vsx", errs()); return false; }
    DL = &mod->getDataLayout();
    init = new State;
    State &s = *init;
    s.threads.emplace_back();
    funcs.push_back(nullptr);
    // functions
    for (auto &F : *mod) {
        Func *f = new Func; f->name = F.getName().str(); f->dname = demangle(f->name); f->llvm = &F; f->decl = F.isDeclaration(); f->vararg = F.isVarArg(); f->noret = F.doesNotReturn();
        f->addr = alloc(s, 1, OK_FUNC, true, "function");
        funcByAddr[f->addr] = f; funcByName[f->name] = f; globalAddr[f->name] = f->addr; globalName[f->addr] = f->name;
        if (!F.isIntrinsic()) { f->nat = findNative(f->name); if (f->nat && !F.isDeclaration() && f->name.compare(0, 2, "dl") == 0) f->nat = nullptr; }
        if (F.hasExternalWeakLinkage() && F.isDeclaration() && !f->nat) globalAddr[f->name] = 0;
    }
    for (auto &G : mod->globals()) {
        uint64_t sz = 0; std::string nm = G.getName().str();
        if (G.getValueType()->isSized()) sz = DL->getTypeAllocSize(G.getValueType());
        if (G.isDeclaration() && sz < 64) sz = 256;
        uint64_t a = alloc(s, sz ? sz : 1, OK_GLOBAL, true, "global");
        globalAddr[nm] = a; globalName[a] = nm;
        if (G.isThreadLocal()) tlsGlobals[a] = { sz, true };
    }
    for (auto &A : mod->aliases()) { std::vector<Val> v; if (auto *gv = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) { auto it = globalAddr.find(gv->getName().str()); if (it != globalAddr.end()) { globalAddr[A.getName().str()] = it->second; auto fi = funcByAddr.find(it->second); if (fi != funcByAddr.end()) funcByName[A.getName().str()] = fi->second; } } }
    for (auto &G : mod->globals()) if (G.hasInitializer()) initGlobal(*this, s, globalAddr[G.getName().str()], G.getInitializer());
    for (auto &G : mod->globals()) if (G.isConstant() && G.hasInitializer()) s.writable((uint32_t)(globalAddr[G.getName().str()] >> 32))->ro = true;
    if (auto *G = mod->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(G->getInitializer())) {
        std::vector<std::pair<uint64_t, uint64_t>> v;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *st = cast<ConstantStruct>(ca->getOperand(i)); if (isa<ConstantPointerNull>(st->getOperand(1))) continue; v.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), globalAddr[st->getOperand(1)->getName().str()] }); }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &x : v) ctors.push_back(x.second);
    }
    return true;
}

static unsigned fpred(CmpInst::Predicate p) { return (unsigned)p; }
static uint8_t ipred(CmpInst::Predicate p) {
    switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE; case CmpInst::ICMP_UGT: return P_UGT; case CmpInst::ICMP_UGE: return P_UGE; case CmpInst::ICMP_SLT: return P_SLT; case CmpInst::ICMP_SLE: return P_SLE; case CmpInst::ICMP_SGT: return P_SGT; default: return P_SGE; }
}
void VM::compile(Func *f) {
    if (f->compiled) return;
    f->compiled = true;
    Function &F = *(Function *)f->llvm;
    FnMap *fm = new FnMap; g_fm[f] = fm;
    uint32_t ns = 0;
    for (auto &A : F.args()) { unsigned n = slotsOf(A.getType()); f->argSlots.push_back({ ns, (uint16_t)n }); fm->slot[&A] = ns; ns += n; }
    f->nargs = (uint32_t)F.arg_size();
    uint32_t bi = 0;
    for (auto &B : F) { fm->bid[&B] = bi++; for (auto &I : B) { unsigned n = slotsOf(I.getType()); if (n) { fm->slot[&I] = ns; ns += n; } } }
    f->nslots = ns;
    DominatorTree DT(F); LoopInfo LI(DT); PostDominatorTree PDT(F);
    auto op = [&](const Value *v) -> int32_t {
        if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(*this, c, vs); if (vs.empty()) vs.push_back(CV(0)); return constSlot(vs); }
        auto it = fm->slot.find(v); if (it == fm->slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constSlot({ CV(0) }); errs() << "no slot: "; v->print(errs()); errs() << "\n"; exit(3); }
        return (int32_t)it->second;
    };
    struct Fix { Edge *e; const BasicBlock *bb; };
    std::vector<Fix> fixes;
    auto edge = [&](Edge &e, const BasicBlock *from, const BasicBlock *to) {
        for (auto &phi : to->phis()) { const Value *v = phi.getIncomingValueForBlock(from); unsigned n = slotsOf(phi.getType()); if (isa<UndefValue>(v)) { } e.moves.push_back({ (int32_t)fm->slot[&phi], op(v), (uint16_t)n }); }
        e.block = fm->bid[to];
        fixes.push_back({ &e, to });
    };
    f->blockPc.resize(bi);
    for (auto &B : F) {
        f->blockPc[fm->bid[&B]] = (uint32_t)f->code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            KInst k; memset(&k, 0, sizeof k); k.dst = -1; k.a = k.b = k.c = -1;
            unsigned n = slotsOf(I.getType());
            if (n) k.dst = (int32_t)fm->slot[&I];
            k.n = (uint16_t)n; k.w = (uint16_t)scalarW(I.getType());
            auto bin = [&](KOp o) { k.op = o; k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1)); };
            switch (I.getOpcode()) {
            case Instruction::Ret: k.op = K_RET; if (I.getNumOperands()) { k.a = op(I.getOperand(0)); k.n = (uint16_t)slotsOf(I.getOperand(0)->getType()); } else k.n = 0; break;
            case Instruction::Br: {
                auto &br = cast<BranchInst>(I); auto *bi2 = new BrInfo; k.aux = bi2;
                if (br.isUnconditional()) { k.op = K_BR; edge(bi2->t, &B, br.getSuccessor(0)); }
                else {
                    k.op = K_CONDBR; k.a = op(br.getCondition()); edge(bi2->t, &B, br.getSuccessor(0)); edge(bi2->f, &B, br.getSuccessor(1));
                    if (auto *nd = PDT.getNode(&B)) if (auto *id = nd->getIDom()) if (auto *bb = id->getBlock()) {
                        bool exitBr = false;
                        if (auto *L = LI.getLoopFor(&B)) exitBr = !L->contains(br.getSuccessor(0)) || !L->contains(br.getSuccessor(1));
                        if (!exitBr) bi2->mergeBlock = (int)fm->bid[bb];
                    }
                }
                break; }
            case Instruction::Switch: {
                auto &sw = cast<SwitchInst>(I); k.op = K_SWITCH; k.a = op(sw.getCondition()); k.w = (uint16_t)scalarW(sw.getCondition()->getType());
                auto *si = new SwitchInfo; k.aux = si;
                si->edges.resize(sw.getNumCases()); unsigned x = 0;
                for (auto &c : sw.cases()) { si->vals.push_back(c.getCaseValue()->getZExtValue()); edge(si->edges[x++], &B, c.getCaseSuccessor()); }
                edge(si->def, &B, sw.getDefaultDest());
                break; }
            case Instruction::Unreachable: k.op = K_UNREACHABLE; break;
            case Instruction::Resume: k.op = K_RESUME; k.a = op(I.getOperand(0)); break;
            case Instruction::LandingPad: {
                auto &lp = cast<LandingPadInst>(I); k.op = K_LANDINGPAD; auto *li = new LPInfo; k.aux = li; li->cleanup = lp.isCleanup();
                for (unsigned i = 0; i < lp.getNumClauses(); i++) {
                    std::vector<Val> v; constVals(*this, lp.getClause(i), v);
                    if (lp.isCatch(i)) li->clauses.push_back({ true, v[0].c });
                    else { li->clauses.push_back({ false, li->filters.size() }); std::vector<uint64_t> fl; for (auto &x : v) fl.push_back(x.c); li->filters.push_back(fl); }
                }
                break; }
            case Instruction::Add: bin(K_ADD); break;
            case Instruction::Sub: bin(K_SUB); break;
            case Instruction::Mul: bin(K_MUL); break;
            case Instruction::And: bin(K_AND); break;
            case Instruction::Or: bin(K_OR); break;
            case Instruction::Xor: bin(K_XOR); break;
            case Instruction::Shl: bin(K_SHL); break;
            case Instruction::LShr: bin(K_LSHR); break;
            case Instruction::AShr: bin(K_ASHR); break;
            case Instruction::UDiv: bin(K_UDIV); break;
            case Instruction::SDiv: bin(K_SDIV); break;
            case Instruction::URem: bin(K_UREM); break;
            case Instruction::SRem: bin(K_SREM); break;
            case Instruction::FAdd: bin(K_FBIN); k.sub = O_FADD; break;
            case Instruction::FSub: bin(K_FBIN); k.sub = O_FSUB; break;
            case Instruction::FMul: bin(K_FBIN); k.sub = O_FMUL; break;
            case Instruction::FDiv: bin(K_FBIN); k.sub = O_FDIV; break;
            case Instruction::FRem: bin(K_FBIN); k.sub = O_FREM; break;
            case Instruction::FNeg: k.op = K_FNEG; k.a = op(I.getOperand(0)); break;
            case Instruction::ICmp: bin(K_ICMP); k.sub = ipred(cast<ICmpInst>(I).getPredicate()); k.w = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::FCmp: bin(K_FCMP); k.sub = (uint8_t)fpred(cast<FCmpInst>(I).getPredicate()); k.w = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::Select: {
                k.op = I.getOperand(0)->getType()->isVectorTy() ? K_SELECTV : K_SELECT; k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1)); k.c = op(I.getOperand(2));
                if (!k.w) { // aggregate select: per-slot widths
                    auto *mp = new std::vector<MemPart>; uint16_t sl = 0; flatten(I.getType(), 0, *mp, sl); k.aux = mp;
                }
                break; }
            case Instruction::Alloca: {
                auto &al = cast<AllocaInst>(I); k.op = K_ALLOCA; k.aux = (void *)(uintptr_t)DL->getTypeAllocSize(al.getAllocatedType()); k.a = op(al.getArraySize()); k.w2 = (uint16_t)scalarW(al.getArraySize()->getType()); break; }
            case Instruction::Load: case Instruction::Store: {
                bool st = isa<StoreInst>(I); Type *t = st ? I.getOperand(0)->getType() : I.getType();
                k.op = st ? K_STORE : K_LOAD; k.a = op(I.getOperand(st ? 1 : 0)); if (st) k.b = op(I.getOperand(0));
                k.w = (uint16_t)scalarW(t); k.n = (uint16_t)slotsOf(t);
                k.c = (int32_t)DL->getTypeStoreSize(t);
                if (!(k.n == 1 && !t->isStructTy() && !t->isArrayTy() && !t->isVectorTy())) { auto *mp = new std::vector<MemPart>; uint16_t sl = 0; flatten(t, 0, *mp, sl); k.aux = mp; }
                k.sub = I.isAtomic();
                break; }
            case Instruction::GetElementPtr: {
                k.op = K_GEP; auto *gi = new GepInfo; gi->off = 0; k.aux = gi; k.a = op(I.getOperand(0));
                if (I.getType()->isVectorTy()) { errs() << "vector gep unsupported in " << f->name << "\n"; exit(3); }
                for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
                    Value *x = it.getOperand();
                    if (auto *stt = it.getStructTypeOrNull()) { gi->off += (int64_t)DL->getStructLayout(stt)->getElementOffset((unsigned)cast<ConstantInt>(x)->getZExtValue()); continue; }
                    int64_t es = (int64_t)DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(x)) gi->off += ci->getSExtValue() * es;
                    else { gi->idx.push_back({ op(x), es }); gi->idxw.push_back((uint16_t)scalarW(x->getType())); }
                }
                break; }
            case Instruction::ZExt: k.op = K_ZEXT; k.a = op(I.getOperand(0)); k.w2 = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::SExt: k.op = K_SEXT; k.a = op(I.getOperand(0)); k.w2 = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::Trunc: k.op = K_TRUNC; k.a = op(I.getOperand(0)); k.w2 = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::IntToPtr: case Instruction::PtrToInt: {
                unsigned ws = scalarW(I.getOperand(0)->getType()); k.a = op(I.getOperand(0)); k.w2 = (uint16_t)ws;
                k.op = ws == k.w ? K_MOV : ws < k.w ? K_ZEXT : K_TRUNC; break; }
            case Instruction::AddrSpaceCast: case Instruction::Freeze: k.op = K_MOV; k.a = op(I.getOperand(0)); break;
            case Instruction::BitCast: {
                Type *st = I.getOperand(0)->getType(); k.a = op(I.getOperand(0));
                if (slotsOf(st) == k.n) k.op = K_MOV; else { k.op = K_BITCAST; k.w2 = (uint16_t)scalarW(st); k.c = (int32_t)slotsOf(st); }
                break; }
            case Instruction::FPToSI: k.sub = O_FPTOSI; goto fcast;
            case Instruction::FPToUI: k.sub = O_FPTOUI; goto fcast;
            case Instruction::SIToFP: k.sub = O_SITOFP; goto fcast;
            case Instruction::UIToFP: k.sub = O_UITOFP; goto fcast;
            case Instruction::FPExt: k.sub = O_FPEXT; if (scalarW(I.getOperand(0)->getType()) == 16) k.sub = O_F16TOF32; goto fcast;
            case Instruction::FPTrunc: k.sub = O_FPTRUNC; if (k.w == 16) k.sub = O_F32TOF16; goto fcast;
            fcast: k.op = K_FCAST; k.a = op(I.getOperand(0)); k.w2 = (uint16_t)scalarW(I.getOperand(0)->getType()); break;
            case Instruction::ExtractElement: k.op = K_EXTRACTELT; k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1)); k.w2 = (uint16_t)scalarW(I.getOperand(1)->getType()); k.c = (int32_t)slotsOf(I.getOperand(0)->getType()); break;
            case Instruction::InsertElement: k.op = K_INSERTELT; k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1)); k.c = op(I.getOperand(2)); k.w2 = (uint16_t)scalarW(I.getOperand(2)->getType()); break;
            case Instruction::ShuffleVector: {
                auto &sv = cast<ShuffleVectorInst>(I); k.op = K_SHUFFLE; auto *si = new ShufInfo; k.aux = si; k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1));
                si->n0 = slotsOf(I.getOperand(0)->getType()); for (int m : sv.getShuffleMask()) si->mask.push_back(m); break; }
            case Instruction::ExtractValue: {
                auto &ev = cast<ExtractValueInst>(I); Type *t = ev.getAggregateOperand()->getType(); unsigned off = 0;
                for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } }
                int32_t a = op(ev.getAggregateOperand()); k.op = K_MOV; k.a = a >= 0 ? a + (int32_t)off : ~(~a + (int32_t)off); break; }
            case Instruction::InsertValue: {
                auto &iv = cast<InsertValueInst>(I); Type *t = iv.getType(); unsigned off = 0;
                for (unsigned ix : iv.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * slotsOf(at->getElementType()); t = at->getElementType(); } }
                k.op = K_MOV; k.a = op(iv.getAggregateOperand()); f->code.push_back(k);
                KInst k2 = k; k2.a = op(iv.getInsertedValueOperand()); k2.dst = k.dst + (int32_t)off; k2.n = (uint16_t)slotsOf(iv.getInsertedValueOperand()->getType()); f->code.push_back(k2);
                continue; }
            case Instruction::Fence: k.op = K_NOP; break;
            case Instruction::AtomicRMW: {
                auto &rm = cast<AtomicRMWInst>(I); k.op = K_ATOMICRMW; k.sub = (uint8_t)rm.getOperation(); k.a = op(rm.getPointerOperand()); k.b = op(rm.getValOperand()); break; }
            case Instruction::AtomicCmpXchg: {
                auto &cx = cast<AtomicCmpXchgInst>(I); k.op = K_CMPXCHG; k.a = op(cx.getPointerOperand()); k.b = op(cx.getCompareOperand()); k.c = op(cx.getNewValOperand()); k.w = (uint16_t)scalarW(cx.getCompareOperand()->getType()); break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto &cb = cast<CallBase>(I);
                Function *cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
                if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
                if (cf && cf->isIntrinsic()) {
                    StringRef nm = cf->getName();
                    if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.va_end") || nm.starts_with("llvm.sideeffect") || nm.starts_with("llvm.donothing")) continue;
                    if (nm.starts_with("llvm.expect") || nm.starts_with("llvm.launder") || nm.starts_with("llvm.strip.invariant")) { k.op = K_MOV; k.a = op(cb.getArgOperand(0)); break; }
                }
                auto *ci = new CallInfo; k.aux = ci; k.op = K_CALL;
                ci->retSlots = k.n; ci->retW = k.w;
                if (cb.isInlineAsm()) { ci->asmStr = cast<InlineAsm>(cb.getCalledOperand())->getAsmString(); ci->nat = asmNative(); ci->iname = ci->asmStr; }
                else if (cf) {
                    ci->f = funcByName[cf->getName().str()]; ci->iname = cf->getName().str();
                    if (cf->isIntrinsic()) { ci->nat = findIntrinsic(ci->iname); if (!ci->nat) { errs() << "unsupported intrinsic " << ci->iname << " in " << f->name << "\n"; } }
                    else if (ci->f->nat) ci->nat = ci->f->nat;
                } else { ci->indirect = true; ci->fnOp = op(cb.getCalledOperand()); ci->iname = "indirect"; }
                ci->vararg = cb.getFunctionType()->isVarArg();
                for (unsigned i = 0; i < cb.arg_size(); i++) {
                    Value *av = cb.getArgOperand(i); ArgInfo ai; ai.n = (uint16_t)slotsOf(av->getType()); ai.w = (uint16_t)scalarW(av->getType()); ai.byval = 0;
                    if (cb.isByValArgument(i)) ai.byval = (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(i));
                    ai.op = ai.n ? op(av) : constSlot({ CV(0) });
                    ci->args.push_back(ai);
                }
                if (cb.arg_size()) ci->argLaneW = scalarW(cb.getArgOperand(0)->getType());
                if (auto *inv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; edge(ci->normal, &B, inv->getNormalDest()); edge(ci->unwind, &B, inv->getUnwindDest()); }
                break; }
            default: errs() << "unsupported instruction in " << f->name << ": "; I.print(errs()); errs() << "\n"; k.op = K_UNREACHABLE; k.sub = 1; break;
            }
            f->code.push_back(k);
        }
    }
    for (auto &x : fixes) x.e->pc = f->blockPc[fm->bid[x.bb]];
}

void VM::computeLive(Func *f) {
    if (f->liveDone) return;
    f->liveDone = true;
    Function &F = *(Function *)f->llvm; FnMap *fm = g_fm[f];
    // number values
    DenseMap<const Value *, unsigned> id; std::vector<const Value *> vals;
    for (auto &A : F.args()) { id[&A] = (unsigned)vals.size(); vals.push_back(&A); }
    for (auto &B : F) for (auto &I : B) if (slotsOf(I.getType())) { id[&I] = (unsigned)vals.size(); vals.push_back(&I); }
    unsigned nb = (unsigned)f->blockPc.size(), nv = (unsigned)vals.size();
    std::vector<BitVector> use(nb, BitVector(nv)), def(nb, BitVector(nv)), in(nb, BitVector(nv)), out(nb, BitVector(nv)), phis(nb, BitVector(nv));
    for (auto &B : F) {
        unsigned b = fm->bid[&B];
        for (auto &I : B) {
            if (isa<PHINode>(I)) { phis[b].set(id[&I]); def[b].set(id[&I]); continue; }
            for (auto &o : I.operands()) { auto it = id.find(o.get()); if (it != id.end() && !def[b].test(it->second)) use[b].set(it->second); }
            auto it = id.find(&I); if (it != id.end()) def[b].set(it->second);
        }
    }
    bool ch = true;
    std::vector<const BasicBlock *> order; for (auto &B : F) order.push_back(&B);
    while (ch) {
        ch = false;
        for (size_t i = order.size(); i--;) {
            auto *B = order[i]; unsigned b = fm->bid[B];
            BitVector o(nv);
            for (auto *S : successors(B)) { o |= in[fm->bid[S]]; for (auto &p : S->phis()) { auto it = id.find(p.getIncomingValueForBlock(B)); if (it != id.end()) o.set(it->second); } }
            BitVector n = o; n.reset(def[b]); n |= use[b];
            if (o != out[b] || n != in[b]) { ch = true; out[b] = o; in[b] = n; }
        }
    }
    f->liveIn.resize(nb);
    for (unsigned b = 0; b < nb; b++) { BitVector l = in[b]; l |= phis[b]; for (unsigned v : l.set_bits()) f->liveIn[b].push_back({ (int32_t)fm->slot[vals[v]], (int32_t)slotsOf(vals[v]->getType()) }); }
}

void phiWidths(Func *f, std::vector<uint16_t> &v) {
    Function &F = *(Function *)f->llvm; FnMap *fm = g_fm[f];
    for (auto &B : F) for (auto &P : B.phis()) { unsigned w = scalarW(P.getType()), n = slotsOf(P.getType()), sl = fm->slot[&P]; if (w) for (unsigned i = 0; i < n; i++) v[sl + i] = (uint16_t)w; }
    unsigned x = 0; for (auto &A : F.args()) { unsigned w = scalarW(A.getType()), n = slotsOf(A.getType()); if (w) for (unsigned i = 0; i < n; i++) v[x + i] = (uint16_t)w; x += n; }
}
