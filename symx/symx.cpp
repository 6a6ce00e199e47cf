// symx: path-wise symbolic executor for LLVM-18 bitcode, SMT back end z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/Path.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <algorithm>
#include <functional>
using namespace llvm;
typedef std::vector<u64> Model;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static std::string optEntry = "harness", optOut = "symx.out", optRepo = "";
static int optJobs = 8, optSamples = 40, optSeed = 1, optMaxViolPerLoc = 3; static bool optNoDomain = false, optVerbose = false, optTraceFork = false;
static double optTime = 600; static u64 optMaxInst = 20000000ULL; static u64 optRlimit = 60000000; static u64 optMemMB = 3500;
static double tEnd, tStart;

struct Shared { volatile int active; volatile int stop; volatile u64 paths, viol; volatile int nextpid; volatile int rr; };
static Shared *sh;

// ---------------------------------------------------------------- statistics (per process)
static struct Stats {
  u64 completed = 0, assumed_out = 0, errors = 0, inconclusive = 0, forks = 0, insts = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, qcvc5 = 0, cachehits = 0, domdec = 0, modeldec = 0;
  u64 xchecks = 0; double xt = 0; u64 asserts_sym = 0, asserts_const = 0, unexplored = 0; double zt = 0;
} S;
static std::map<std::string, u64> g_cover;
static std::set<std::string> g_funcs;
static std::map<std::string, u64> g_inconcl;

// ---------------------------------------------------------------- z3
static Z3_context zc; static Z3_solver zs, zsfp;
static bool zfpSeen;
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(zc) : Z3_mk_fpa_sort_64(zc); }
static Z3_ast toZ(E e);
static Z3_ast zfp(E e) { return Z3_mk_fpa_to_fp_bv(zc, toZ(e), fps(e->w)); }
static Z3_ast zb(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)), Z3_mk_unsigned_int64(zc, 0, Z3_mk_bv_sort(zc, 1))); }
static std::unordered_map<u32, bool> g_hasfp;
static bool hasFP(E e) {
  if (e->k >= KFAdd) return true; if (e->k <= KVar) return false;
  auto it = g_hasfp.find(e->id); if (it != g_hasfp.end()) return it->second;
  bool r = (e->a && hasFP(e->a)) || (e->b && hasFP(e->b)) || (e->c && hasFP(e->c));
  return g_hasfp[e->id] = r;
}
static Z3_ast toZb(E e); // boolean view of a 1-bit expression
static std::unordered_map<u32, Z3_ast> g_zb;
static Z3_ast toZ(E e) {
  if (e->z) return e->z;
  Z3_ast r = 0;
  switch (e->k) {
  case KConst: r = Z3_mk_unsigned_int64(zc, e->val, Z3_mk_bv_sort(zc, e->w)); break;
  case KVar: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->val), Z3_mk_bv_sort(zc, e->w)); break;
  case KAdd: r = Z3_mk_bvadd(zc, toZ(e->a), toZ(e->b)); break;
  case KSub: r = Z3_mk_bvsub(zc, toZ(e->a), toZ(e->b)); break;
  case KMul: r = Z3_mk_bvmul(zc, toZ(e->a), toZ(e->b)); break;
  case KUDiv: r = Z3_mk_bvudiv(zc, toZ(e->a), toZ(e->b)); break;
  case KSDiv: r = Z3_mk_bvsdiv(zc, toZ(e->a), toZ(e->b)); break;
  case KURem: r = Z3_mk_bvurem(zc, toZ(e->a), toZ(e->b)); break;
  case KSRem: r = Z3_mk_bvsrem(zc, toZ(e->a), toZ(e->b)); break;
  case KAnd: if (e->w == 1) { r = zb(toZb(e)); break; } r = Z3_mk_bvand(zc, toZ(e->a), toZ(e->b)); break;
  case KOr: if (e->w == 1) { r = zb(toZb(e)); break; } r = Z3_mk_bvor(zc, toZ(e->a), toZ(e->b)); break;
  case KXor: if (e->w == 1) { r = zb(toZb(e)); break; } r = Z3_mk_bvxor(zc, toZ(e->a), toZ(e->b)); break;
  case KShl: r = Z3_mk_bvshl(zc, toZ(e->a), toZ(e->b)); break;
  case KLShr: r = Z3_mk_bvlshr(zc, toZ(e->a), toZ(e->b)); break;
  case KAShr: r = Z3_mk_bvashr(zc, toZ(e->a), toZ(e->b)); break;
  case KIte: r = Z3_mk_ite(zc, toZb(e->a), toZ(e->b), toZ(e->c)); break;
  case KConcat: r = Z3_mk_concat(zc, toZ(e->a), toZ(e->b)); break;
  case KExtract: r = Z3_mk_extract(zc, e->val + e->w - 1, e->val, toZ(e->a)); break;
  case KZExt: r = Z3_mk_zero_ext(zc, e->w - e->a->w, toZ(e->a)); break;
  case KSExt: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toZ(e->a)); break;
  case KFAdd: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_add(zc, Z3_mk_fpa_rne(zc), zfp(e->a), zfp(e->b))); break;
  case KFSub: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sub(zc, Z3_mk_fpa_rne(zc), zfp(e->a), zfp(e->b))); break;
  case KFMul: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_mul(zc, Z3_mk_fpa_rne(zc), zfp(e->a), zfp(e->b))); break;
  case KFDiv: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_div(zc, Z3_mk_fpa_rne(zc), zfp(e->a), zfp(e->b))); break;
  case KFSqrt: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sqrt(zc, Z3_mk_fpa_rne(zc), zfp(e->a))); break;
  case KFPExt: case KFPTrunc: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_float(zc, Z3_mk_fpa_rne(zc), zfp(e->a), fps(e->w))); break;
  case KSIToFP: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_signed(zc, Z3_mk_fpa_rne(zc), toZ(e->a), fps(e->w))); break;
  case KUIToFP: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_unsigned(zc, Z3_mk_fpa_rne(zc), toZ(e->a), fps(e->w))); break;
  case KFPToSI: r = Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), zfp(e->a), e->w); break;
  case KFPToUI: r = Z3_mk_fpa_to_ubv(zc, Z3_mk_fpa_rtz(zc), zfp(e->a), e->w); break;
  default: r = zb(toZb(e)); break;
  }
  e->z = r; return r;
}
static Z3_ast toZb(E e) {
  auto it = g_zb.find(e->id); if (it != g_zb.end()) return it->second;
  Z3_ast r, t[2];
  switch (e->k) {
  case KConst: r = e->val ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
  case KAnd: t[0] = toZb(e->a); t[1] = toZb(e->b); r = Z3_mk_and(zc, 2, t); break;
  case KOr: t[0] = toZb(e->a); t[1] = toZb(e->b); r = Z3_mk_or(zc, 2, t); break;
  case KXor: if (isC(e->b, 1)) r = Z3_mk_not(zc, toZb(e->a)); else r = Z3_mk_xor(zc, toZb(e->a), toZb(e->b)); break;
  case KIte: r = Z3_mk_ite(zc, toZb(e->a), toZb(e->b), toZb(e->c)); break;
  case KEq: if (e->a->w == 1) r = Z3_mk_iff(zc, toZb(e->a), toZb(e->b)); else r = Z3_mk_eq(zc, toZ(e->a), toZ(e->b)); break;
  case KUlt: r = Z3_mk_bvult(zc, toZ(e->a), toZ(e->b)); break;
  case KUle: r = Z3_mk_bvule(zc, toZ(e->a), toZ(e->b)); break;
  case KSlt: r = Z3_mk_bvslt(zc, toZ(e->a), toZ(e->b)); break;
  case KSle: r = Z3_mk_bvsle(zc, toZ(e->a), toZ(e->b)); break;
  case KFOeq: r = Z3_mk_fpa_eq(zc, zfp(e->a), zfp(e->b)); break;
  case KFOlt: r = Z3_mk_fpa_lt(zc, zfp(e->a), zfp(e->b)); break;
  case KFOle: r = Z3_mk_fpa_leq(zc, zfp(e->a), zfp(e->b)); break;
  case KFUno: t[0] = Z3_mk_fpa_is_nan(zc, zfp(e->a)); t[1] = Z3_mk_fpa_is_nan(zc, zfp(e->b)); r = Z3_mk_or(zc, 2, t); break;
  default: r = Z3_mk_eq(zc, toZ(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); break;
  }
  g_zb[e->id] = r; return r;
}

// ---------------------------------------------------------------- memory
struct ObjData { int rc; bool ro; u8 kind; u32 size; std::vector<E> b; std::string name; u64 allocSite; };
enum { OGlobal, OStack, OHeap };
static ObjData *newObj(u32 size, u8 kind, bool zero) { ObjData *o = new ObjData; o->rc = 1; o->ro = false; o->kind = kind; o->size = size; o->b.assign(size, zero ? mkConst(0, 8) : nullptr); o->allocSite = 0; return o; }
struct MemEnt { u64 base; u32 size; u8 kind; bool freed; ObjData *o; };
static const u64 GAP = 4096;
static std::vector<MemEnt> g_rom; static u64 g_romNext = 0x1000000ULL; static const u64 HEAP0 = 0x100000000ULL; static const int ROMBIT = 1 << 30;
struct Memory {
  std::vector<MemEnt> v; u64 next = HEAP0;
  MemEnt &at(int i) { return i & ROMBIT ? g_rom[i & ~ROMBIT] : v[i]; }
  Memory() {}
  Memory(const Memory &m) : v(m.v), next(m.next) { for (auto &e : v) if (e.o) e.o->rc++; }
  Memory &operator=(const Memory &) = delete;
  ~Memory() { for (auto &e : v) if (e.o && --e.o->rc == 0) delete e.o; }
  u64 add(ObjData *o) { u64 b = next; next += ((u64)o->size + GAP + 31) & ~15ULL; v.push_back({b, o->size, o->kind, false, o}); return b; }
  int find(u64 a) const { // entry with base <= a, or -1
    bool rom = a < HEAP0 - GAP; const std::vector<MemEnt> &t = rom ? g_rom : v;
    int lo = 0, hi = (int)t.size() - 1, r = -1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (t[m].base <= a) { r = m; lo = m + 1; } else hi = m - 1; }
    return r < 0 ? -1 : rom ? r | ROMBIT : r;
  }
  ObjData *wr(int i) { if (i & ROMBIT) return g_rom[i & ~ROMBIT].o; ObjData *o = v[i].o; if (o->rc > 1) { ObjData *n = new ObjData(*o); n->rc = 1; o->rc--; v[i].o = n; return n; } return o; }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot; E c; };
struct PhiMove { int dst; Opnd src; };
struct Edge { int blk; std::vector<PhiMove> mv; };
struct DInst {
  unsigned op; unsigned sub; int dst; int ndst; unsigned w; unsigned w2; Opnd a, b, c; std::vector<Opnd> args; std::vector<int> argn; std::vector<Edge> edges; std::vector<u64> cases; u64 imm; Instruction *I; Function *callee; int intr; Type *ty;
  std::vector<std::pair<Opnd, std::pair<u64, unsigned>>> gep;
};
struct DBlock { std::vector<DInst> in; };
struct DFunc { Function *F; std::vector<DBlock> bl; int nslots; bool repo; std::vector<int> argslot; int nargleaves; std::string name; };
static std::unordered_map<Function *, DFunc *> g_dec;
static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> g_addr;
static std::unordered_map<u64, Function *> g_faddr;
static int intrinsicId(Function *F);

static int leaves(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *ST = dyn_cast<StructType>(T)) { int n = 0; for (auto *e : ST->elements()) n += leaves(e); return n; }
  if (auto *AT = dyn_cast<ArrayType>(T)) return leaves(AT->getElementType()) * AT->getNumElements();
  return 1;
}
static unsigned scalarW(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; return 0;
}
static int leafIndex(Type *T, ArrayRef<unsigned> idx) {
  int r = 0;
  for (unsigned i : idx) {
    if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) r += leaves(ST->getElementType(k)); T = ST->getElementType(i); }
    else { auto *AT = cast<ArrayType>(T); r += i * leaves(AT->getElementType()); T = AT->getElementType(); }
  }
  return r;
}
static E constScalar(Constant *C);
static void constLeaves(Constant *C, std::vector<E> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out);
  } else out.push_back(constScalar(C));
}
static void die(const std::string &m) { fprintf(stderr, "symx: fatal: %s\n", m.c_str()); exit(3); }
static std::string vstr(const Value *V) { std::string s; raw_string_ostream o(s); V->print(o); return s; }
static E constScalar(Constant *C) {
  unsigned w = scalarW(C->getType());
  if (!w || w > 64) die("constant type " + vstr(C));
  if (auto *CI = dyn_cast<ConstantInt>(C)) return mkConst(CI->getZExtValue(), w);
  if (auto *CF = dyn_cast<ConstantFP>(C)) return mkConst(CF->getValueAPF().bitcastToAPInt().getZExtValue(), w);
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return mkConst(0, w);
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constScalar(GA->getAliasee());
  if (auto *GV = dyn_cast<GlobalValue>(C)) { auto it = g_addr.find(GV); if (it == g_addr.end()) die("no address for " + GV->getName().str()); return mkConst(it->second, 64); }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) die("const gep"); return mkBin(KAdd, constScalar(CE->getOperand(0)), mkConst(off.getZExtValue(), 64)); }
    case Instruction::BitCast: return constScalar(CE->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: { E e = constScalar(CE->getOperand(0)); return e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w); }
    case Instruction::Trunc: return mkExtract(constScalar(CE->getOperand(0)), 0, w);
    case Instruction::Sub: return mkBin(KSub, constScalar(CE->getOperand(0)), constScalar(CE->getOperand(1)));
    case Instruction::Add: return mkBin(KAdd, constScalar(CE->getOperand(0)), constScalar(CE->getOperand(1)));
    default: break;
    }
  }
  die("unsupported constant " + vstr(C)); return 0;
}

static DFunc *decode(Function *F) {
  auto it = g_dec.find(F); if (it != g_dec.end()) return it->second;
  DFunc *D = new DFunc; D->F = F; D->name = F->getName().str(); D->repo = false;
  if (auto *SP = F->getSubprogram()) { std::string p = (SP->getDirectory() + "/" + SP->getFilename()).str(); if (SP->getFilename().starts_with("/")) p = SP->getFilename().str(); D->repo = !optRepo.empty() && p.find(optRepo) != std::string::npos; }
  std::unordered_map<Value *, int> slot; int n = 0;
  for (auto &A : F->args()) { slot[&A] = n; D->argslot.push_back(n); n += leaves(A.getType()); }
  D->nargleaves = n;
  std::unordered_map<BasicBlock *, int> bi; int nb = 0;
  for (auto &B : *F) { bi[&B] = nb++; for (auto &I : B) { int l = leaves(I.getType()); if (l) { slot[&I] = n; n += l; } } }
  D->nslots = n;
  auto opl = [&](Value *V, std::vector<Opnd> &out) -> int {
    int l = leaves(V->getType());
    if (auto *C = dyn_cast<Constant>(V)) { std::vector<E> es; constLeaves(C, es); for (E e : es) out.push_back({-1, e}); }
    else if (isa<MetadataAsValue>(V)) { return 0; }
    else { auto s = slot.find(V); if (s == slot.end()) die("operand " + vstr(V)); for (int i = 0; i < l; i++) out.push_back({s->second + i, nullptr}); }
    return l;
  };
  auto op1 = [&](Value *V) -> Opnd { std::vector<Opnd> o; opl(V, o); if (o.size() != 1) die("scalar operand expected " + vstr(V)); return o[0]; };
  auto edge = [&](BasicBlock *from, BasicBlock *to) -> Edge {
    Edge e; e.blk = bi[to];
    for (auto &P : to->phis()) { std::vector<Opnd> o; opl(P.getIncomingValueForBlock(from), o); for (size_t i = 0; i < o.size(); i++) e.mv.push_back({slot[&P] + (int)i, o[i]}); }
    return e;
  };
  D->bl.resize(nb);
  for (auto &B : *F) {
    DBlock &DB = D->bl[bi[&B]];
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst d; d.op = I.getOpcode(); d.I = &I; d.sub = 0; d.imm = 0; d.callee = nullptr; d.intr = -1; d.ty = I.getType(); d.w = scalarW(I.getType()); d.w2 = 0; d.dst = -1; d.ndst = leaves(I.getType());
      d.a = d.b = d.c = Opnd{-1, nullptr};
      auto s = slot.find(&I); if (s != slot.end()) d.dst = s->second;
      switch (d.op) {
      case Instruction::Br: { auto *BI = cast<BranchInst>(&I); if (BI->isConditional()) { d.a = op1(BI->getCondition()); } d.sub = BI->isConditional(); for (unsigned i = 0; i < BI->getNumSuccessors(); i++) d.edges.push_back(edge(&B, BI->getSuccessor(i))); break; }
      case Instruction::Switch: { auto *SI = cast<SwitchInst>(&I); d.a = op1(SI->getCondition()); d.edges.push_back(edge(&B, SI->getDefaultDest())); for (auto &c : SI->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
      case Instruction::Ret: if (I.getNumOperands()) opl(I.getOperand(0), d.args); break;
      case Instruction::Unreachable: break;
      case Instruction::Alloca: { auto *AI = cast<AllocaInst>(&I); d.imm = DL->getTypeAllocSize(AI->getAllocatedType()); d.a = op1(AI->getArraySize()); break; }
      case Instruction::Load: d.a = op1(I.getOperand(0)); break;
      case Instruction::Store: opl(I.getOperand(0), d.args); d.a = op1(I.getOperand(1)); d.ty = I.getOperand(0)->getType(); break;
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(&I); d.a = op1(G->getPointerOperand()); u64 off = 0;
        for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *x = gi.getOperand();
          if (StructType *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(x)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(x)) off += sz * (u64)CI->getSExtValue(); else d.gep.push_back({op1(x), {sz, scalarW(x->getType())}});
        }
        d.imm = off; break; }
      case Instruction::ICmp: d.sub = cast<CmpInst>(&I)->getPredicate(); d.a = op1(I.getOperand(0)); d.b = op1(I.getOperand(1)); break;
      case Instruction::FCmp: d.sub = cast<CmpInst>(&I)->getPredicate(); d.a = op1(I.getOperand(0)); d.b = op1(I.getOperand(1)); break;
      case Instruction::Select: { d.a = op1(I.getOperand(0)); opl(I.getOperand(1), d.args); opl(I.getOperand(2), d.args); d.imm = I.getType()->isFloatingPointTy(); break; }
      case Instruction::Call: {
        auto *CI = cast<CallInst>(&I);
        Value *cv = CI->getCalledOperand()->stripPointerCasts(); d.callee = dyn_cast<Function>(cv);
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) d.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (!d.callee) { if (isa<InlineAsm>(cv)) { d.intr = -2; break; } d.a = op1(cv); }
        else { d.intr = d.callee->isDeclaration() ? intrinsicId(d.callee) : -1; }
        for (auto &A : CI->args()) { int l = opl(A, d.args); d.argn.push_back(l);
          unsigned ai = &A - CI->arg_begin(); if (CI->isByValArgument(ai)) { d.cases.push_back(d.args.size() - 1); d.cases.push_back(DL->getTypeAllocSize(CI->getParamByValType(ai))); } }
        break; }
      case Instruction::ExtractValue: { auto *X = cast<ExtractValueInst>(&I); std::vector<Opnd> o; opl(X->getAggregateOperand(), o); int li = leafIndex(X->getAggregateOperand()->getType(), X->getIndices()); for (int i = 0; i < d.ndst; i++) d.args.push_back(o[li + i]); break; }
      case Instruction::InsertValue: { auto *X = cast<InsertValueInst>(&I); opl(X->getAggregateOperand(), d.args); std::vector<Opnd> o; opl(X->getInsertedValueOperand(), o); int li = leafIndex(X->getAggregateOperand()->getType(), X->getIndices()); for (size_t i = 0; i < o.size(); i++) d.args[li + i] = o[i]; break; }
      default:
        if (I.isBinaryOp()) { d.a = op1(I.getOperand(0)); d.b = op1(I.getOperand(1)); }
        else if (I.isCast() || I.isUnaryOp() || d.op == Instruction::Freeze) { d.a = op1(I.getOperand(0)); d.w2 = scalarW(I.getOperand(0)->getType()); }
        else die("unsupported instruction " + vstr(&I));
      }
      if (d.op != Instruction::Store && d.op != Instruction::Ret && d.ndst == 1 && (!d.w || d.w > 64) && !I.getType()->isVoidTy()) { d.sub = 0; d.op = 9999; }
      DB.in.push_back(std::move(d));
    }
  }
  g_dec[F] = D; return D;
}

// ---------------------------------------------------------------- state
struct Frame { DFunc *f; int bl, ip; std::vector<E> r; DInst *call; std::vector<u64> al; std::vector<E> va; int prevbl; };
struct InLog { std::string name; std::vector<E> v; u8 kind; };
struct ObsLog { std::string name; u8 kind; std::vector<E> v; };
typedef std::shared_ptr<Bits> Dom;
struct CNode { E e; std::shared_ptr<CNode> p; ~CNode() { while (p && p.use_count() == 1) { auto q = std::move(p->p); p = std::move(q); } } }; // single-byte branch conditions as taken, kept for the solver's cross-checks
struct State {
  std::vector<Frame> st; Memory mem; std::vector<E> cons; std::unordered_map<int, int> dom; std::set<int> multi; // vars in multi-var constraints
  Model model; std::vector<InLog> in; std::vector<ObsLog> obs; u64 insts = 0; int depth = 0; std::set<std::string> cov; int nforks = 0; int naux = 0;
  std::vector<u64> atexit_; std::shared_ptr<CNode> c8;
};
static std::vector<Bits> g_domv; static std::unordered_map<std::string, int> g_domi;
static int domIntern(const Bits &b) { std::string k((const char *)&b, sizeof b); auto it = g_domi.find(k); if (it != g_domi.end()) return it->second; g_domv.push_back(b); return g_domi[k] = g_domv.size() - 1; }
static int DFULL;
static inline const Bits &domOf(State &s, int v) { auto it = s.dom.find(v); return g_domv[it == s.dom.end() ? DFULL : it->second]; }
static std::map<std::pair<int, int>, Z3_ast> g_domz;
static Z3_ast domZ(int v, int d) {
  auto &r = g_domz[{v, d}]; if (r) return r;
  const Bits &b = g_domv[d]; std::vector<Z3_ast> ors; Z3_ast x = toZ(varExpr(v)); Z3_sort s8 = Z3_mk_bv_sort(zc, 8);
  for (int i = 0; i < 256;) { if (!b[i]) { i++; continue; } int j = i; while (j + 1 < 256 && b[j + 1]) j++;
    if (i == j) ors.push_back(Z3_mk_eq(zc, x, Z3_mk_unsigned_int64(zc, i, s8)));
    else { Z3_ast t[2] = {Z3_mk_bvuge(zc, x, Z3_mk_unsigned_int64(zc, i, s8)), Z3_mk_bvule(zc, x, Z3_mk_unsigned_int64(zc, j, s8))}; ors.push_back(Z3_mk_and(zc, 2, t)); }
    i = j + 1; }
  return r = ors.empty() ? Z3_mk_false(zc) : Z3_mk_or(zc, ors.size(), ors.data());
}
static inline bool is8(E c) { return !optNoDomain && c->svar >= 0 && g_vars[c->svar].w == 8; }

struct CacheEnt { int res; std::vector<std::pair<int, u64>> asg; };
struct VH { size_t operator()(const std::vector<u64> &v) const { u64 h = 1469598103934665603ULL; for (u64 x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u64>, CacheEnt, VH> g_cache;

// Unsigned range of an expression under the byte domains (sound over-approximation, used only to hand the solver true lemmas).
struct Rng { u64 lo, hi; };
static Rng rangeOf(State &s, E e, std::unordered_map<E, Rng> &memo) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u64 mx = maskw(e->w); Rng r{0, mx};
  auto big = [&](Rng a) { return a.lo == 0 && a.hi == ~0ULL; }; (void)big;
  switch (e->k) {
  case KConst: r = {e->val, e->val}; break;
  case KVar: if (e->w == 8) { const Bits &b = domOf(s, (int)e->val); int i = 0, j = 255; while (i < 255 && !b[i]) i++; while (j > 0 && !b[j]) j--; if (i <= j) r = {(u64)i, (u64)j}; } break;
  case KZExt: r = rangeOf(s, e->a, memo); break;
  case KIte: { Rng a = rangeOf(s, e->b, memo), b = rangeOf(s, e->c, memo); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    if (is8(e->a)) { Bits dm = domOf(s, e->a->svar), t = truth8(e->a); if ((dm & t).none()) r = b; else if ((dm & ~t).none()) r = a; } break; }
  case KAdd: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); unsigned __int128 l = (unsigned __int128)a.lo + b.lo, h = (unsigned __int128)a.hi + b.hi, M = (unsigned __int128)mx + 1;
    if (h <= mx) r = {(u64)l, (u64)h}; else if (l >= M && h < 2 * M) r = {(u64)(l - M), (u64)(h - M)}; break; }
  case KSub: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
  case KMul: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); unsigned __int128 h = (unsigned __int128)a.hi * b.hi; if (h <= mx) r = {a.lo * b.lo, (u64)h}; break; }
  case KShl: if (isC(e->b) && e->b->val < e->w) { Rng a = rangeOf(s, e->a, memo); if (a.hi <= (mx >> e->b->val)) r = {a.lo << e->b->val, a.hi << e->b->val}; } break;
  case KAnd: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); r = {0, std::min(a.hi, b.hi)}; break; }
  case KOr: case KXor: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); u64 m = a.hi | b.hi; while (m & (m + 1)) m |= m >> 1; r = {0, std::min(m, mx)}; break; }
  case KUDiv: if (isC(e->b) && e->b->val) { Rng a = rangeOf(s, e->a, memo); r = {a.lo / e->b->val, a.hi / e->b->val}; } break;
  case KURem: if (isC(e->b) && e->b->val) { Rng a = rangeOf(s, e->a, memo); r = {0, std::min(a.hi, e->b->val - 1)}; } break;
  case KConcat: { Rng a = rangeOf(s, e->a, memo), b = rangeOf(s, e->b, memo); r = {(a.lo << e->b->w) | b.lo, (a.hi << e->b->w) | b.hi}; break; }
  case KExtract: if (e->val == 0) { Rng a = rangeOf(s, e->a, memo); if (a.hi <= mx) r = a; } break;
  default: break;
  }
  return memo[e] = r;
}
static void lemmas(State &s, E e, std::unordered_set<E> &seen, std::unordered_map<E, Rng> &memo, Z3_solver z) {
  if (!e || isC(e) || !seen.insert(e).second) return;
  if (e->a) lemmas(s, e->a, seen, memo, z); if (e->b) lemmas(s, e->b, seen, memo, z); if (e->c) lemmas(s, e->c, seen, memo, z);
  if ((e->k == KMul || e->k == KAdd) && e->w > 8 && e->svar == -2) { Rng r = rangeOf(s, e, memo); u64 mx = maskw(e->w);
    if (r.lo > 0) Z3_solver_assert(zc, z, toZb(mkBin(KUle, mkConst(r.lo, e->w), e))); if (r.hi < mx) Z3_solver_assert(zc, z, toZb(mkBin(KUle, e, mkConst(r.hi, e->w)))); }
}
static bool hasMul(E e, std::unordered_set<E> &seen) { if (!e || isC(e) || !seen.insert(e).second) return false; return e->k == KMul || hasMul(e->a, seen) || hasMul(e->b, seen) || hasMul(e->c, seen); }

// Second opinion for queries with multiplication that the bit-blaster does not finish: cvc5's integer encoding of bit-vectors.
static int cvc5Solve(Z3_solver z, const std::set<int> &vs, CacheEnt &n) {
  static int k; std::string fn = optOut + ".cvc5." + std::to_string(getpid()) + "." + std::to_string(k++) + ".smt2";
  FILE *f = fopen(fn.c_str(), "w"); if (!f) return -1;
  fprintf(f, "(set-option :produce-models true)\n(set-logic QF_BV)\n%s(check-sat)\n(get-value (", Z3_solver_to_string(zc, z));
  std::string txt = Z3_solver_to_string(zc, z); std::vector<int> have; for (int v : vs) if (txt.find("(declare-fun k!" + std::to_string(v) + " ") != std::string::npos) { fprintf(f, "k!%d ", v); have.push_back(v); }
  fprintf(f, "))\n"); fclose(f); if (have.empty()) { unlink(fn.c_str()); return -1; }
  std::string out; FILE *p = popen(("cvc5 --tlimit=15000 --solve-bv-as-int=sum " + fn + " 2>/dev/null").c_str(), "r"); int r = -1;
  if (p) { char b[4096]; size_t q; while ((q = fread(b, 1, sizeof b, p)) > 0) out.append(b, q); pclose(p); }
  if (out.compare(0, 5, "unsat") == 0) r = 0;
  else if (out.compare(0, 3, "sat") == 0 && out.find("(error") == std::string::npos) { r = 1;
    for (int v : vs) n.asg.push_back({v, 0});
    for (auto &a : n.asg) { std::string key = "(k!" + std::to_string(a.first) + " #b"; size_t q = out.find(key); if (q != std::string::npos) a.second = strtoull(out.c_str() + q + key.size(), 0, 2); } }
  unlink(fn.c_str()); return r;
}

// Satisfiability of PC & cond.  1 sat (m receives a full model), 0 unsat, -1 unknown.
static int solve(State &s, E cond, Model &m) {
  std::vector<int> work; std::set<int> vs; std::vector<E> sel; std::vector<char> used(s.cons.size(), 0);
  for (int v : exprVars(cond)) { vs.insert(v); work.push_back(v); }
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
      const std::vector<int> &cv = exprVars(s.cons[i]); bool hit = false; for (int v : cv) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; sel.push_back(s.cons[i]); for (int v : cv) if (vs.insert(v).second) ch = true; }
    } }
  std::vector<u64> key; for (E e : sel) key.push_back(e->id); key.push_back(cond->id); std::sort(key.begin(), key.end()); 
  for (int v : vs) { auto it = s.dom.find(v); if (it != s.dom.end()) { key.push_back(((u64)v << 32) | (u32)it->second | (1ULL << 63)); } }
  auto it = g_cache.find(key); CacheEnt *ce;
  if (it != g_cache.end()) { S.cachehits++; ce = &it->second; }
  else {
    CacheEnt n; n.res = -1; double t0 = now(); Z3_lbool r; S.queries++;
    bool fp = hasFP(cond); for (E e : sel) fp = fp || hasFP(e);
    Z3_solver z = fp ? zsfp : zs;
    Z3_solver_push(zc, z);
    for (E e : sel) Z3_solver_assert(zc, z, toZb(e));
    Z3_solver_assert(zc, z, toZb(cond));
    for (int v : vs) { auto di = s.dom.find(v); if (di != s.dom.end()) Z3_solver_assert(zc, z, domZ(v, di->second)); }
    bool mul = false; { std::unordered_set<E> hm; mul = hasMul(cond, hm); for (E e : sel) mul = mul || hasMul(e, hm); mul = mul && !fp; }
    auto setRl = [&](unsigned rl) { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), rl); Z3_solver_set_params(zc, z, p); Z3_params_dec_ref(zc, p); };
    if (mul) setRl(std::min<u64>(optRlimit, 1500000));
    r = Z3_solver_check(zc, z);
    if (mul) setRl(optRlimit);
    if (mul && r == Z3_L_UNDEF) { // lemmas about the ranges of sums and products, then the integer encoding, then a long bit-blasting run
      std::unordered_set<E> seen; std::unordered_map<E, Rng> memo; lemmas(s, cond, seen, memo, z); for (E e : sel) lemmas(s, e, seen, memo, z);
      int c5 = cvc5Solve(z, vs, n); if (c5 >= 0) { S.qcvc5++; r = Z3_L_UNDEF; n.res = c5; } else r = Z3_solver_check(zc, z);
      if (c5 >= 0) goto decided; }
    n.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(zc, z); Z3_model_inc_ref(zc, zm);
      for (int v : vs) { Z3_ast o; u64 x = 0; if (Z3_model_eval(zc, zm, toZ(varExpr(v)), true, &o)) Z3_get_numeral_uint64(zc, o, (uint64_t *)&x); n.asg.push_back({v, x}); }
      Z3_model_dec_ref(zc, zm);
    }
    decided:
    if (n.res < 0 && getenv("SX_DUMP")) { static int k; std::string fn = std::string(getenv("SX_DUMP")) + "." + std::to_string(getpid()) + "." + std::to_string(k++) + ".smt2"; if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(zc, z)); fclose(f); } }
    Z3_solver_pop(zc, z, 1);
    double dt = now() - t0; S.zt += dt; if (n.res == 1) S.qsat++; else if (n.res == 0) S.qunsat++; else S.qunk++;
    if (optVerbose && dt > 1) fprintf(stderr, "[slow query %.1fs res %d] %s\n", dt, n.res, exprStr(cond, 5).c_str());
    ce = &(g_cache[key] = n);
  }
  if (ce->res == 1) { m = s.model; for (auto &p : ce->asg) { if ((int)m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } }
  return ce->res;
}
// The byte-domain shortcut answers branch questions about one byte by table; the solver re-decides a share of those answers from the
// original conditions, and the satisfiability of whole path conditions.  A disagreement is an internal error.
static int xcheck(State &s, E cond, int var, bool all) { // 1 sat 0 unsat -1 unknown
  double t0 = now(); S.queries++; S.xchecks++; Z3_solver_push(zc, zs);
  for (CNode *n = s.c8.get(); n; n = n->p.get()) if (all || n->e->svar == var) Z3_solver_assert(zc, zs, toZb(n->e));
  if (all) for (E e : s.cons) { if (hasFP(e)) { Z3_solver_pop(zc, zs, 1); S.queries--; S.xchecks--; return -1; } Z3_solver_assert(zc, zs, toZb(e)); }
  if (cond) Z3_solver_assert(zc, zs, toZb(cond));
  auto setRl = [&](u64 rl) { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)rl); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p); };
  setRl(300000); Z3_lbool r = Z3_solver_check(zc, zs); setRl(optRlimit); Z3_solver_pop(zc, zs, 1); double dt = now() - t0; S.zt += dt; S.xt += dt;
  if (r == Z3_L_TRUE) S.qsat++; else if (r == Z3_L_FALSE) S.qunsat++; else S.qunk++;
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static bool xdue(u64 cap) { return S.xchecks < cap && S.xt < 2.0; }
static void conj(E c, std::vector<E> &out) { if (c->k == KAnd && c->w == 1) { conj(c->a, out); conj(c->b, out); } else out.push_back(c); }
// May cond be true under the path condition?  On 1 m holds a model of PC & cond.
static int may(State &s, E cond, Model &m) {
  if (isC(cond)) { if (cond->val) { m = s.model; return 1; } return 0; }
  if (evalExpr(cond, s.model)) { S.modeldec++; m = s.model; return 1; }
  if (!optNoDomain) {
    std::vector<E> cs; conj(cond, cs); bool all = true; std::map<int, Bits> nd;
    for (E c : cs) {
      if (!is8(c)) { all = false; continue; }
      auto it = nd.find(c->svar); if (it == nd.end()) it = nd.emplace(c->svar, domOf(s, c->svar)).first;
      it->second &= truth8(c); if (it->second.none()) { S.domdec++;
        if (cs.size() == 1 && (S.domdec & 31) == 1 && xdue(150) && xcheck(s, c, c->svar, false) == 1) die("byte-domain decision contradicted by the solver: " + exprStr(c, 6));
        return 0; }
      if (s.multi.count(c->svar)) all = false;
    }
    if (all) { S.domdec++; m = s.model; for (auto &p : nd) { if ((int)m.size() <= p.first) m.resize(p.first + 1, 0); for (int i = 0; i < 256; i++) if (p.second[i]) { m[p.first] = i; break; } } return 1; }
  }
  return solve(s, cond, m);
}
static void addCons(State &s, E cond, const Model &m) { // m must satisfy PC & cond
  std::vector<E> cs; conj(cond, cs);
  for (E c : cs) {
    if (isC(c)) continue;
    if (is8(c)) { s.c8 = std::make_shared<CNode>(CNode{c, s.c8}); Bits b = domOf(s, c->svar) & truth8(c); s.dom[c->svar] = domIntern(b); }
    else { s.cons.push_back(c); for (int v : exprVars(c)) s.multi.insert(v); }
  }
  s.model = m;
}

// ---------------------------------------------------------------- reporting
static FILE *g_log; // per-process record file (JSON lines)
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; } return r + "\""; }
static std::string locStr(State &s, bool repoOnly) {
  for (int i = (int)s.st.size() - 1; i >= 0; i--) {
    Frame &f = s.st[i]; if (repoOnly && !f.f->repo) continue;
    int ip = std::min<int>(f.ip, f.f->bl[f.bl].in.size() - 1); Instruction *I = f.f->bl[f.bl].in[ip].I;
    std::string r = f.f->name; if (I) if (const DebugLoc &d = I->getDebugLoc()) { DILocation *L = d.get(); r = L->getScope()->getSubprogram()->getName().str() + " " + llvm::sys::path::filename(L->getFilename()).str() + ":" + std::to_string(L->getLine()); }
    return r;
  }
  return repoOnly ? locStr(s, false) : "?";
}
static std::string inputsJ(State &s) {
  std::string r = "["; bool first = true;
  for (auto &i : s.in) { if (!first) r += ","; first = false; r += "{\"n\":" + jstr(i.name) + ",\"k\":" + std::to_string(i.kind) + ",\"v\":["; for (size_t k = 0; k < i.v.size(); k++) { if (k) r += ","; r += std::to_string(evalExpr(i.v[k], s.model)); } r += "]}"; }
  return r + "]";
}
static std::string obsJ(State &s) {
  std::string r = "["; bool first = true;
  for (auto &o : s.obs) { if (!first) r += ","; first = false;
    if (o.kind == 0) r += jstr(o.name + "=" + std::to_string((i64)evalExpr(o.v[0], s.model)));
    else { std::string t; for (E e : o.v) t += (char)evalExpr(e, s.model); r += jstr(o.name + "=" + (o.kind == 2 ? std::string("NULL") : "'" + t + "'")); } }
  return r + "]";
}
static std::map<std::string, int> g_violSeen;
static void violation(State &s, const std::string &kind, const std::string &msg) {
  S.errors++; std::string loc = locStr(s, kind != "assert");
  std::string key = kind + "|" + (kind == "assert" ? msg : loc);
  __sync_fetch_and_add(&sh->viol, 1);
  if (g_violSeen[key]++ >= optMaxViolPerLoc) return;
  std::string bt; for (int i = (int)s.st.size() - 1; i >= 0; i--) bt += (bt.empty() ? "" : " < ") + s.st[i].f->name;
  fprintf(g_log, "{\"t\":\"viol\",\"kind\":%s,\"msg\":%s,\"loc\":%s,\"bt\":%s,\"in\":%s,\"obs\":%s}\n", jstr(kind).c_str(), jstr(msg).c_str(), jstr(loc).c_str(), jstr(bt).c_str(), inputsJ(s).c_str(), obsJ(s).c_str());
  fflush(g_log);
}
static std::map<std::string, u64> g_fprof; static bool g_fprofOn = getenv("SX_FORKPROF") != nullptr;
static std::string locStr(State &s, bool);
static void forkProf(State &s) { if (!g_fprofOn) return; std::string bt; int n = 0; for (int i = (int)s.st.size() - 1; i >= 0 && n < 4; i--, n++) bt += " < " + s.st[i].f->name; g_fprof[locStr(s, false) + bt]++; }
static void inconclusive(State &s, const std::string &why) { S.inconclusive++; if (g_inconcl[why]++ == 0 && optVerbose) { std::string bt; for (int i = (int)s.st.size() - 1; i >= 0; i--) bt += " < " + s.st[i].f->name; fprintf(stderr, "inconclusive: %s at %s bt%s\n", why.c_str(), locStr(s, false).c_str(), bt.c_str()); } }

static std::vector<State *> g_pend;
static std::vector<std::string> g_samples; static u64 g_sampN; static u64 g_rng;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

static void pathDone(State &s) {
  S.completed++; __sync_fetch_and_add(&sh->paths, 1);
  if ((s.c8 || s.cons.size()) && xdue(300) && xcheck(s, nullptr, -1, true) == 0) die("completed path with unsatisfiable path condition");
  for (auto &c : s.cov) g_cover[c]++;
  g_sampN++; int cap = std::max(4, optSamples);
  auto mk = [&]() { return "{\"t\":\"sample\",\"in\":" + inputsJ(s) + ",\"obs\":" + obsJ(s) + "}"; };
  if ((int)g_samples.size() < cap) g_samples.push_back(mk()); else { u64 k = rnd() % g_sampN; if ((int)k < cap) g_samples[k] = mk(); }
}

// ---------------------------------------------------------------- executor
struct Exec {
  State *s;
  bool dead; // current state finished
  Frame *fr;
  E get(const Opnd &o) { if (o.slot < 0) return o.c; E e = fr->r[o.slot]; if (!e) { return mkConst(0, 64); } return e; }
  void kill() { dead = true; }
  void err(const std::string &k, const std::string &m) { violation(*s, k, m); kill(); }

  // Enumerate every feasible value of the operand; fork one state per value with the
  // register replaced by the constant, re-executing the current instruction.
  E domFold(E c) { // a condition over one byte whose truth is fixed by the byte's known domain
    if (c->w != 1 || isC(c) || !is8(c)) return c; Bits dm = domOf(*s, c->svar), t = truth8(c); if ((dm & t).none()) return mkFalse(); if ((dm & ~t).none()) return mkTrue(); return c; }
  bool concretize(const Opnd &o, int limit = 600, bool optional = false) { // optional: leave the value symbolic if it has more values than the limit
    E e = get(o); if (isC(e)) return true;
    if (e->uninit) { Model mm; int r = may(*s, mkNot(mkEq(e, mkConst(evalExpr(e, s->model), e->w))), mm); if (r) { err("uninit", "value derived from uninitialised memory used as address, size or selector"); return false; } }
    State *cur = s; int n = 0; std::vector<State *> made; std::vector<std::pair<E, Model>> opts;
    // enumerate
    State probe(*cur);
    while (true) {
      u64 v = evalExpr(e, probe.model); E eq = mkEq(e, mkConst(v, e->w));
      opts.push_back({eq, probe.model});
      Model m; int r = may(probe, mkNot(eq), m);
      if (r < 0 && optional) return false;
      if (r < 0) { inconclusive(*s, "solver unknown in value enumeration"); break; }
      if (r == 0) break;
      if (++n > limit && optional) return false;
      if (n > limit) { inconclusive(*s, "too many values at " + locStr(*s, false)); break; }
      addCons(probe, mkNot(eq), m);
    }
    S.forks += opts.size() - 1; forkProf(*cur);
    for (size_t i = 1; i < opts.size(); i++) {
      State *t = new State(*cur); addCons(*t, opts[i].first, opts[i].second); t->st.back().r[o.slot] = mkConst(evalExpr(e, opts[i].second), e->w); t->nforks++;
      t->st.back().ip--; // re-execute
      g_pend.push_back(t);
    }
    addCons(*cur, opts[0].first, opts[0].second); fr->r[o.slot] = mkConst(evalExpr(e, opts[0].second), e->w);
    return true;
  }
  bool fail(const std::string &m) { err("memory", m); return false; }
  std::string accessErr(u64 a, u64 n, const char *what) {
    char b[256]; int i = s->mem.find(a);
    if (a < 4096) snprintf(b, sizeof b, "%s of %llu bytes through null pointer", what, (unsigned long long)n);
    else if (i >= 0 && s->mem.at(i).freed && a < s->mem.at(i).base + s->mem.at(i).size + GAP / 2) snprintf(b, sizeof b, "%s of %llu bytes in freed/dead %s object of size %u at offset %lld", what, (unsigned long long)n, s->mem.at(i).kind == OStack ? "stack" : "heap", s->mem.at(i).size, (long long)(a - s->mem.at(i).base));
    else if (i >= 0 && a < s->mem.at(i).base + s->mem.at(i).size + GAP / 2) snprintf(b, sizeof b, "%s of %llu bytes out of bounds of object of size %u at offset %lld", what, (unsigned long long)n, s->mem.at(i).size, (long long)(a - s->mem.at(i).base));
    else if (i >= 0 && (i & ROMBIT ? (i & ~ROMBIT) + 1 < (int)g_rom.size() : i + 1 < (int)s->mem.v.size()) && s->mem.at(i + 1).base - a < GAP / 2 + 16) snprintf(b, sizeof b, "%s of %llu bytes out of bounds of object of size %u at offset %lld", what, (unsigned long long)n, s->mem.at(i + 1).size, (long long)(a - s->mem.at(i + 1).base));
    else snprintf(b, sizeof b, "%s of %llu bytes at wild address 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
    return b;
  }
  int resolve(u64 a, u64 n, const char *what) {
    int i = s->mem.find(a);
    if (i < 0 || s->mem.at(i).freed || a + n > s->mem.at(i).base + s->mem.at(i).size) { fail(accessErr(a, n, what)); return -1; }
    return i;
  }
  E rdByte(int i, u64 off) {
    E e = s->mem.at(i).o->b[off];
    if (!e) { e = mkVar("uninit", 8, true); s->mem.wr(i)->b[off] = e; }
    if (e->k == KExtract) e = mkExtract(e->a, e->val, 8); // stored unsimplified, see wrv
    return e;
  }
  E rd(int i, u64 off, unsigned w) { // w bits
    unsigned n = (w + 7) / 8; std::vector<E> &b = s->mem.at(i).o->b;
    bool allc = true; u64 v = 0;
    for (unsigned k = 0; k < n; k++) { E e = b[off + k]; if (!e || !isC(e)) { allc = false; break; } v |= e->val << (8 * k); }
    if (allc) return mkConst(v, w);
    if (n > 1 && b[off] && b[off]->k == KExtract) { bool run = true; E f = b[off]; for (unsigned k = 1; k < n && run; k++) { E e = b[off + k]; run = e && e->k == KExtract && e->a == f->a && e->val == f->val + 8 * k; } if (run) return mkExtract(f->a, f->val, w); }
    E r = rdByte(i, off); for (unsigned k = 1; k < n; k++) { r = mkConcat(rdByte(i, off + k), r); }
    return w < n * 8 ? mkExtract(r, 0, w) : r;
  }
  void wrv(int i, u64 off, E v) {
    unsigned n = (v->w + 7) / 8; ObjData *o = s->mem.wr(i); if (v->w % 8) v = mkZExt(v, n * 8);
    if (isC(v)) for (unsigned k = 0; k < n; k++) o->b[off + k] = mkConst(v->val >> (8 * k), 8);
    else for (unsigned k = 0; k < n; k++) { if (n == 1) { o->b[off] = v; break; } E e = mkExtract(v, 8 * k, 8); o->b[off + k] = isC(e) || v->k == KConcat || v->k == KZExt ? e : mkRawExtract(v, 8 * k, 8); }
  }
  static E inSet(int var, const Bits &b) {
    E x = varExpr(var), r = mkFalse();
    for (int i = 0; i < 256;) { if (!b[i]) { i++; continue; } int j = i; while (j + 1 < 256 && b[j + 1]) j++;
      E c = i == j ? mkEq(x, mkConst(i, 8)) : mkAnd1(mkBin(KUle, mkConst(i, 8), x), mkBin(KUle, x, mkConst(j, 8))); r = mkOr1(r, c); i = j + 1; }
    return r;
  }
  // load through symbolic address; returns null if it forked/killed and must be re-executed or is dead
  E symLoad(const Opnd &ao, unsigned w) {
    E a = get(ao); unsigned n = (w + 7) / 8;
    if (is8(a) && !a->uninit) { // address depends on one byte variable: table read
      const Bits &d = domOf(*s, a->svar); static Model m; if ((int)m.size() <= a->svar) m.resize(a->svar + 1);
      std::vector<std::pair<E, Bits>> grp; bool ok = true; int obj = -1;
      std::unordered_map<u32, int> gi;
      for (int v = 0; v < 256 && ok; v++) if (d[v]) {
        m[a->svar] = v; u64 ad = evalExpr(a, m); int i = s->mem.find(ad);
        if (i < 0 || s->mem.at(i).freed || ad + n > s->mem.at(i).base + s->mem.at(i).size || (obj >= 0 && i != obj)) { ok = false; break; }
        obj = i; E x = rd(i, ad - s->mem.at(i).base, w);
        auto it = gi.find(x->id); if (it == gi.end()) { gi[x->id] = grp.size(); grp.push_back({x, Bits()}); it = gi.find(x->id); }
        grp[it->second].second[v] = 1;
      }
      if (ok && !grp.empty() && grp.size() <= 130) {
        std::sort(grp.begin(), grp.end(), [](auto &x, auto &y) { return x.second.count() < y.second.count(); });
        E r = grp.back().first; for (int i = (int)grp.size() - 2; i >= 0; i--) r = mkIte(inSet(a->svar, grp[i].second), grp[i].first, r);
        return r;
      }
    }
    concretize(ao); return nullptr;
  }

  bool branch(E cond, State *&other) { // returns truth for the current state; other = forked state for the opposite side (or null)
    other = nullptr; if (isC(cond)) return cond->val;
    bool cur = evalExpr(cond, s->model); E ct = cur ? cond : mkNot(cond), cf = cur ? mkNot(cond) : cond;
    Model m; int r = may(*s, cf, m);
    if (r != 0 && cond->uninit) { err("uninit", "branch depends on uninitialised memory"); return cur; }
    if (r == 1) { other = new State(*s); addCons(*other, cf, m); S.forks++; forkProf(*s); s->nforks++; other->nforks++; }
    else if (r < 0) inconclusive(*s, "solver unknown at branch");
    Model keep = s->model; if (r) addCons(*s, ct, keep);
    return cur;
  }
  void take(State *t, const Edge &e) {
    Frame &f = t->st.back();
    if (e.mv.size() == 1) { auto &mv = e.mv[0]; f.r[mv.dst] = mv.src.slot < 0 ? mv.src.c : f.r[mv.src.slot]; }
    else if (!e.mv.empty()) { std::vector<E> v; v.reserve(e.mv.size()); for (auto &mv : e.mv) v.push_back(mv.src.slot < 0 ? mv.src.c : f.r[mv.src.slot]); for (size_t i = 0; i < v.size(); i++) f.r[e.mv[i].dst] = v[i]; }
    f.prevbl = f.bl; f.bl = e.blk; f.ip = 0;
  }
  void popFrame(const std::vector<E> &ret) {
    for (u64 a : fr->al) { int i = s->mem.find(a); if (s->mem.at(i).o) { if (--s->mem.at(i).o->rc == 0) delete s->mem.at(i).o; s->mem.at(i).o = nullptr; } s->mem.at(i).freed = true; }
    bool al = !fr->al.empty();
    DInst *c = fr->call; s->st.pop_back();
    if (al && s->mem.v.size() > 400) compact();
    if (s->st.empty()) { pathDone(*s); kill(); return; }
    fr = &s->st.back();
    if (c && c->dst >= 0) for (size_t i = 0; i < ret.size(); i++) fr->r[c->dst + i] = ret[i];
  }
  void compact() { // drop tombstones of dead stack objects (kept for heap objects: use-after-free diagnosis)
    auto &v = s->mem.v; size_t k = 0; size_t n = v.size();
    for (size_t i = 0; i < n; i++) if (!(v[i].freed && v[i].kind == OStack && i + 60 < n)) v[k++] = v[i];
    v.resize(k);
  }
  void call(DInst &d, Function *F, std::vector<E> &args) {
    DFunc *D = decode(F);
    if (D->repo) g_funcs.insert(D->name);
    if (s->st.size() > 3000) { err("stack", "call depth exceeds 3000 frames"); return; }
    for (size_t i = 0; i + 1 < d.cases.size(); i += 2) { // byval copies
      E p = args[d.cases[i]]; u64 n = d.cases[i + 1]; if (!isC(p)) { inconclusive(*s, "symbolic byval"); kill(); return; }
      int si = resolve(p->val, n, "read"); if (si < 0) return;
      ObjData *o = newObj(n, OStack, false); for (u64 k = 0; k < n; k++) o->b[k] = s->mem.at(si).o->b[p->val - s->mem.at(si).base + k];
      args[d.cases[i]] = mkConst(s->mem.add(o), 64);
    }
    s->st.emplace_back(); fr = &s->st.back(); fr->f = D; fr->bl = 0; fr->ip = 0; fr->prevbl = -1; fr->r.assign(D->nslots, nullptr); fr->call = &d;
    if ((int)args.size() < D->nargleaves) for (auto &A : F->args()) { unsigned w = scalarW(A.getType()); while ((int)args.size() < D->argslot[A.getArgNo()] + 1) args.push_back(w && w <= 64 ? mkVar("missing argument", w) : mkConst(0, 64)); } // called through a pointer of another type: whatever the register holds
    int n = std::min<int>(args.size(), D->nargleaves);
    for (int i = 0; i < n; i++) fr->r[i] = args[i];
    if (F->isVarArg()) for (size_t i = D->nargleaves; i < args.size(); i++) fr->va.push_back(args[i]);
  }
  bool cstr(u64 a, std::string &out) { // read a concrete C string
    int i = s->mem.find(a); if (i < 0 || s->mem.at(i).freed) return false; u64 off = a - s->mem.at(i).base;
    for (; off < s->mem.at(i).size; off++) { E e = s->mem.at(i).o->b[off]; if (!e || !isC(e)) return false; if (!e->val) return true; out += (char)e->val; }
    return false;
  }
  bool intrinsic(DInst &d);
  u64 alloc(u64 n, bool zero, u8 kind) { ObjData *o = newObj(n, kind, zero); return s->mem.add(o); }
  void step();
  void run(State *st);
};

enum { I_NOP = 0, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MALLOC, I_CALLOC, I_REALLOC, I_FREE, I_VASTART, I_VAEND, I_VACOPY, I_OVF, I_MINMAX, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSH, I_FABS, I_FMULADD, I_SATSUB, I_SATADD, I_TRAP, I_UBTRAP, I_OBJSIZE, I_EXPECT, I_ISCONST, I_STACKSAVE,
  I_U8, I_U16, I_U32, I_U64, I_MKSYM, I_CHOICE, I_ASSUME, I_ASSERT, I_COVER, I_OBSI, I_OBSS, I_ISSYM, I_CONCR, I_STRCMP, I_STRNCMP, I_MEMCMP, I_STRCHR, I_FAILM, I_EXIT, I_OBJROOM, I_LIVE, I_ITE, I_VALID, I_MUSTBE, I_ASSUMEC, I_SQRT, I_EQTEST, I_FREEKIND, I_UADDO, I_AUX, I_SAMEX };
static std::unordered_map<std::string, int> g_intr = {
  {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET}, {"malloc", I_MALLOC}, {"calloc", I_CALLOC}, {"realloc", I_REALLOC}, {"free", I_FREE},
  {"sx_u8", I_U8}, {"sx_u16", I_U16}, {"sx_u32", I_U32}, {"sx_u64", I_U64}, {"sx_make_symbolic", I_MKSYM}, {"sx_choice", I_CHOICE}, {"sx_assume", I_ASSUME}, {"sx_assert_", I_ASSERT}, {"sx_cover", I_COVER}, {"sx_obs_i", I_OBSI}, {"sx_obs_s", I_OBSS}, {"sx_is_symbolic", I_ISSYM}, {"sx_concretize", I_CONCR},
  {"strcmp", I_STRCMP}, {"strncmp", I_STRNCMP}, {"memcmp", I_MEMCMP}, {"bcmp", I_MEMCMP}, {"strchr", I_STRCHR}, {"index", I_STRCHR}, {"sx_fail", I_FAILM}, {"_exit", I_EXIT}, {"exit", I_EXIT}, {"sx_stop", I_EXIT}, {"sx_live_heap", I_LIVE}, {"sx_ite", I_ITE}, {"sx_valid_ptr", I_VALID}, {"sqrt", I_SQRT}, {"sqrtf", I_SQRT}, {"abort", I_TRAP}, {"sx_aux_u8", I_AUX}, {"sx_same_expr", I_SAMEX} };
static int intrinsicId(Function *F) {
  std::string n = F->getName().str();
  auto it = g_intr.find(n); if (it != g_intr.end()) return it->second;
  if (F->isIntrinsic()) {
    auto sw = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (sw("llvm.memcpy")) return I_MEMCPY; if (sw("llvm.memmove")) return I_MEMMOVE; if (sw("llvm.memset")) return I_MEMSET;
    if (sw("llvm.va_start")) return I_VASTART; if (sw("llvm.va_end")) return I_VAEND; if (sw("llvm.va_copy")) return I_VACOPY;
    if (n.find(".with.overflow") != std::string::npos) return I_OVF;
    if (sw("llvm.smax") || sw("llvm.smin") || sw("llvm.umax") || sw("llvm.umin")) return I_MINMAX;
    if (sw("llvm.abs")) return I_ABS; if (sw("llvm.ctpop")) return I_CTPOP; if (sw("llvm.ctlz")) return I_CTLZ; if (sw("llvm.cttz")) return I_CTTZ; if (sw("llvm.bswap")) return I_BSWAP; if (sw("llvm.fsh")) return I_FSH;
    if (sw("llvm.fabs")) return I_FABS; if (sw("llvm.fmuladd")) return I_FMULADD; if (sw("llvm.usub.sat")) return I_SATSUB; if (sw("llvm.uadd.sat")) return I_SATADD; if (sw("llvm.sqrt")) return I_SQRT;
    if (sw("llvm.trap")) return I_TRAP; if (sw("llvm.ubsantrap")) return I_UBTRAP; if (sw("llvm.objectsize")) return I_OBJSIZE; if (sw("llvm.expect")) return I_EXPECT; if (sw("llvm.is.constant")) return I_ISCONST;
    if (sw("llvm.stacksave")) return I_STACKSAVE;
    if (sw("llvm.lifetime") || sw("llvm.dbg") || sw("llvm.assume") || sw("llvm.stackrestore") || sw("llvm.donothing") || sw("llvm.experimental") || sw("llvm.invariant") || sw("llvm.prefetch") || sw("llvm.sideeffect")) return I_NOP;
  }
  return -1;
}
static E inSym(State &s, const std::string &name, unsigned w, u8 kind) { // fresh input variable with a default model value
  static std::unordered_map<std::string, std::vector<int>> pool; // reuse variables by (occurrence, width) so that sibling paths share queries
  std::string key = name + ":" + std::to_string(w); int occ = 0; for (auto &i : s.in) if (i.name == name && !i.v.empty()) for (E e : i.v) if (e->k == KVar && e->w == w) occ++;
  auto &p = pool[key]; while ((int)p.size() <= occ) { E e = mkVar(name, w); p.push_back((int)e->val); }
  int v = p[occ]; if ((int)s.model.size() <= v) s.model.resize(v + 1, 0);
  return varExpr(v);
}
bool Exec::intrinsic(DInst &d) {
  auto A = [&](int i) { return get(d.args[i]); };
  auto ret = [&](E e) { if (d.dst >= 0) fr->r[d.dst] = e; };
  auto CC = [&](int i) -> bool { if (isC(A(i))) return true; bool r = concretize(d.args[i]); return r && !dead; };
  auto name = [&](int i) { std::string t; if (isC(A(i))) cstr(A(i)->val, t); return t; };
  switch (d.intr) {
  case I_NOP: return true;
  case I_MEMCPY: case I_MEMMOVE: {
    if (!CC(2) || !CC(0) || !CC(1)) return true; u64 n = A(2)->val, dst = A(0)->val, src = A(1)->val; ret(A(0)); if (!n) return true;
    int si = resolve(src, n, "read"); if (si < 0) return true; int di = resolve(dst, n, "write"); if (di < 0) return true;
    if (s->mem.at(di).o->ro) { fail("write to read-only object"); return true; }
    std::vector<E> t(s->mem.at(si).o->b.begin() + (src - s->mem.at(si).base), s->mem.at(si).o->b.begin() + (src - s->mem.at(si).base) + n);
    if (d.intr == I_MEMCPY && si == di && src != dst && (src < dst ? src + n > dst : dst + n > src)) { fail("overlapping memcpy"); return true; }
    ObjData *o = s->mem.wr(di); std::copy(t.begin(), t.end(), o->b.begin() + (dst - s->mem.at(di).base)); return true; }
  case I_MEMSET: {
    if (!CC(2) || !CC(0)) return true; u64 n = A(2)->val, dst = A(0)->val; ret(A(0)); if (!n) return true; E v = mkExtract(A(1), 0, 8);
    int di = resolve(dst, n, "write"); if (di < 0) return true; ObjData *o = s->mem.wr(di); for (u64 k = 0; k < n; k++) o->b[dst - s->mem.at(di).base + k] = v; return true; }
  case I_MALLOC: { if (!CC(0)) return true; u64 n = A(0)->val; if (n > (1u << 24)) { inconclusive(*s, "huge malloc"); kill(); return true; } ret(mkConst(alloc(n, false, OHeap), 64)); return true; }
  case I_CALLOC: { if (!CC(0) || !CC(1)) return true; u64 n = A(0)->val * A(1)->val; if (n > (1u << 24)) { inconclusive(*s, "huge calloc"); kill(); return true; } ret(mkConst(alloc(n, true, OHeap), 64)); return true; }
  case I_REALLOC: {
    if (!CC(0) || !CC(1)) return true; u64 p = A(0)->val, n = A(1)->val; if (n > (1u << 24)) { inconclusive(*s, "huge realloc"); kill(); return true; }
    u64 q = alloc(n, false, OHeap);
    if (p) { int i = s->mem.find(p); if (i < 0 || s->mem.at(i).freed || s->mem.at(i).base != p || s->mem.at(i).kind != OHeap) { err("memory", "realloc of invalid or freed pointer"); return true; }
      u64 k = std::min<u64>(n, s->mem.at(i).size); int qi = s->mem.find(q); ObjData *o = s->mem.wr(qi); for (u64 j = 0; j < k; j++) o->b[j] = s->mem.at(i).o->b[j];
      if (--s->mem.at(i).o->rc == 0) delete s->mem.at(i).o; s->mem.at(i).o = nullptr; s->mem.at(i).freed = true; }
    ret(mkConst(q, 64)); return true; }
  case I_FREE: {
    if (!CC(0)) return true; u64 p = A(0)->val; if (!p) return true; int i = s->mem.find(p);
    if (i >= 0 && s->mem.at(i).base == p && s->mem.at(i).freed && s->mem.at(i).kind == OHeap) { err("memory", "double free"); return true; }
    if (i < 0 || s->mem.at(i).base != p || s->mem.at(i).kind != OHeap) { err("memory", "free of pointer that is not the start of a heap object"); return true; }
    if (--s->mem.at(i).o->rc == 0) delete s->mem.at(i).o; s->mem.at(i).o = nullptr; s->mem.at(i).freed = true; return true; }
  case I_VASTART: {
    if (!CC(0)) return true; u64 ap = A(0)->val; int n = fr->va.size(); u64 area = alloc(8 * n + 8, true, OStack); fr->al.push_back(area); int ai = s->mem.find(area);
    for (int k = 0; k < n; k++) { E v = fr->va[k]; wrv(ai, 8 * k, v->w < 64 ? mkZExt(v, 64) : v); }
    int i = resolve(ap, 24, "write"); if (i < 0) return true; u64 o = ap - s->mem.at(i).base; wrv(i, o, mkConst(48, 32)); wrv(i, o + 4, mkConst(304, 32)); wrv(i, o + 8, mkConst(area, 64)); wrv(i, o + 16, mkConst(0, 64)); return true; }
  case I_VAEND: return true;
  case I_VACOPY: { if (!CC(0) || !CC(1)) return true; int i = resolve(A(1)->val, 24, "read"), j = resolve(A(0)->val, 24, "write"); if (i < 0 || j < 0) return true; for (int k = 0; k < 24; k++) { E e = s->mem.at(i).o->b[A(1)->val - s->mem.at(i).base + k]; s->mem.wr(j)->b[A(0)->val - s->mem.at(j).base + k] = e; } return true; }
  case I_OVF: {
    std::string n = d.callee->getName().str(); E a = A(0), b = A(1); unsigned w = a->w; bool sg = n[5] == 's'; E r, o;
    if (n.find("add") != std::string::npos) { r = mkBin(KAdd, a, b);
      if (sg) { E z = mkConst(0, w); E an = mkBin(KSlt, a, z), bn = mkBin(KSlt, b, z), rn = mkBin(KSlt, r, z); o = mkAnd1(mkEq(an, bn), mkNot(mkEq(an, rn))); } else o = mkBin(KUlt, r, a); }
    else if (n.find("sub") != std::string::npos) { r = mkBin(KSub, a, b);
      if (sg) { E z = mkConst(0, w); E an = mkBin(KSlt, a, z), bn = mkBin(KSlt, b, z), rn = mkBin(KSlt, r, z); o = mkAnd1(mkNot(mkEq(an, bn)), mkNot(mkEq(an, rn))); } else o = mkBin(KUlt, a, b); }
    else { r = mkBin(KMul, a, b);
      if (w <= 32) { E x = sg ? mkBin(KMul, mkSExt(a, 2 * w), mkSExt(b, 2 * w)) : mkBin(KMul, mkZExt(a, 2 * w), mkZExt(b, 2 * w)); o = mkNot(mkEq(x, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w))); }
      else { // b == 0 ? 0 : r / b != a
        E z = mkConst(0, w); if (!sg) o = mkIte(mkEq(b, z), mkFalse(), mkNot(mkEq(mkBin(KUDiv, r, b), a)));
        else o = mkIte(mkEq(b, z), mkFalse(), mkIte(mkAnd1(mkEq(b, mkConst(~0ULL, w)), mkEq(a, mkConst(1ULL << (w - 1), w))), mkTrue(), mkNot(mkEq(mkBin(KSDiv, r, b), a)))); } }
    fr->r[d.dst] = r; fr->r[d.dst + 1] = o; return true; }
  case I_MINMAX: { std::string n = d.callee->getName().str(); E a = A(0), b = A(1); bool sg = n[5] == 's', mx = n[7] == 'a' && n[8] == 'x'; E c = mkBin(sg ? KSlt : KUlt, a, b); ret(mx ? mkIte(c, b, a) : mkIte(c, a, b)); return true; }
  case I_ABS: { E a = A(0); ret(mkIte(mkBin(KSlt, a, mkConst(0, a->w)), mkBin(KSub, mkConst(0, a->w), a), a)); return true; }
  case I_CTPOP: { E a = A(0), r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(a, i, 1), a->w)); ret(r); return true; }
  case I_CTLZ: { E a = A(0), r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); ret(r); return true; }
  case I_CTTZ: { E a = A(0), r = mkConst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); ret(r); return true; }
  case I_BSWAP: { E a = A(0), r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); ret(r); return true; }
  case I_FSH: { bool l = d.callee->getName()[8] == 'l'; E a = A(0), b = A(1), c = A(2); unsigned w = a->w; if (!isC(c)) { inconclusive(*s, "symbolic funnel shift"); kill(); return true; } unsigned k = c->val % w;
    if (!k) { ret(l ? a : b); return true; } unsigned sl = l ? k : w - k; ret(mkBin(KOr, mkBin(KShl, a, mkConst(sl, w)), mkBin(KLShr, b, mkConst(w - sl, w)))); return true; }
  case I_FABS: { E a = A(0); ret(mkBin(KAnd, a, mkConst(maskw(a->w) >> 1, a->w))); return true; }
  case I_SQRT: ret(mkFP(KFSqrt, A(0), nullptr, d.w)); return true;
  case I_FMULADD: ret(mkFP(KFAdd, mkFP(KFMul, A(0), A(1), d.w), A(2), d.w)); return true;
  case I_SATSUB: { E a = A(0), b = A(1); ret(mkIte(mkBin(KUlt, a, b), mkConst(0, a->w), mkBin(KSub, a, b))); return true; }
  case I_SATADD: { E a = A(0), b = A(1), r = mkBin(KAdd, a, b); ret(mkIte(mkBin(KUlt, r, a), mkConst(~0ULL, a->w), r)); return true; }
  case I_TRAP: err("abort", "abort() or trap reached"); return true;
  case I_UBTRAP: { static const char *nm[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow or division by zero", "dynamic type", "float cast overflow", "function type", "implicit conversion", "invalid builtin", "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound"};
    u64 k = isC(A(0)) ? A(0)->val : 99; err("ub", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?")); return true; }
  case I_OBJSIZE: ret(mkConst(~0ULL, d.w)); return true;
  case I_EXPECT: ret(A(0)); return true;
  case I_ISCONST: ret(mkConst(0, 1)); return true;
  case I_STACKSAVE: ret(mkConst(0, 64)); return true;
  case I_U8: case I_U16: case I_U32: case I_U64: { unsigned w = d.intr == I_U8 ? 8 : d.intr == I_U16 ? 16 : d.intr == I_U32 ? 32 : 64; std::string n = name(0); E v = inSym(*s, n, w, 0); s->in.push_back({n, {v}, 0}); ret(v); return true; }
  case I_AUX: { static std::vector<int> pool; int k = s->naux++; while ((int)pool.size() <= k) pool.push_back((int)mkVar("aux", 8)->val); int v = pool[k]; if ((int)s->model.size() <= v) s->model.resize(v + 1, 0); s->model[v] = evalExpr(A(0), s->model) & 255; ret(varExpr(v)); return true; }
  case I_SAMEX: ret(mkConst(A(0) == A(1), 32)); return true;
  case I_MKSYM: { if (!CC(0) || !CC(1)) return true; u64 p = A(0)->val, n = A(1)->val; int i = resolve(p, n, "write"); if (i < 0) return true; std::string nm = name(2); InLog L{nm, {}, 1}; s->in.push_back(L);
    for (u64 k = 0; k < n; k++) { E v = inSym(*s, nm, 8, 1); s->in.back().v.push_back(v); s->mem.wr(i)->b[p - s->mem.at(i).base + k] = v; } return true; }
  case I_CHOICE: { if (!CC(0)) return true; int n = A(0)->val; std::string nm = name(1); if (n < 1) { kill(); return true; }
    for (int k = n - 1; k >= 1; k--) { State *t = new State(*s); t->in.push_back({nm, {mkConst(k, 32)}, 2}); t->st.back().r[d.dst] = mkConst(k, 32); t->nforks++; g_pend.push_back(t); S.forks++; forkProf(*s); }
    s->in.push_back({nm, {mkConst(0, 32)}, 2}); ret(mkConst(0, 32)); return true; }
  case I_ASSUME: case I_ASSERT: {
    if (d.intr == I_ASSERT && !CC(1)) return true;
    E c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkConst(0, c->w)));
    if (d.intr == I_ASSUME) {
      if (isC(c)) { if (!c->val) { S.assumed_out++; kill(); } return true; }
      Model m; int r = may(*s, c, m); if (r == 1) addCons(*s, c, m); else { if (r < 0) inconclusive(*s, "solver unknown in assume"); else S.assumed_out++; kill(); } return true; }
    if (isC(c)) { S.asserts_const++; if (!c->val) { err("assert", name(1)); } return true; }
    S.asserts_sym++; Model m; Model old = s->model; 
    { E nc = mkNot(c); int r;
      if (evalExpr(nc, s->model)) { r = 1; m = s->model; } else r = solve(*s, nc, m); // the verdict on an assertion is always the SMT solver's
      if (r == 1) { Model keep = s->model; s->model = m; 
        if (c->uninit) violation(*s, "uninit", "assertion depends on uninitialised memory: " + name(1)); else violation(*s, "assert", name(1)); s->model = keep;
        Model m2; if (may(*s, c, m2) == 1) addCons(*s, c, m2); else kill(); }
      else if (r < 0) { inconclusive(*s, "solver unknown in assertion " + name(1)); kill(); } }
    return true; }
  case I_FAILM: if (!CC(0)) return true; err("assert", name(0)); return true;
  case I_COVER: if (!CC(0)) return true; s->cov.insert(name(0)); return true;
  case I_OBSI: { if (!CC(0)) return true; E v = A(1); s->obs.push_back({name(0), 0, {v->w < 64 ? mkSExt(v, 64) : v}}); return true; }
  case I_OBSS: {
    if (!CC(1)) return true; u64 a = A(1)->val; ObsLog o; o.name = name(0); o.kind = 1; if (!a) { o.kind = 2; s->obs.push_back(o); return true; }
    // fork on the string length so that the logged string is well defined
    for (u64 k = 0; k < 100000; k++) {
      int i = resolve(a + k, 1, "read"); if (i < 0) return true; E e = rdByte(i, a + k - s->mem.at(i).base);
      if (isC(e)) { if (!e->val) break; o.v.push_back(e); continue; }
      E z = mkEq(e, mkConst(0, 8)); Model m, m2; int r0 = may(*s, z, m), r1 = may(*s, mkNot(z), m2);
      if (r0 == 1 && r1 == 1) { State *t = new State(*s); addCons(*t, z, m); t->st.back().ip--; g_pend.push_back(t); S.forks++; addCons(*s, mkNot(z), m2); o.v.push_back(e); }
      else if (r0 == 1) break; else o.v.push_back(e);
    }
    s->obs.push_back(o); return true; }
  case I_ISSYM: ret(mkConst(!isC(A(0)), 32)); return true;
  case I_CONCR: if (!CC(0)) return true; ret(A(0)); return true;
  case I_LIVE: { u64 n = 0; for (auto &e : s->mem.v) if (!e.freed && e.kind == OHeap) n++; ret(mkConst(n, 64)); return true; }
  case I_ITE: { E c = A(0); if (c->w > 1) c = mkNot(mkEq(c, mkConst(0, c->w))); c = domFold(c); ret(mkIte(c, A(1), A(2))); return true; }
  case I_VALID: { if (!CC(0) || !CC(1)) return true; u64 a = A(0)->val, n = A(1)->val; int i = s->mem.find(a); ret(mkConst(i >= 0 && !s->mem.at(i).freed && a + n <= s->mem.at(i).base + s->mem.at(i).size, 32)); return true; }
  case I_EXIT: pathDone(*s); kill(); return true;
  case I_STRCMP: case I_STRNCMP: case I_MEMCMP: {
    if (!CC(0) || !CC(1)) return true; u64 p = A(0)->val, q = A(1)->val; u64 lim = ~0ULL; if (d.intr != I_STRCMP) { if (!CC(2)) return true; lim = A(2)->val; }
    bool str = d.intr != I_MEMCMP; std::vector<std::pair<E, E>> ab; E contc = mkTrue(); bool ended = false;
    for (u64 k = 0; k < lim; k++) {
      int i = s->mem.find(p + k), j = s->mem.find(q + k);
      bool bad1 = i < 0 || s->mem.at(i).freed || p + k >= s->mem.at(i).base + s->mem.at(i).size, bad2 = j < 0 || s->mem.at(j).freed || q + k >= s->mem.at(j).base + s->mem.at(j).size;
      if (bad1 || bad2) { Model m; int r = str ? may(*s, contc, m) : 1; if (r) { if (r == 1 && str) s->model = m; fail(accessErr(bad1 ? p + k : q + k, 1, "read (string comparison)")); return true; } ended = true; break; }
      E a = rdByte(i, p + k - s->mem.at(i).base), b = rdByte(j, q + k - s->mem.at(j).base); ab.push_back({a, b});
      if (isC(a) && isC(b)) { if (a->val != b->val || (str && a->val == 0)) { ended = true; break; } continue; }
      if (str) { E z = mkConst(0, 8); contc = mkAnd1(contc, mkAnd1(mkEq(a, b), mkNot(mkEq(isC(b) ? b : a, z)))); if (isC(contc, 0)) { ended = true; break; } }
    }
    (void)ended; unsigned w = d.w ? d.w : 32; E r = mkConst(0, w);
    for (int k = (int)ab.size() - 1; k >= 0; k--) { E a = ab[k].first, b = ab[k].second, eq = mkEq(a, b); E df = mkBin(KSub, mkZExt(a, w), mkZExt(b, w));
      E z = str ? mkEq(isC(b) ? b : a, mkConst(0, 8)) : mkFalse(); r = mkIte(mkNot(eq), df, mkIte(z, mkConst(0, w), r)); }
    ret(r); return true; }
  case I_STRCHR: {
    if (!CC(0)) return true; u64 p = A(0)->val; E c = mkExtract(A(1), 0, 8);
    std::string t; bool conc = cstr(p, t);
    if (conc) { E r = mkIte(mkEq(c, mkConst(0, 8)), mkConst(p + t.size(), 64), mkConst(0, 64)); for (int k = (int)t.size() - 1; k >= 0; k--) r = mkIte(mkEq(c, mkConst((u8)t[k], 8)), mkConst(p + k, 64), r); ret(r); return true; }
    // symbolic contents: walk, forking on each decision
    for (u64 k = 0;; k++) { int i = resolve(p + k, 1, "read (string scan)"); if (i < 0) return true; E e = rdByte(i, p + k - s->mem.at(i).base); State *o;
      E hit = mkEq(e, c); bool bv = branch(hit, o); if (dead) return true; if (o) { o->st.back().ip--; g_pend.push_back(o); } if (bv) { ret(mkConst(p + k, 64)); return true; }
      E z = mkEq(e, mkConst(0, 8)); bv = branch(z, o); if (dead) return true; if (o) { o->st.back().ip--; g_pend.push_back(o); } if (bv) { ret(mkConst(0, 64)); return true; } }
    return true; }
  }
  return false;
}

void Exec::step() {
  DInst &d = fr->f->bl[fr->bl].in[fr->ip]; fr->ip++; s->insts++; S.insts++;
  switch (d.op) {
  case Instruction::Br: {
    if (!d.sub) { take(s, d.edges[0]); return; }
    E c = get(d.a); if (isC(c)) { take(s, d.edges[c->val ? 0 : 1]); return; }
    State *o; bool v = branch(c, o); if (dead) { delete o; return; }
    if (o) { take(o, d.edges[v ? 1 : 0]); g_pend.push_back(o); }
    take(s, d.edges[v ? 0 : 1]); return; }
  case Instruction::Switch: {
    E c = get(d.a);
    if (isC(c)) { for (size_t i = 0; i < d.cases.size(); i++) if ((d.cases[i] & maskw(c->w)) == c->val) { take(s, d.edges[i + 1]); return; } take(s, d.edges[0]); return; }
    // group cases by destination block when they carry the same phi moves
    std::vector<std::pair<int, E>> g; // edge index, condition
    E any = mkFalse();
    for (size_t i = 0; i < d.cases.size(); i++) { E q = mkEq(c, mkConst(d.cases[i], c->w)); any = mkOr1(any, q);
      bool f = false; for (auto &x : g) { Edge &e1 = d.edges[x.first], &e2 = d.edges[i + 1]; bool same = e1.blk == e2.blk && e1.mv.size() == e2.mv.size(); for (size_t k = 0; same && k < e1.mv.size(); k++) same = e1.mv[k].src.slot == e2.mv[k].src.slot && e1.mv[k].src.c == e2.mv[k].src.c; if (same) { x.second = mkOr1(x.second, q); f = true; break; } }
      if (!f) g.push_back({(int)i + 1, q}); }
    g.push_back({0, mkNot(any)});
    std::vector<std::pair<int, Model>> feas; std::vector<E> fc;
    for (auto &x : g) { Model m; int r = may(*s, x.second, m); if (r < 0) { inconclusive(*s, "solver unknown at switch"); continue; } if (r == 1) { feas.push_back({x.first, m}); fc.push_back(x.second); } }
    if (feas.empty()) { kill(); return; }
    if (feas.size() > 1 && c->uninit) { err("uninit", "switch on uninitialised memory"); return; }
    for (size_t i = 1; i < feas.size(); i++) { State *t = new State(*s); addCons(*t, fc[i], feas[i].second); take(t, d.edges[feas[i].first]); t->nforks++; g_pend.push_back(t); S.forks++; forkProf(*s); }
    addCons(*s, fc[0], feas[0].second); take(s, d.edges[feas[0].first]); return; }
  case Instruction::Ret: { std::vector<E> r; for (auto &o : d.args) r.push_back(get(o)); popFrame(r); return; }
  case Instruction::Unreachable: err("abort", "unreachable instruction executed"); return;
  case Instruction::Alloca: { if (!isC(get(d.a))) { if (!concretize(d.a) || dead) return; } u64 n = d.imm * get(d.a)->val; ObjData *o = newObj(n, OStack, false); u64 a = s->mem.add(o); fr->al.push_back(a); fr->r[d.dst] = mkConst(a, 64); return; }
  case Instruction::Load: {
    E a = get(d.a);
    if (d.ndst > 1 || !d.w) { if (!isC(a)) { concretize(d.a); if (dead) return; a = get(d.a); }
      std::function<bool(Type *, u64, int &)> ld = [&](Type *T, u64 ad, int &k) -> bool {
        if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ST->getNumElements(); i++) if (!ld(ST->getElementType(i), ad + DL->getStructLayout(ST)->getElementOffset(i), k)) return false; return true; }
        if (auto *AT = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < AT->getNumElements(); i++) if (!ld(AT->getElementType(), ad + i * DL->getTypeAllocSize(AT->getElementType()), k)) return false; return true; }
        unsigned w = scalarW(T); int i = resolve(ad, (w + 7) / 8, "read"); if (i < 0) return false; fr->r[d.dst + k++] = rd(i, ad - s->mem.at(i).base, w); return true; };
      int k = 0; ld(d.I->getType(), a->val, k); return; }
    if (!isC(a)) { E r = symLoad(d.a, d.w); if (dead) return; if (r) { fr->r[d.dst] = r; return; } a = get(d.a); }
    unsigned n = (d.w + 7) / 8; int i = resolve(a->val, n, "read"); if (i < 0) return; fr->r[d.dst] = rd(i, a->val - s->mem.at(i).base, d.w); return; }
  case Instruction::Store: {
    if (!isC(get(d.a))) { concretize(d.a); if (dead) return; } u64 a = get(d.a)->val;
    std::function<bool(Type *, u64, int &)> stf = [&](Type *T, u64 ad, int &k) -> bool {
      if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ST->getNumElements(); i++) if (!stf(ST->getElementType(i), ad + DL->getStructLayout(ST)->getElementOffset(i), k)) return false; return true; }
      if (auto *AT = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < AT->getNumElements(); i++) if (!stf(AT->getElementType(), ad + i * DL->getTypeAllocSize(AT->getElementType()), k)) return false; return true; }
      unsigned w = scalarW(T); if (!w || w > 64) { inconclusive(*s, "store type"); kill(); return false; } int i = resolve(ad, (w + 7) / 8, "write"); if (i < 0) return false; if (s->mem.at(i).o->ro) { fail("write to read-only object"); return false; } E v = get(d.args[k++]); if (v->w != w) v = v->w > w ? mkExtract(v, 0, w) : mkZExt(v, w); wrv(i, ad - s->mem.at(i).base, v); return true; };
    int k = 0; stf(d.ty, a, k); return; }
  case Instruction::GetElementPtr: {
    E r = mkBin(KAdd, get(d.a), mkConst(d.imm, 64));
    for (auto &g : d.gep) { E x = get(g.first); x = mkSExt(x, 64); r = mkBin(KAdd, r, mkBin(KMul, x, mkConst(g.second.first, 64))); }
    fr->r[d.dst] = r; return; }
  case Instruction::ICmp: {
    E a = get(d.a), b = get(d.b), r; switch (d.sub) {
    case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
    case CmpInst::ICMP_ULT: r = mkBin(KUlt, a, b); break; case CmpInst::ICMP_ULE: r = mkBin(KUle, a, b); break; case CmpInst::ICMP_UGT: r = mkBin(KUlt, b, a); break; case CmpInst::ICMP_UGE: r = mkBin(KUle, b, a); break;
    case CmpInst::ICMP_SLT: r = mkBin(KSlt, a, b); break; case CmpInst::ICMP_SLE: r = mkBin(KSle, a, b); break; case CmpInst::ICMP_SGT: r = mkBin(KSlt, b, a); break; default: r = mkBin(KSle, b, a); }
    fr->r[d.dst] = r; return; }
  case Instruction::FCmp: {
    E a = get(d.a), b = get(d.b); E un = mkFP(KFUno, a, b, 1), r; bool neg = d.sub >= CmpInst::FCMP_UNO && d.sub <= CmpInst::FCMP_UNE; 
    switch (d.sub) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkFP(KFOeq, a, b, 1); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkFP(KFOlt, a, b, 1); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkFP(KFOle, a, b, 1); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkFP(KFOlt, b, a, 1); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkFP(KFOle, b, a, 1); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkAnd1(mkNot(mkFP(KFOeq, a, b, 1)), mkNot(un)); break;
    case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = mkTrue(); break; default: r = mkFalse(); }
    if (neg && d.sub != CmpInst::FCMP_UNO) r = mkOr1(r, un);
    fr->r[d.dst] = r; return; }
  case Instruction::Select: { E c = domFold(get(d.a)); if (d.imm && !isC(c) && !c->uninit) { concretize(d.a); if (dead) return; c = get(d.a); } int n = d.ndst; std::vector<E> v; for (int i = 0; i < n; i++) v.push_back(mkIte(c, get(d.args[i]), get(d.args[n + i]))); for (int i = 0; i < n; i++) fr->r[d.dst + i] = v[i]; return; }
  case Instruction::ExtractValue: case Instruction::InsertValue: { std::vector<E> v; for (auto &o : d.args) v.push_back(get(o)); for (size_t i = 0; i < v.size(); i++) fr->r[d.dst + i] = v[i]; return; }
  case Instruction::Call: {
    if (d.intr == -2) { return; }
    if (d.intr >= 0) { intrinsic(d); return; }
    Function *F = d.callee;
    if (!F) { if (!isC(get(d.a))) { concretize(d.a); if (dead) return; } auto it = g_faddr.find(get(d.a)->val); if (it == g_faddr.end()) { fail("call through invalid function pointer"); return; } F = it->second; }
    if (F->isDeclaration()) {
      int id = intrinsicId(F); if (id >= 0) { DInst *dd = new DInst(d); dd->callee = F; dd->intr = id; intrinsic(*dd); delete dd; return; }
      inconclusive(*s, "unmodelled external function " + F->getName().str()); kill(); return; }
    std::vector<E> args; args.reserve(d.args.size()); for (auto &o : d.args) args.push_back(get(o));
    call(d, F, args); return; }
  case Instruction::Add: fr->r[d.dst] = mkBin(KAdd, get(d.a), get(d.b)); return;
  case Instruction::Sub: fr->r[d.dst] = mkBin(KSub, get(d.a), get(d.b)); return;
  case Instruction::Mul: fr->r[d.dst] = mkBin(KMul, get(d.a), get(d.b)); return;
  case Instruction::And: fr->r[d.dst] = mkBin(KAnd, get(d.a), get(d.b)); return;
  case Instruction::Or: fr->r[d.dst] = mkBin(KOr, get(d.a), get(d.b)); return;
  case Instruction::Xor: fr->r[d.dst] = mkBin(KXor, get(d.a), get(d.b)); return;
  case Instruction::Shl: fr->r[d.dst] = mkBin(KShl, get(d.a), get(d.b)); return;
  case Instruction::LShr: fr->r[d.dst] = mkBin(KLShr, get(d.a), get(d.b)); return;
  case Instruction::AShr: fr->r[d.dst] = mkBin(KAShr, get(d.a), get(d.b)); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E b = get(d.b); State *o; E z = mkEq(b, mkConst(0, b->w)); 
    if (!isC(z, 0)) { bool v = branch(z, o); if (dead) { delete o; return; } if (o) { o->st.back().ip--; g_pend.push_back(o); } if (v) { err("ub", "division by zero"); return; } b = get(d.b); }
    fr->r[d.dst] = mkBin(d.op == Instruction::UDiv ? KUDiv : d.op == Instruction::SDiv ? KSDiv : d.op == Instruction::URem ? KURem : KSRem, get(d.a), b); return; }
  case Instruction::FAdd: fr->r[d.dst] = mkFP(KFAdd, get(d.a), get(d.b), d.w); return;
  case Instruction::FSub: fr->r[d.dst] = mkFP(KFSub, get(d.a), get(d.b), d.w); return;
  case Instruction::FMul: fr->r[d.dst] = mkFP(KFMul, get(d.a), get(d.b), d.w); return;
  case Instruction::FDiv: fr->r[d.dst] = mkFP(KFDiv, get(d.a), get(d.b), d.w); return;
  case Instruction::FNeg: { E a = get(d.a); fr->r[d.dst] = mkBin(KXor, a, mkConst(1ULL << (a->w - 1), a->w)); return; }
  case Instruction::Trunc: fr->r[d.dst] = mkExtract(get(d.a), 0, d.w); return;
  case Instruction::ZExt: fr->r[d.dst] = mkZExt(get(d.a), d.w); return;
  case Instruction::SExt: fr->r[d.dst] = mkSExt(get(d.a), d.w); return;
  case Instruction::BitCast: case Instruction::Freeze: fr->r[d.dst] = get(d.a); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { E a = get(d.a); fr->r[d.dst] = a->w > d.w ? mkExtract(a, 0, d.w) : mkZExt(a, d.w); return; }
  case Instruction::FPExt: fr->r[d.dst] = mkFP(KFPExt, get(d.a), nullptr, d.w); return;
  case Instruction::FPTrunc: fr->r[d.dst] = mkFP(KFPTrunc, get(d.a), nullptr, d.w); return;
  case Instruction::SIToFP: if (!isC(get(d.a)) && !get(d.a)->uninit) { concretize(d.a, 24, true); if (dead) return; } fr->r[d.dst] = mkFP(KSIToFP, get(d.a), nullptr, d.w); return;
  case Instruction::UIToFP: fr->r[d.dst] = mkFP(KUIToFP, get(d.a), nullptr, d.w); return;
  case Instruction::FPToSI: fr->r[d.dst] = mkFP(KFPToSI, get(d.a), nullptr, d.w); return;
  case Instruction::FPToUI: fr->r[d.dst] = mkFP(KFPToUI, get(d.a), nullptr, d.w); return;
  default: inconclusive(*s, std::string("unsupported instruction ") + d.I->getOpcodeName()); kill(); return;
  }
}

static void writeStats();
static void openLog() { std::string p = optOut + "." + std::to_string(getpid()); g_log = fopen(p.c_str(), "w"); if (!g_log) die("cannot write " + p); }
static void maybeSplit() { // hand half of the pending states to a new process when a slot is free
  if (g_pend.size() < 2 || sh->active >= optJobs) return;
  int a = __sync_add_and_fetch(&sh->active, 1); if (a > optJobs) { __sync_fetch_and_sub(&sh->active, 1); return; }
  fflush(g_log); pid_t p = fork(); if (p < 0) { __sync_fetch_and_sub(&sh->active, 1); return; }
  size_t n = g_pend.size(); std::vector<State *> keep;
  // child: even-indexed from the bottom (oldest, largest subtrees first)
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, 0); S = Stats(); g_cover.clear(); g_inconcl.clear(); g_samples.clear(); g_sampN = 0; g_funcs.clear(); g_rng ^= getpid() * 0x9E3779B97F4A7C15ULL; openLog();
    for (size_t i = 0; i < n; i++) if (i % 2 == 0) keep.push_back(g_pend[i]); // leak others
  } else for (size_t i = 0; i < n; i++) if (i % 2 == 1) keep.push_back(g_pend[i]); else delete g_pend[i];
  g_pend.swap(keep);
  if (p == 0) throw 1; // abandon the current state (the parent continues it)
}
static bool timeUp() { return sh->stop || now() > tEnd; }
static bool memHigh() { static u64 lastn; if (exprCount() - lastn < 20000) return false; lastn = exprCount(); FILE *f = fopen("/proc/self/statm", "r"); if (!f) return false; unsigned long a, r = 0; if (fscanf(f, "%lu %lu", &a, &r) != 2) r = 0; fclose(f); return r * 4096 / (1 << 20) > optMemMB; }
void Exec::run(State *st) {
  s = st; dead = false; u64 cnt = 0;
  while (!dead) {
    fr = &s->st.back(); step();
    if (dead) break; fr = &s->st.back();
    if ((++cnt & 1023) == 0) {
      if (timeUp() || ((cnt & 0xffff) == 0 && memHigh())) { S.unexplored++; break; }
      if (s->insts > optMaxInst) { err("timeout", "instruction budget exceeded: suspected non-termination"); break; }
      maybeSplit();
    }
  }
  delete s;
}
static void mainLoop() {
  while (true) {
    try {
      while (!g_pend.empty()) {
        if (timeUp()) { S.unexplored += g_pend.size(); g_pend.clear(); break; }
        if (memHigh()) { S.unexplored += g_pend.size(); g_pend.clear(); g_inconcl["memory limit"]++; break; }
        maybeSplit(); if (g_pend.empty()) break;
        State *t = g_pend.back(); g_pend.pop_back(); Exec x; x.run(t);
      }
      return;
    } catch (int) { continue; }
  }
}
static void writeStats() {
  if (g_fprofOn) { for (auto &p : g_fprof) fprintf(stderr, "FORK %llu %s\n", (unsigned long long)p.second, p.first.c_str()); }
  fprintf(g_log, "{\"t\":\"stats\",\"completed\":%llu,\"assumed_out\":%llu,\"errors\":%llu,\"inconclusive\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"qsat\":%llu,\"qunsat\":%llu,\"qunk\":%llu,\"qcvc5\":%llu,\"cachehits\":%llu,\"domdec\":%llu,\"modeldec\":%llu,\"asserts_sym\":%llu,\"asserts_const\":%llu,\"unexplored\":%llu,\"xchecks\":%llu,\"ztime\":%.4f,\"cover\":{",
    (unsigned long long)S.completed, (unsigned long long)S.assumed_out, (unsigned long long)S.errors, (unsigned long long)S.inconclusive, (unsigned long long)S.forks, (unsigned long long)S.insts, (unsigned long long)S.queries, (unsigned long long)S.qsat, (unsigned long long)S.qunsat, (unsigned long long)S.qunk, (unsigned long long)S.qcvc5, (unsigned long long)S.cachehits, (unsigned long long)S.domdec, (unsigned long long)S.modeldec, (unsigned long long)S.asserts_sym, (unsigned long long)S.asserts_const, (unsigned long long)S.unexplored, (unsigned long long)S.xchecks, S.zt);
  bool f = true; for (auto &p : g_cover) { fprintf(g_log, "%s%s:%llu", f ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(g_log, "},\"inconcl\":{"); f = true; for (auto &p : g_inconcl) { fprintf(g_log, "%s%s:%llu", f ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(g_log, "},\"funcs\":["); f = true; for (auto &p : g_funcs) { fprintf(g_log, "%s%s", f ? "" : ",", jstr(p).c_str()); f = false; }
  fprintf(g_log, "]}\n"); for (auto &x : g_samples) fprintf(g_log, "%s\n", x.c_str()); fclose(g_log);
}
static void initZ3() {
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); 
  Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)optRlimit);
  zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs); Z3_solver_set_params(zc, zs, p);
  zsfp = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_FPBV")); Z3_solver_inc_ref(zc, zsfp); Z3_solver_set_params(zc, zsfp, p);
}
static void initGlobals(State *s) {
  u64 fa = 0x10000; for (auto &F : *M) { g_addr[&F] = fa; g_faddr[fa] = &F; fa += 16; }
  std::vector<GlobalVariable *> gs;
  for (auto &G : M->globals()) { u64 n = DL->getTypeAllocSize(G.getValueType()); ObjData *o = newObj(n, OGlobal, true); o->name = G.getName().str(); gs.push_back(&G);
    if (G.isConstant() && G.hasInitializer()) { o->rc = 1 << 20; g_addr[&G] = g_romNext; g_rom.push_back({g_romNext, (u32)n, OGlobal, false, o}); g_romNext += (n + GAP + 31) & ~15ULL; if (g_romNext > HEAP0 - 0x100000) die("rom space"); }
    else g_addr[&G] = s->mem.add(o); }
  for (auto *G : gs) { int i = s->mem.find(g_addr[G]); ObjData *o = s->mem.at(i).o;
    if (!G->hasInitializer()) { if (optVerbose) fprintf(stderr, "note: external global %s\n", G->getName().str().c_str()); continue; }
    std::function<void(Constant *, u64)> wr = [&](Constant *C, u64 off) {
      Type *T = C->getType();
      if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
      if (T->isStructTy()) { for (unsigned k = 0; k < T->getStructNumElements(); k++) wr(C->getAggregateElement(k), off + DL->getStructLayout(cast<StructType>(T))->getElementOffset(k)); return; }
      if (T->isArrayTy()) { u64 es = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned k = 0; k < T->getArrayNumElements(); k++) wr(C->getAggregateElement(k), off + k * es); return; }
      E e = constScalar(C); unsigned nb = (e->w + 7) / 8; for (unsigned k = 0; k < nb; k++) o->b[off + k] = mkConst(e->val >> (8 * k), 8); };
    wr(G->getInitializer(), 0); o->ro = G->isConstant(); }
}
int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str()); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--repo") optRepo = nx(); else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--seed") optSeed = atoi(nx().c_str()); else if (a == "--max-inst") optMaxInst = atoll(nx().c_str()); else if (a == "--no-domain") optNoDomain = true; else if (a == "-v") optVerbose = true; else if (a == "--rlimit") optRlimit = atoll(nx().c_str()); else if (a == "--mem") optMemMB = atoll(nx().c_str()); else bc = a; }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DataLayout dl(M); DL = &dl;
  tStart = now(); tEnd = tStart + optTime; g_rng = optSeed * 0x9E3779B97F4A7C15ULL + 12345;
  sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)sh, 0, sizeof *sh); sh->active = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 256UL << 20; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1UL << 30); setrlimit(RLIMIT_STACK, &rl);
  { Bits b; b.set(); DFULL = domIntern(b); }
  initZ3(); pid_t root = getpid(); openLog();
  State *s = new State; initGlobals(s);
  Function *F = M->getFunction(optEntry); if (!F || F->isDeclaration()) die("no entry function " + optEntry);
  DFunc *D = decode(F); s->st.emplace_back(); Frame &f = s->st.back(); f.f = D; f.bl = 0; f.ip = 0; f.prevbl = -1; f.call = nullptr; f.r.assign(D->nslots, nullptr);
  g_pend.push_back(s);
  mainLoop(); writeStats(); __sync_fetch_and_sub(&sh->active, 1);
  if (getpid() != root) _exit(0);
  int st, bad = 0; pid_t w; while ((w = waitpid(-1, &st, 0)) > 0 || (w < 0 && errno == EINTR)) if (w > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad++; __sync_fetch_and_sub(&sh->active, 1); }
  std::string p = optOut + "." + std::to_string(root); FILE *lf = fopen(p.c_str(), "a"); fprintf(lf, "{\"t\":\"root\",\"wall\":%.3f,\"crashed\":%d}\n", now() - tStart, bad); fclose(lf);
  return 0;
}
