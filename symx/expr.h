// Hash-consed bit-vector expression DAG with constant folding and light rewriting.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <bitset>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 {
  KConst, KVar, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt,
  KFAdd, KFSub, KFMul, KFDiv, KFRem, KFOeq, KFOlt, KFOle, KFUno, KFPExt, KFPTrunc, KSIToFP, KUIToFP, KFPToSI, KFPToUI, KFSqrt
};

struct Expr {
  Kind k; u8 w;
  bool uninit;          // depends on an uninitialised byte
  int svar;             // -1 no variable, >=0 the single variable, -2 several
  u32 id;
  u64 val;              // constant / variable index / extract low bit
  Expr *a, *b, *c;
  Z3_ast z; u64 gen; u64 ev;
};
typedef Expr *E;

struct VarInfo { std::string name; u8 w; bool uninit; };
extern std::vector<VarInfo> g_vars;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

E mkConst(u64 v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool uninit = false);
E varExpr(int idx);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkRawExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFP(Kind k, E a, E b, unsigned w);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline bool isC(E e) { return e->k == KConst; }
static inline bool isC(E e, u64 v) { return e->k == KConst && e->val == v; }
E mkNot(E a);                       // 1-bit negation
E mkAnd1(E a, E b); E mkOr1(E a, E b);
E mkEq(E a, E b);
u64 foldBin(Kind k, u64 a, u64 b, unsigned w, bool *ok);
u64 foldFP(Kind k, u64 a, u64 b, unsigned aw, unsigned w);
std::string exprStr(E e, int depth = 6);

typedef std::bitset<256> Bits;
const Bits &truth8(E cond);         // cond: 1-bit, single 8-bit variable
u64 evalExpr(E e, const std::vector<u64> &model);
const std::vector<int> &exprVars(E e);
size_t exprCount();
