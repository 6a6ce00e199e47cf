#include "expr.h"
#include <cstring>
#include <cmath>
#include <algorithm>

std::vector<VarInfo> g_vars;
static std::vector<E> g_varE;
struct H { size_t operator()(const Expr *e) const {
  u64 h = e->k * 0x9E3779B97F4A7C15ULL + e->w;
  h = (h ^ e->val) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
  h = (h ^ (u64)(e->a ? e->a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
  h = (h ^ (u64)(e->b ? e->b->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
  h = (h ^ (u64)(e->c ? e->c->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
  return h; } };
struct Q { bool operator()(const Expr *x, const Expr *y) const {
  return x->k == y->k && x->w == y->w && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };
static std::unordered_set<Expr *, H, Q> g_tab(1 << 16);
static u32 g_next = 1;
size_t exprCount() { return g_next; }

static inline int mergeS(int x, int y) { if (x == -1) return y; if (y == -1) return x; if (x == y) return x; return -2; }
static E intern(Kind k, unsigned w, u64 val, E a, E b, E c) {
  Expr t; t.k = k; t.w = w; t.val = val; t.a = a; t.b = b; t.c = c;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  E e = new Expr; *e = t; e->id = g_next++; e->z = nullptr; e->gen = 0; e->ev = 0;
  e->svar = -1; e->uninit = false;
  if (k == KVar) { e->svar = (int)val; e->uninit = g_vars[val].uninit; }
  for (E x : {a, b, c}) if (x) { e->svar = mergeS(e->svar, x->svar); e->uninit |= x->uninit; }
  g_tab.insert(e); return e;
}
static E cache8[256], cache1[2];
static E c32[512], c64[512];
E mkConst(u64 v, unsigned w) {
  v &= maskw(w);
  if (w == 8) { E &e = cache8[v]; if (!e) e = intern(KConst, 8, v, 0, 0, 0); return e; }
  if (w == 1) { E &e = cache1[v]; if (!e) e = intern(KConst, 1, v, 0, 0, 0); return e; }
  if (v < 512) { if (w == 32) { E &e = c32[v]; if (!e) e = intern(KConst, 32, v, 0, 0, 0); return e; }
                 if (w == 64) { E &e = c64[v]; if (!e) e = intern(KConst, 64, v, 0, 0, 0); return e; } }
  return intern(KConst, w, v, 0, 0, 0);
}
E mkVar(const std::string &name, unsigned w, bool un) {
  int i = g_vars.size(); g_vars.push_back({name, (u8)w, un});
  E e = intern(KVar, w, i, 0, 0, 0); g_varE.push_back(e); return e;
}
E varExpr(int i) { return g_varE[i]; }

u64 foldBin(Kind k, u64 a, u64 b, unsigned w, bool *ok) {
  *ok = true; u64 m = maskw(w);
  switch (k) {
  case KAdd: return (a + b) & m; case KSub: return (a - b) & m; case KMul: return (a * b) & m;
  case KUDiv: return b ? a / b : m;
  case KURem: return b ? a % b : a;
  case KSDiv: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(0 - (u64)x) & m; return (u64)(x / y) & m; }
  case KSRem: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
  case KShl: return b >= w ? 0 : (a << b) & m; case KLShr: return b >= w ? 0 : a >> b;
  case KAShr: { i64 x = sx(a, w); if (b >= w) b = w - 1; return (u64)(x >> b) & m; }
  case KEq: return a == b; case KUlt: return a < b; case KUle: return a <= b;
  case KSlt: return sx(a, w) < sx(b, w); case KSle: return sx(a, w) <= sx(b, w);
  default: *ok = false; return 0;
  }
}
static inline bool isCmp(Kind k) { return k >= KEq && k <= KSle; }
static inline bool comm(Kind k) { return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq; }
// is the DAG a small ITE tree whose leaves are all constants?
static bool iteConstLeaves(E e, int depth) {
  if (isC(e)) return true;
  if (e->k != KIte || depth == 0) return false;
  return iteConstLeaves(e->b, depth - 1) && iteConstLeaves(e->c, depth - 1);
}
E mkNot(E a) { return mkBin(KXor, a, mkTrue()); }
E mkAnd1(E a, E b) { return mkBin(KAnd, a, b); }
E mkOr1(E a, E b) { return mkBin(KOr, a, b); }
E mkEq(E a, E b) { return mkBin(KEq, a, b); }
static inline bool isNot(E e) { return e->w == 1 && e->k == KXor && isC(e->b, 1); }

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; u64 v = foldBin(k, a->val, b->val, w, &ok); if (ok) return mkConst(v, isCmp(k) ? 1 : w); }
  if (comm(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); if (isC(a)) std::swap(a, b); }
  // b is constant where possible for commutative ops
  switch (k) {
  case KAdd:
    if (isC(b, 0)) return a;
    if (isC(b) && a->k == KAdd && isC(a->b)) return mkBin(KAdd, a->a, mkConst(a->b->val + b->val, w));
    if (isC(b) && a->k == KIte && iteConstLeaves(a, 6)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
    if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
    if (w == 1) return mkBin(KXor, a, b);
    break;
  case KSub:
    if (isC(b, 0)) return a; if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(KAdd, a, mkConst(0 - b->val, w));
    if (w == 1) return mkBin(KXor, a, b);
    if (a->k == KAdd && a->a == b) return a->b;
    if (a->k == KAdd && a->b == b) return a->a;
    break;
  case KMul:
    if (isC(b, 0)) return b; if (isC(b, 1)) return a;
    if (isC(b) && (b->val & (b->val - 1)) == 0) return mkBin(KShl, a, mkConst(__builtin_ctzll(b->val), w));
    break;
  case KUDiv: if (isC(b, 1)) return a;
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(KLShr, a, mkConst(__builtin_ctzll(b->val), w)); break;
  case KURem: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(KAnd, a, mkConst(b->val - 1, w)); break;
  case KAnd:
    if (isC(b, 0)) return b; if (isC(b, maskw(w))) return a; if (a == b) return a;
    if (w == 1) { if (isNot(a) && a->a == b) return mkFalse(); if (isNot(b) && b->a == a) return mkFalse(); }
    if (isC(b) && a->k == KZExt && (b->val & maskw(a->a->w)) == maskw(a->a->w)) return a;
    if (isC(b) && a->k == KZExt && w > a->a->w) return mkZExt(mkBin(KAnd, a->a, mkConst(b->val, a->a->w)), w);
    if (isC(b) && a->k == KAnd && isC(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->val & b->val, w));
    if (isC(b) && w > 1 && w <= 64 && (b->val & (b->val + 1)) == 0) { unsigned lw = 64 - __builtin_clzll(b->val); if (lw < w && (a->k == KConcat || a->k == KSExt || a->k == KIte)) return mkZExt(mkExtract(a, 0, lw), w); }
    break;
  case KOr:
    if (isC(b, 0)) return a; if (isC(b, maskw(w))) return b; if (a == b) return a;
    if (w == 1) { if (isNot(a) && a->a == b) return mkTrue(); if (isNot(b) && b->a == a) return mkTrue(); }
    // (zext x) | (y << k) with k >= width(x)  ->  concat
    break;
  case KXor:
    if (isC(b, 0)) return a; if (a == b) return mkConst(0, w);
    if (isC(b) && a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(a->b->val ^ b->val, w));
    if (w == 1 && isC(b, 1)) {
      if (a->k == KUlt) return mkBin(KUle, a->b, a->a); if (a->k == KUle) return mkBin(KUlt, a->b, a->a);
      if (a->k == KSlt) return mkBin(KSle, a->b, a->a); if (a->k == KSle) return mkBin(KSlt, a->b, a->a);
      if (a->k == KIte) { if (isC(a->b) || isC(a->c) || isNot(a->b) || isNot(a->c)) return mkIte(a->a, mkNot(a->b), mkNot(a->c)); }
    }
    break;
  case KShl: case KLShr: case KAShr:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val < w && k == KLShr) { return mkZExt(mkExtract(a, b->val, w - b->val), w); }
    if (isC(b) && b->val < w && k == KShl && a->k == KZExt && a->a->w + b->val <= w) { /* keep concat form */
      E lo = mkConst(0, b->val); E m = mkConcat(a->a, lo); return mkZExt(m, w); }
    if (isC(b) && b->val >= w && k != KAShr) return mkConst(0, w);
    if (isC(b) && b->val < w && k == KAShr) return mkSExt(mkExtract(a, b->val, w - b->val), w);
    break;
  case KEq:
    if (a == b) return mkTrue();
    if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
    if (isC(b)) {
      if (a->k == KZExt) { if (b->val & ~maskw(a->a->w)) return mkFalse(); return mkEq(a->a, mkConst(b->val, a->a->w)); }
      if (a->k == KSExt) { u64 t = b->val & maskw(a->a->w); if ((u64)(sx(t, a->a->w)) != (u64)sx(b->val, w)) return mkFalse(); return mkEq(a->a, mkConst(t, a->a->w)); }
      if (a->k == KAdd && isC(a->b)) return mkEq(a->a, mkConst(b->val - a->b->val, w));
      if (a->k == KSub && isC(b, 0)) return mkEq(a->a, a->b);
      if (a->k == KXor && isC(a->b)) return mkEq(a->a, mkConst(a->b->val ^ b->val, w));
      if (a->k == KIte && (isC(a->b) || isC(a->c) || a->b->k == KIte || a->c->k == KIte || (a->b->k == KSub && isC(b, 0)))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      if (a->k == KConcat) return mkAnd1(mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w)));
    } else {
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
    }
    break;
  case KUlt: case KUle: case KSlt: case KSle:
    if (a == b) return mkConst(k == KUle || k == KSle, 1);
    if (k == KUlt && isC(b, 0)) return mkFalse();
    if (k == KUle && isC(a, 0)) return mkTrue();
    if (k == KUle && isC(b, maskw(w))) return mkTrue();
    if (k == KUlt && isC(b, 1)) return mkEq(a, mkConst(0, w));
    if (k == KUlt && isC(a, 0)) return mkNot(mkEq(b, a));
    if (k == KUle && isC(b, 0)) return mkEq(a, b);
    if (w > 1) {
      bool sg = (k == KSlt || k == KSle);
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkBin(sg ? (k == KSlt ? KUlt : KUle) : k, a->a, b->a);
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w && sg) return mkBin(k, a->a, b->a);
      if (a->k == KZExt && isC(b)) {
        unsigned iw = a->a->w; u64 mx = maskw(iw);
        if (sg && sx(b->val, w) < 0) return mkFalse();
        u64 bv = b->val; bool lt = (k == KUlt || k == KSlt);
        if (lt ? bv > mx : bv >= mx) return mkTrue();
        return mkBin(lt ? KUlt : KUle, a->a, mkConst(bv, iw));
      }
      if (b->k == KZExt && isC(a)) {
        unsigned iw = b->a->w; u64 mx = maskw(iw);
        if (sg && sx(a->val, w) < 0) return mkTrue();
        u64 av = a->val; bool lt = (k == KUlt || k == KSlt);
        if (lt ? av >= mx : av > mx) return mkFalse();
        return mkBin(lt ? KUlt : KUle, mkConst(av, iw), b->a);
      }
    }
    if (isC(b) && a->k == KIte && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == KIte && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    break;
  default: break;
  }
  // distribute over constant-leaf ITE trees
  if (!isCmp(k) && k != KAdd) {
    if (isC(b) && a->k == KIte && iteConstLeaves(a, 4)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == KIte && iteConstLeaves(b, 4)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  }
  return intern(k, isCmp(k) ? 1 : w, 0, a, b, 0);
}
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (isNot(c)) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t, 1)) return mkOr1(c, f);
    if (isC(t, 0)) return mkAnd1(mkNot(c), f);
    if (isC(f, 0)) return mkAnd1(c, t);
    if (isC(f, 1)) return mkOr1(mkNot(c), t);
    if (t == c) return mkOr1(c, f);
    if (f == c) return mkAnd1(c, t);
    if (isNot(f) && f->a == c) return mkOr1(mkNot(c), t);
    if (isNot(t) && t->a == c) return mkAnd1(mkNot(c), f);
  }
  if (t->k == KIte && t->a == c) return mkIte(c, t->b, f);
  if (f->k == KIte && f->a == c) return mkIte(c, t, f->c);
  if (f->k == KIte && f->b == t) return mkIte(mkOr1(c, f->a), t, f->c);
  return intern(KIte, t->w, 0, c, t, f);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, w);
  if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && hi->b->val == lo->val + lo->w)
    return mkConcat(hi->a, mkExtract(lo->a, lo->val, hi->b->w + lo->w));
  return intern(KConcat, w, 0, hi, lo, 0);
}
E mkRawExtract(E a, unsigned lo, unsigned w) { return intern(KExtract, w, lo, a, 0, 0); }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->k) {
  case KExtract: return mkExtract(a->a, a->val + lo, w);
  case KConcat: { unsigned lw = a->b->w; if (lo >= lw) return mkExtract(a->a, lo - lw, w); if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case KZExt: { unsigned iw = a->a->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  case KSExt: { unsigned iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
      return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
  case KIte: if (iteConstLeaves(a, 8) || isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
  case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case KAdd: case KSub: case KMul: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case KShl: if (isC(a->b) && a->b->val < a->w) { unsigned s = a->b->val; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo + w <= s) return mkConst(0, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(0, s - lo)); } break;
  default: break;
  }
  return intern(KExtract, w, lo, a, 0, 0);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(a->val, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  if (a->k == KIte && iteConstLeaves(a, 8)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(KZExt, w, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(sx(a->val, a->w), w);
  if (a->k == KSExt) return mkSExt(a->a, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  if (a->k == KIte && iteConstLeaves(a, 8)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(KSExt, w, 0, a, 0, 0);
}
static double toD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 frD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
u64 foldFP(Kind k, u64 a, u64 b, unsigned aw, unsigned w) {
  if (k <= KFRem || k == KFSqrt) {
    if (aw == 32) { float x = toD(a, 32), y = toD(b, 32), r = 0;
      switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; case KFRem: r = fmodf(x, y); break; case KFSqrt: r = sqrtf(x); break; default:; }
      u32 o; memcpy(&o, &r, 4); return o; }
    double x = toD(a, 64), y = toD(b, 64), r = 0;
    switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; case KFRem: r = fmod(x, y); break; case KFSqrt: r = sqrt(x); break; default:; }
    return frD(r, 64);
  }
  double x = toD(a, aw), y = toD(b, aw);
  switch (k) {
  case KFOeq: return x == y; case KFOlt: return x < y; case KFOle: return x <= y; case KFUno: return std::isnan(x) || std::isnan(y);
  case KFPExt: case KFPTrunc: return frD(x, w);
  case KSIToFP: { i64 v = sx(a, aw); if (w == 32) { float f = (float)v; u32 o; memcpy(&o, &f, 4); return o; } return frD((double)v, 64); }
  case KUIToFP: { if (w == 32) { float f = (float)a; u32 o; memcpy(&o, &f, 4); return o; } return frD((double)a, 64); }
  case KFPToSI: return (u64)(i64)x & maskw(w);
  case KFPToUI: return (u64)x & maskw(w);
  default: return 0;
  }
}
E mkFP(Kind k, E a, E b, unsigned w) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldFP(k, a->val, b ? b->val : 0, a->w, w), w);
  if (k == KFOeq && a == b) return mkNot(mkFP(KFUno, a, a, 1));
  if (k == KFOlt && a == b) return mkFalse();
  if (k == KFMul || k == KFDiv) { u64 one = w == 32 ? 0x3f800000u : 0x3ff0000000000000ull; if (isC(b) && b->val == one) return a; if (k == KFMul && isC(a) && a->val == one) return b; }
  if ((k == KFAdd || k == KFMul) && b < a) std::swap(a, b);
  if (a->k == KIte && iteConstLeaves(a, 6) && (!b || isC(b))) return mkIte(a->a, mkFP(k, a->b, b, w), mkFP(k, a->c, b, w));
  if (b && b->k == KIte && iteConstLeaves(b, 6) && isC(a)) return mkIte(b->a, mkFP(k, a, b->b, w), mkFP(k, a, b->c, w));
  return intern(k, w, 0, a, b, 0);
}

static u64 g_gen = 0;
static u64 evalRec(E e, const u64 *model, size_t n) {
  if (e->k == KConst) return e->val;
  if (e->gen == g_gen) return e->ev;
  u64 r = 0; bool ok;
  switch (e->k) {
  case KVar: r = e->val < n ? model[e->val] & maskw(e->w) : 0; break;
  case KIte: r = evalRec(e->a, model, n) ? evalRec(e->b, model, n) : evalRec(e->c, model, n); break;
  case KConcat: r = (evalRec(e->a, model, n) << e->b->w) | evalRec(e->b, model, n); break;
  case KExtract: r = (evalRec(e->a, model, n) >> e->val) & maskw(e->w); break;
  case KZExt: r = evalRec(e->a, model, n); break;
  case KSExt: r = (u64)sx(evalRec(e->a, model, n), e->a->w) & maskw(e->w); break;
  case KAnd: { u64 x = evalRec(e->a, model, n); r = x ? (x & evalRec(e->b, model, n)) : 0; break; }
  default:
    if (e->k >= KFAdd) r = foldFP(e->k, evalRec(e->a, model, n), e->b ? evalRec(e->b, model, n) : 0, e->a->w, e->w);
    else r = foldBin(e->k, evalRec(e->a, model, n), evalRec(e->b, model, n), e->a->w, &ok);
  }
  e->gen = g_gen; e->ev = r; return r;
}
u64 evalExpr(E e, const std::vector<u64> &model) { if (isC(e)) return e->val; g_gen++; return evalRec(e, model.data(), model.size()); }

static std::unordered_map<u32, Bits> g_truth;
const Bits &truth8(E cond) {
  auto it = g_truth.find(cond->id); if (it != g_truth.end()) return it->second;
  Bits t; int v = cond->svar;
  static std::vector<u64> m; if ((int)m.size() <= v) m.resize(v + 1);
  for (int i = 0; i < 256; i++) { m[v] = i; g_gen++; t[i] = evalRec(cond, m.data(), m.size()) & 1; }
  return g_truth.emplace(cond->id, t).first->second;
}
static std::unordered_map<u32, std::vector<int>> g_ev;
static const std::vector<int> g_none;
const std::vector<int> &exprVars(E e) {
  if (e->svar == -1) return g_none;
  auto it = g_ev.find(e->id); if (it != g_ev.end()) return it->second;
  std::vector<int> r;
  if (e->svar >= 0) r.push_back(e->svar);
  else {
    std::vector<int> t;
    for (E x : {e->a, e->b, e->c}) if (x) { const std::vector<int> &y = exprVars(x); t.clear(); std::set_union(r.begin(), r.end(), y.begin(), y.end(), std::back_inserter(t)); r.swap(t); }
  }
  return g_ev.emplace(e->id, std::move(r)).first->second;
}
std::string exprStr(E e, int d) {
  static const char *nm[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fsqrt"};
  if (e->k == KConst) return std::to_string(e->val) + ":" + std::to_string(e->w);
  if (e->k == KVar) return g_vars[e->val].name + "#" + std::to_string(e->val);
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[e->k]; if (e->k == KExtract) s += "@" + std::to_string(e->val) + "+" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
