#include "expr.h"
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cassert>
#include <sstream>
#include "userfn.inc"

std::vector<VarInfo> g_vars;
std::vector<FnSym> g_fns;
static std::map<std::tuple<int,int,std::vector<int>>, int> fnIndex;
int fnSym(int builtin) {
  auto key = std::make_tuple(builtin, 0, std::vector<int>());
  auto it = fnIndex.find(key); if (it != fnIndex.end()) return it->second;
  g_fns.push_back({builtin, 0, {}}); return fnIndex[key] = (int)g_fns.size() - 1;
}
int userSym(int fid, const std::vector<int>& der) {
  auto key = std::make_tuple((int)F_USER, fid, der);
  auto it = fnIndex.find(key); if (it != fnIndex.end()) return it->second;
  g_fns.push_back({F_USER, fid, der}); return fnIndex[key] = (int)g_fns.size() - 1;
}

struct KeyHash { size_t operator()(const Expr* e) const {
  size_t h = (size_t)e->k * 1315423911u ^ e->w * 2654435761u ^ (e->c * 0x9e3779b97f4a7c15ull);
  for (auto x : e->a) h = (h ^ (size_t)x->id) * 0x100000001b3ull + 0x9e37;
  return h; } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a; } };
static std::unordered_map<Expr*, E, KeyHash, KeyEq> tab;
static uint32_t nextId = 1;

E mk(K k, S s, int w, uint64_t c, std::vector<E> a) {
  Expr t; t.k = k; t.s = s; t.w = w; t.c = c; t.a = std::move(a); t.flags = 0;
  auto it = tab.find(&t); if (it != tab.end()) return it->second;
  E e = new Expr(t); e->id = nextId++;
  for (auto x : e->a) e->flags |= x->flags;
  if (k == K::Var && g_vars[c].uninit) e->flags |= 1;
  if (k == K::Fn && g_fns[c].builtin == F_USER) e->flags |= 2;
  if (k == K::Ite && s == S::Real) e->flags |= 4;
  tab[e] = e; return e;
}
E mkBool(bool b) { return mk(K::CBool, S::Bool, 1, b, {}); }
E mkBV(uint64_t v, int w) { return mk(K::CBV, S::BV, w, maskw(v, w), {}); }
E mkReal(double d) { if (d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); return mk(K::CReal, S::Real, 64, b, {}); }
E mkVar(const std::string& n, S s, int w, bool un) {
  g_vars.push_back({n, s, w, un}); return mk(K::Var, s, w, g_vars.size() - 1, {});
}
double realOf(E e) { double d; memcpy(&d, &e->c, 8); return d; }
static inline bool taint(E e) { return e->flags & 1; }

E mkNot(E a) { if (isC(a)) return mkBool(!a->c); if (a->k == K::Not) return a->a[0];
  if (a->k == K::RLt) return mkRLe(a->a[1], a->a[0]); if (a->k == K::RLe) return mkRLt(a->a[1], a->a[0]);
  return mk(K::Not, S::Bool, 1, 0, {a}); }
E mkAnd(E a, E b) { if (isC(a)) return a->c ? b : a; if (isC(b)) return b->c ? a : b; if (a == b) return a;
  if (mkNot(a) == b) return mkBool(false); if (a->id > b->id) std::swap(a, b); return mk(K::And, S::Bool, 1, 0, {a, b}); }
E mkOr(E a, E b) { if (isC(a)) return a->c ? a : b; if (isC(b)) return b->c ? b : a; if (a == b) return a;
  if (mkNot(a) == b) return mkBool(true); if (a->id > b->id) std::swap(a, b); return mk(K::Or, S::Bool, 1, 0, {a, b}); }
E mkXorB(E a, E b) { if (isC(a)) return a->c ? mkNot(b) : b; if (isC(b)) return b->c ? mkNot(a) : a; if (a == b) return mkBool(false);
  return mk(K::XorB, S::Bool, 1, 0, {a, b}); }

E mkEq(E a, E b) {
  if (a == b && a->s != S::Real) return mkBool(true);
  if (a->s == S::Real) {
    if (isC(a) && isC(b)) return mkBool(realOf(a) == realOf(b));
    if (a == b) return mkBool(true);
    for (int i = 0; i < 2; i++) { E x = i ? b : a; if (isC(x) && !std::isfinite(realOf(x))) return mkBool(false); }
    if (a->id > b->id) std::swap(a, b); return mk(K::REq, S::Bool, 1, 0, {a, b});
  }
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (a->s == S::Bool) { if (isC(a)) return a->c ? b : mkNot(b); if (isC(b)) return b->c ? a : mkNot(a);
    return mk(K::EqBool, S::Bool, 1, 0, {a, b}); }
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) {
      bool t = a->a[1]->c == b->c, f = a->a[2]->c == b->c;
      if (t && f) return mkBool(true); if (!t && !f) return mkBool(false); return t ? a->a[0] : mkNot(a->a[0]); }
    if (a->k == K::ZExt) { int w = a->a[0]->w; if (b->c != maskw(b->c, w)) return mkBool(false); return mkEq(a->a[0], mkBV(b->c, w)); }
    if (a->k == K::SExt) { int w = a->a[0]->w; if (maskw(sext64(b->c, w), a->w) != b->c) return mkBool(false); return mkEq(a->a[0], mkBV(b->c, w)); }
    if (a->k == K::Add && isC(a->a[1])) return mkEq(a->a[0], mkBV(b->c - a->a[1]->c, a->w));
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(K::EqBV, S::Bool, 1, 0, {a, b});
}
static uint64_t foldBin(K k, uint64_t a, uint64_t b, int w) {
  int64_t sa = sext64(a, w), sb = sext64(b, w); uint64_t r = 0;
  switch (k) {
    case K::Add: r = a + b; break; case K::Sub: r = a - b; break; case K::Mul: r = a * b; break;
    case K::UDiv: r = b ? a / b : ~0ull; break; case K::URem: r = b ? a % b : a; break;
    case K::SDiv: r = b ? (sb == -1 ? -(uint64_t)sa : (uint64_t)(sa / sb)) : ~0ull; break;
    case K::SRem: r = b ? (sb == -1 ? 0 : (uint64_t)(sa % sb)) : a; break;
    case K::BAnd: r = a & b; break; case K::BOr: r = a | b; break; case K::BXor: r = a ^ b; break;
    case K::Shl: r = b >= (uint64_t)w ? 0 : a << b; break; case K::LShr: r = b >= (uint64_t)w ? 0 : a >> b; break;
    case K::AShr: r = (uint64_t)(sa >> (b >= (uint64_t)w ? w - 1 : b)); break;
    default: assert(0);
  }
  return maskw(r, w);
}
E mkBin(K k, E a, E b) {
  int w = a->w;
  if (isC(a) && isC(b)) return mkBV(foldBin(k, a->c, b->c, w), w);
  if ((k == K::Add || k == K::Mul || k == K::BAnd || k == K::BOr || k == K::BXor) && isC(a)) std::swap(a, b);
  if (isC(b)) {
    uint64_t c = b->c, ones = maskw(~0ull, w);
    if (k == K::Sub) return mkBin(K::Add, a, mkBV(-c, w));
    if (c == 0) { if (k == K::Add || k == K::BOr || k == K::BXor || k == K::Shl || k == K::LShr || k == K::AShr) return a;
      if (k == K::Mul || k == K::BAnd) return b; }
    if (c == 1 && (k == K::Mul || k == K::UDiv || k == K::SDiv)) return a;
    if (c == ones && k == K::BAnd) return a; if (c == ones && k == K::BOr) return b;
    if (k == K::Add && a->k == K::Add && isC(a->a[1])) return mkBin(K::Add, a->a[0], mkBV(a->a[1]->c + c, w));
    if (k == K::Mul && a->k == K::Add && isC(a->a[1])) return mkBin(K::Add, mkBin(K::Mul, a->a[0], b), mkBV(a->a[1]->c * c, w));
    if (k == K::Shl && c < (uint64_t)w) return mkBin(K::Mul, a, mkBV(1ull << c, w));
    if (k == K::BAnd && a->k == K::ZExt) { int iw = a->a[0]->w; if (maskw(c, iw) == maskw(~0ull, iw)) return a; }
    if (k == K::LShr && a->k == K::Concat && c == a->a[1]->w) return mkZExt(a->a[0], w);
    if (k == K::LShr && a->k == K::R2Bits) return mkZExt(mkExtract(a, c, w - c), w);
  }
  if (a == b) { if (k == K::Sub || k == K::BXor) return mkBV(0, w); if (k == K::BAnd || k == K::BOr) return a; }
  if (k == K::Sub && a->k == K::Add && isC(a->a[1]) && a->a[0] == b) return a->a[1];
  if (k == K::Sub && b->k == K::Add && isC(b->a[1]) && b->a[0] == a) return mkBV(-b->a[1]->c, w);
  if (k == K::Sub && a->k == K::Add && b->k == K::Add && isC(a->a[1]) && isC(b->a[1]) && a->a[0] == b->a[0]) return mkBV(a->a[1]->c - b->a[1]->c, w);
  if ((k == K::Add || k == K::Mul || k == K::BAnd || k == K::BOr || k == K::BXor) && !isC(b) && a->id > b->id) std::swap(a, b);
  return mk(k, S::BV, w, 0, {a, b});
}
E mkCmp(K k, E a, E b) {
  int w = a->w;
  if (isC(a) && isC(b)) { int64_t sa = sext64(a->c, w), sb = sext64(b->c, w);
    return mkBool(k == K::Ult ? a->c < b->c : k == K::Ule ? a->c <= b->c : k == K::Slt ? sa < sb : sa <= sb); }
  if (a == b) return mkBool(k == K::Ule || k == K::Sle);
  if (k == K::Ult && isC(b) && b->c == 0) return mkBool(false);
  if (k == K::Ule && isC(a) && a->c == 0) return mkBool(true);
  if ((k == K::Slt || k == K::Sle) && a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
    return mkCmp(k == K::Slt ? K::Ult : K::Ule, a->a[0], b->a[0]);
  return mk(k, S::Bool, 1, 0, {a, b});
}
E mkExtract(E a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkBV(a->c >> off, w);
  if (a->k == K::Extract) return mkExtract(a->a[0], off + a->c, w);
  if (a->k == K::Concat) { int lw = a->a[1]->w; if (off + w <= lw) return mkExtract(a->a[1], off, w); if (off >= lw) return mkExtract(a->a[0], off - lw, w);
    return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off)); }
  if (a->k == K::ZExt) { int iw = a->a[0]->w; if (off >= iw) return mkBV(0, w); if (off + w <= iw) return mkExtract(a->a[0], off, w);
    return mkZExt(mkExtract(a->a[0], off, iw - off), w); }
  if (a->k == K::SExt && off + w <= a->a[0]->w) return mkExtract(a->a[0], off, w);
  if (off == 0 && (a->k == K::Add || a->k == K::Sub || a->k == K::Mul || a->k == K::BAnd || a->k == K::BOr || a->k == K::BXor))
    return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  if (a->k == K::Ite) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
  return mk(K::Extract, S::BV, w, off, {a});
}
E mkConcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkBV((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return mkExtract(lo->a[0], lo->c, w);
  if (lo->k == K::Concat) { // hi ++ (x ++ y): try merging hi with x
    E m = mkConcat(hi, lo->a[0]); if (m->k != K::Concat) return mkConcat(m, lo->a[1]); }
  if (hi->k == K::Extract && lo->w + hi->c == 0) return hi;
  if (hi->k == K::Extract && hi->c == lo->w && hi->a[0]->k == K::Concat && 0) return hi;
  // full value split: Extract(x, lw, ..) ++ Extract(x,0,lw) handled above; Extract(x,lw,hw)++y where lo is not an extract falls through
  return mk(K::Concat, S::BV, w, 0, {hi, lo});
}
E mkZExt(E a, int w) {
  if (a->s == S::Bool) return mkIte(a, mkBV(1, w), mkBV(0, w));
  if (w == a->w) return a; if (isC(a)) return mkBV(a->c, w); if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return mk(K::ZExt, S::BV, w, 0, {a});
}
E mkSExt(E a, int w) {
  if (a->s == S::Bool) return mkIte(a, mkBV(~0ull, w), mkBV(0, w));
  if (w == a->w) return a; if (isC(a)) return mkBV(sext64(a->c, a->w), w); if (a->k == K::SExt) return mkSExt(a->a[0], w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  return mk(K::SExt, S::BV, w, 0, {a});
}
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f; if (t == f) return t;
  if (t->s == S::Bool) return mkOr(mkAnd(c, t), mkAnd(mkNot(c), f));
  if (c->k == K::Not) return mkIte(c->a[0], f, t);
  return mk(K::Ite, t->s, t->w, 0, {c, t, f});
}
static bool nonfin(E a) { return isC(a) && !std::isfinite(realOf(a)); }
static E tnt() { return mkVar("nonfinite", S::Real, 64, true); }
E mkRAdd(E a, E b) {
  if (isC(a) && isC(b)) return mkReal(realOf(a) + realOf(b));
  if (nonfin(a)) return a; if (nonfin(b)) return b;
  if (isC(a)) std::swap(a, b);
  if (isC(b) && realOf(b) == 0) return a;
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(K::RAdd, S::Real, 64, 0, {a, b});
}
E mkRNeg(E a) { if (isC(a)) return mkReal(-realOf(a)); if (a->k == K::RNeg) return a->a[0];
  if (a->k == K::RSub) return mkRSub(a->a[1], a->a[0]); return mk(K::RNeg, S::Real, 64, 0, {a}); }
E mkRSub(E a, E b) {
  if (isC(a) && isC(b)) return mkReal(realOf(a) - realOf(b));
  if (nonfin(a)) return a; if (nonfin(b)) return mkRNeg(b);
  if (isC(b) && realOf(b) == 0) return a; if (isC(a) && realOf(a) == 0) return mkRNeg(b);
  if (a == b && !taint(a)) return mkReal(0);
  return mk(K::RSub, S::Real, 64, 0, {a, b});
}
E mkRMul(E a, E b) {
  if (isC(a) && isC(b)) return mkReal(realOf(a) * realOf(b));
  if (isC(a)) std::swap(a, b);
  if (isC(b)) { double d = realOf(b); if (std::isnan(d)) return b; if (std::isinf(d)) return tnt();
    if (d == 0 && !taint(a)) return mkReal(0); if (d == 1) return a; if (d == -1) return mkRNeg(a); }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(K::RMul, S::Real, 64, 0, {a, b});
}
E mkRDiv(E a, E b) {
  if (isC(a) && isC(b)) return mkReal(realOf(a) / realOf(b));
  if (isC(b)) { double d = realOf(b); if (std::isnan(d)) return b; if (std::isinf(d)) return mkReal(0); if (d == 1) return a; if (d == -1) return mkRNeg(a);
    if (d == 0) return tnt(); }
  if (isC(a)) { double d = realOf(a); if (std::isnan(d)) return a; if (std::isinf(d)) return tnt(); if (d == 0 && !taint(b)) return a; }
  return mk(K::RDiv, S::Real, 64, 0, {a, b});
}
E mkRLt(E a, E b) {
  if (isC(a) && isC(b)) return mkBool(realOf(a) < realOf(b));
  if (a == b) return mkBool(false);
  if (nonfin(a)) { double d = realOf(a); return mkBool(d < 0); } if (nonfin(b)) { double d = realOf(b); return mkBool(d > 0); }
  return mk(K::RLt, S::Bool, 1, 0, {a, b});
}
E mkRLe(E a, E b) {
  if (isC(a) && isC(b)) return mkBool(realOf(a) <= realOf(b));
  if (a == b) return mkBool(true);
  if (nonfin(a)) { double d = realOf(a); return mkBool(d < 0); } if (nonfin(b)) { double d = realOf(b); return mkBool(d > 0); }
  return mk(K::RLe, S::Bool, 1, 0, {a, b});
}
static double evalBuiltin(int b, const double* x) {
  switch (b) { case F_EXP: return exp(x[0]); case F_LOG: return log(x[0]); case F_SQRT: return sqrt(x[0]); case F_SIN: return sin(x[0]);
    case F_COS: return cos(x[0]); case F_ERF: return erf(x[0]); case F_POW: return pow(x[0], x[1]); case F_FLOOR: return floor(x[0]); case F_CEIL: return ceil(x[0]); }
  return NAN;
}
double userFnValue(int fid, int n, const double* args, const int* der) { return uf_value(fid, n, args, der); }
E mkFn(int sym, std::vector<E> a) {
  int b = g_fns[sym].builtin;
  if (b != F_USER) { bool all = true; for (auto x : a) all &= isC(x);
    if (all) { double v[4]; for (size_t i = 0; i < a.size(); i++) v[i] = realOf(a[i]); return mkReal(evalBuiltin(b, v)); }
    if (a.size() == 1 && nonfin(a[0])) { double v[1] = {realOf(a[0])}; return mkReal(evalBuiltin(b, v)); } }
  return mk(K::Fn, S::Real, 64, sym, std::move(a));
}
E mkExp(E a) { return mkFn(fnSym(F_EXP), {a}); }
E mkLog(E a) { if (a->k == K::Fn && g_fns[a->c].builtin == F_EXP) return a->a[0]; return mkFn(fnSym(F_LOG), {a}); }
E mkSqrt(E a) { return mkFn(fnSym(F_SQRT), {a}); }
E mkAbs(E a) { if (isC(a)) return mkReal(std::fabs(realOf(a))); if (a->k == K::RNeg) return mkAbs(a->a[0]);
  if (a->k == K::Fn && (g_fns[a->c].builtin == F_EXP || g_fns[a->c].builtin == F_SQRT)) return a;
  return mkIte(mkRLt(a, mkReal(0)), mkRNeg(a), a); }
E mkMin(E a, E b) { if (a == b) return a; return mkIte(mkRLt(a, b), a, b); }
E mkMax(E a, E b) { if (a == b) return a; return mkIte(mkRLt(a, b), b, a); }
E mkPow(E a, E b) {
  if (isC(a) && isC(b)) return mkReal(pow(realOf(a), realOf(b)));
  if (isC(b)) { double d = realOf(b); if (d == std::floor(d) && std::fabs(d) <= 32) { int n = std::abs((int)d); E r = mkReal(1); for (int i = 0; i < n; i++) r = mkRMul(r, a);
      return d < 0 ? mkRDiv(mkReal(1), r) : r; } if (d == 0.5) return mkSqrt(a); }
  return mkExp(mkRMul(b, mkLog(a)));
}
E mkTanh(E a) { if (isC(a)) return mkReal(tanh(realOf(a)));
  return mkRSub(mkReal(1), mkRDiv(mkReal(2), mkRAdd(mkExp(mkRMul(mkReal(2), a)), mkReal(1)))); }
E mkR2Bits(E a) { if (isC(a)) return mkBV(a->c, 64); return mk(K::R2Bits, S::BV, 64, 0, {a}); }

static void cv(E e, std::set<int>& v, std::set<E>& seen) {
  if (!seen.insert(e).second) return; if (e->k == K::Var) v.insert((int)e->c); for (auto x : e->a) cv(x, v, seen); }
void collectVars(E e, std::set<int>& v) { std::set<E> seen; cv(e, v, seen); }

static E diffRec(E f, E v, std::unordered_map<E, E>& memo) {
  if (f == v) return mkReal(1);
  if (f->a.empty()) return mkReal(0);
  auto it = memo.find(f); if (it != memo.end()) return it->second;
  E r = nullptr; auto D = [&](int i) { return diffRec(f->a[i], v, memo); };
  switch (f->k) {
    case K::RAdd: r = mkRAdd(D(0), D(1)); break; case K::RSub: r = mkRSub(D(0), D(1)); break; case K::RNeg: r = mkRNeg(D(0)); break;
    case K::RMul: r = mkRAdd(mkRMul(D(0), f->a[1]), mkRMul(f->a[0], D(1))); break;
    case K::RDiv: { E db = D(1), da = D(0); r = mkRDiv(da, f->a[1]); if (!(isC(db) && realOf(db) == 0)) r = mkRSub(r, mkRDiv(mkRMul(f, db), f->a[1])); break; }
    case K::Ite: r = mkIte(f->a[0], D(1), D(2)); break;
    case K::Fn: {
      const FnSym fs = g_fns[f->c]; E x = f->a[0];
      if (fs.builtin == F_USER) { r = mkReal(0);
        for (size_t i = 0; i < f->a.size(); i++) { E d = D(i); if (isC(d) && realOf(d) == 0) continue; auto der = fs.der; der[i]++;
          r = mkRAdd(r, mkRMul(mkFn(userSym(fs.fid, der), f->a), d)); } break; }
      E d = D(0); if (isC(d) && realOf(d) == 0 && f->a.size() == 1) { r = mkReal(0); break; }
      switch (fs.builtin) { case F_EXP: r = mkRMul(f, d); break; case F_LOG: r = mkRDiv(d, x); break; case F_SQRT: r = mkRDiv(d, mkRMul(mkReal(2), f)); break;
        case F_SIN: r = mkRMul(mkFn(fnSym(F_COS), {x}), d); break; case F_COS: r = mkRNeg(mkRMul(mkFn(fnSym(F_SIN), {x}), d)); break;
        case F_ERF: r = mkRMul(mkRMul(mkReal(2 / sqrt(M_PI)), mkExp(mkRNeg(mkRMul(x, x)))), d); break;
        default: r = mkReal(0); } break; }
    default: r = mkReal(0);
  }
  return memo[f] = r;
}
E diff(E f, E v) { std::unordered_map<E, E> memo; return diffRec(f, v, memo); }

EvalRes Evaluator::ev(E e) {
  if (e->k == K::CReal) return {realOf(e), e->c};
  if (e->k == K::CBV || e->k == K::CBool) return {0, e->c};
  if (e->k == K::Var) { if (e->s == S::Real) { auto it = as.r.find(e->c); if (it == as.r.end()) { missing = true; return {0, 0}; } return {it->second, 0}; }
    auto it = as.b.find(e->c); if (it == as.b.end()) { missing = true; return {0, 0}; } return {0, it->second}; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  EvalRes r{0, 0};
  auto R = [&](int i) { return ev(e->a[i]).r; }; auto B = [&](int i) { return ev(e->a[i]).b; };
  switch (e->k) {
    case K::Not: r.b = !B(0); break; case K::And: r.b = B(0) && B(1); break; case K::Or: r.b = B(0) || B(1); break;
    case K::XorB: r.b = B(0) != B(1); break; case K::EqBool: case K::EqBV: r.b = B(0) == B(1); break;
    case K::Ult: r.b = B(0) < B(1); break; case K::Ule: r.b = B(0) <= B(1); break;
    case K::Slt: r.b = sext64(B(0), e->a[0]->w) < sext64(B(1), e->a[0]->w); break; case K::Sle: r.b = sext64(B(0), e->a[0]->w) <= sext64(B(1), e->a[0]->w); break;
    case K::RLt: r.b = R(0) < R(1); break; case K::RLe: r.b = R(0) <= R(1); break; case K::REq: r.b = R(0) == R(1); break;
    case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem: case K::BAnd: case K::BOr: case K::BXor: case K::Shl: case K::LShr: case K::AShr:
      r.b = foldBin(e->k, B(0), B(1), e->w); break;
    case K::Concat: r.b = (B(0) << e->a[1]->w) | B(1); break; case K::Extract: r.b = maskw(B(0) >> e->c, e->w); break;
    case K::ZExt: r.b = B(0); break; case K::SExt: r.b = maskw(sext64(B(0), e->a[0]->w), e->w); break;
    case K::Ite: r = B(0) ? ev(e->a[1]) : ev(e->a[2]); break;
    case K::RAdd: r.r = R(0) + R(1); break; case K::RSub: r.r = R(0) - R(1); break; case K::RMul: r.r = R(0) * R(1); break;
    case K::RDiv: r.r = R(0) / R(1); break; case K::RNeg: r.r = -R(0); break;
    case K::U2R: r.r = (double)B(0); break; case K::S2R: r.r = (double)sext64(B(0), e->a[0]->w); break;
    case K::R2Bits: { double d = R(0); memcpy(&r.b, &d, 8); break; }
    case K::Fn: { double v[16]; for (size_t i = 0; i < e->a.size() && i < 16; i++) v[i] = R(i); const FnSym& f = g_fns[e->c];
      r.r = f.builtin == F_USER ? uf_value(f.fid, (int)e->a.size(), v, f.der.data()) : evalBuiltin(f.builtin, v); break; }
    default: bad = true;
  }
  if (e->s == S::Real && !std::isfinite(r.r)) bad = true;
  return memo[e] = r;
}
std::string toStr(E e, int d) {
  std::ostringstream o;
  static const char* nm[] = {"cb","cbv","cr","var","not","and","or","xor","=","=b","ult","ule","slt","sle","<","<=","r=","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","+","-","*","/","neg","fn","u2r","s2r","r2b"};
  if (e->k == K::CReal) { o << realOf(e); return o.str(); } if (isC(e)) { o << e->c; return o.str(); }
  if (e->k == K::Var) return g_vars[e->c].name;
  if (d <= 0) return "...";
  o << "(" << nm[(int)e->k]; if (e->k == K::Fn) { static const char* bn[] = {"","exp","log","sqrt","sin","cos","erf","pow","floor","ceil"}; auto& f = g_fns[e->c];
    if (f.builtin == F_USER) { o << ":u" << f.fid << "'"; for (int x : f.der) o << x; } else o << ":" << bn[f.builtin]; }
  if (e->k == K::Extract) o << ":" << e->c << ":" << e->w;
  for (auto x : e->a) o << " " << toStr(x, d - 1); o << ")"; return o.str();
}
