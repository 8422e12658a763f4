// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <functional>

enum class K : uint8_t {
  // leaves
  CBool, CBV, CReal, Var,
  // bool
  Not, And, Or, XorB, EqBV, EqBool, Ult, Ule, Slt, Sle, RLt, RLe, REq,
  // bv
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, BAnd, BOr, BXor, Shl, LShr, AShr, Concat, Extract, ZExt, SExt,
  // ite (any sort)
  Ite,
  // real
  RAdd, RSub, RMul, RDiv, RNeg, Fn,   // Fn: function application; fn id in aux
  U2R, S2R,                           // bv -> real
  R2Bits                              // bit pattern of a real as BV64 (only for moves)
};
enum class S : uint8_t { Bool, BV, Real };

struct Expr {
  K k; S s; uint16_t w;      // width for BV
  uint32_t id;
  uint64_t c;                // constant bits / var index / extract offset / function symbol id
  uint32_t flags;            // bit0: depends on an uninitialised variable; bit1: has opaque function
  std::vector<Expr*> a;
};
typedef Expr* E;

struct VarInfo { std::string name; S s; int w; bool uninit; };
extern std::vector<VarInfo> g_vars;

// builtin functions
enum Builtin { F_EXP = 1, F_LOG, F_SQRT, F_SIN, F_COS, F_ERF, F_POW, F_FLOOR, F_CEIL, F_USER = 100 };
struct FnSym { int builtin; int fid; std::vector<int> der; };   // user symbol: fid with derivative counts per argument
extern std::vector<FnSym> g_fns;
int fnSym(int builtin);
int userSym(int fid, const std::vector<int>& der);

E mkBool(bool b);
E mkBV(uint64_t v, int w);
E mkReal(double d);
E mkVar(const std::string& name, S s, int w, bool uninit = false);
E mk(K k, S s, int w, uint64_t c, std::vector<E> a);

E mkNot(E a); E mkAnd(E a, E b); E mkOr(E a, E b); E mkXorB(E a, E b);
E mkEq(E a, E b);
E mkBin(K k, E a, E b);          // BV binary
E mkCmp(K k, E a, E b);          // BV compare
E mkConcat(E hi, E lo); E mkExtract(E a, int off, int w); E mkZExt(E a, int w); E mkSExt(E a, int w);
E mkIte(E c, E t, E f);
E mkRAdd(E a, E b); E mkRSub(E a, E b); E mkRMul(E a, E b); E mkRDiv(E a, E b); E mkRNeg(E a);
E mkRLt(E a, E b); E mkRLe(E a, E b);
E mkFn(int sym, std::vector<E> a);
E mkExp(E a); E mkLog(E a); E mkSqrt(E a);
E mkAbs(E a); E mkMin(E a, E b); E mkMax(E a, E b);
E mkPow(E a, E b); E mkTanh(E a);
E mkR2Bits(E a);
inline bool isC(E e) { return e->k == K::CBool || e->k == K::CBV || e->k == K::CReal; }
double realOf(E e);
inline uint64_t maskw(uint64_t v, int w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
inline int64_t sext64(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

E diff(E f, E var);              // symbolic derivative of a real expression
void collectVars(E e, std::set<int>& vars);
std::string toStr(E e, int depth = 6);

// numeric evaluation; assignment by var index (reals as double, ints as u64 bits)
struct Assign { std::unordered_map<int, double> r; std::unordered_map<int, uint64_t> b; };
struct EvalRes { double r; uint64_t b; };
struct Evaluator {
  const Assign& as; std::unordered_map<E, EvalRes> memo; bool bad = false; bool missing = false;
  Evaluator(const Assign& a) : as(a) {}
  double real(E e) { return ev(e).r; }
  uint64_t bv(E e) { return ev(e).b; }
  EvalRes ev(E e);
};
double userFnValue(int fid, int n, const double* args, const int* der);  // shared with native replay
