#pragma once
#include "expr.h"
#include <gmpxx.h>
#include <stdexcept>
// Normal form of real expressions: Laurent-type polynomials over atoms, with a single merged exponential per monomial.
struct Mono { int ex = -1; std::vector<std::pair<int,int>> f;           // ex: interned poly id of the exponential's argument
  bool operator<(const Mono& o) const { return ex != o.ex ? ex < o.ex : f < o.f; }
  bool operator==(const Mono& o) const { return ex == o.ex && f == o.f; } };
typedef std::map<Mono, mpq_class> Poly;
enum AtomKind { A_VAR, A_FN, A_SQRT, A_LOG, A_INV, A_OTHER };
struct Atom { AtomKind kind; E e; int sym; std::vector<int> args; };    // args: interned poly ids
extern std::vector<Atom> g_atoms;
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("polynomial too large") {} };
int polyOf(E e);                 // Ite-free real expression -> interned poly id
const Poly& polyAt(int id);
int internPoly(const Poly& p);
Poly pAdd(const Poly& a, const Poly& b, const mpq_class& s);
Poly pMul(const Poly& a, const Poly& b);
void clearDenoms(Poly& a, Poly& b, std::vector<int>& denoms);   // multiplies both by the same nonzero factors
std::string pStr(const Poly& p);
mpq_class qOf(double d);
Poly expPoly(const Poly& p);
