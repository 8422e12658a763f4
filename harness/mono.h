// Monotone components over opaque bases, an opaque positive function and an opaque two-point quadrature rule.
#pragma once
#include "opaque.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/Quadrature.h"
using namespace mpart;
typedef Kokkos::HostSpace HS;
typedef Kokkos::View<double*, HS> Vec;
typedef Kokkos::View<double**, HS> Mat;
struct OB : OpaqueBasis1 { double Evaluate(unsigned k, double x) const { return val(k, x, 0); } double Derivative(unsigned k, double x) const { return val(k, x, 1); } double SecondDerivative(unsigned k, double x) const { return val(k, x, 2); } };
// any rule with NQ nodes in [0,1] and positive weights: the answer is linear in the integrand
#ifndef NQ
#define NQ 2
#endif
struct OpaqueQuad { unsigned d = 1; double t[NQ], w[NQ];
  OpaqueQuad() { for (int i = 0; i < NQ; ++i) { t[i] = symd("node", i); w[i] = symd("weight", i); sym_assume(t[i] >= 0 && t[i] <= 1 && w[i] > 0); } }
  void SetDim(unsigned n) { d = n; } unsigned WorkspaceSize() const { return d; }
  template <class F> void Integrate(double* work, F const& f, double lb, double ub, double* out) const { for (unsigned j = 0; j < d; ++j) out[j] = 0; for (int i = 0; i < NQ; ++i) { f(lb + (ub - lb) * t[i], work); for (unsigned j = 0; j < d; ++j) out[j] += (ub - lb) * w[i] * work[j]; } }
  template <class A> void serialize(A&) {} };
static std::vector<std::vector<unsigned>> terms; static unsigned dim;
static FixedMultiIndexSet<HS> fixedOf() {
  std::vector<unsigned> st(1, 0), di, od; for (auto& t : terms) { for (unsigned j = 0; j < dim; ++j) if (t[j]) { di.push_back(j); od.push_back(t[j]); } st.push_back(di.size()); }
  Kokkos::View<unsigned*, HS> s("s", st.size()), d("d", di.size()), o("o", od.size());
  for (unsigned i = 0; i < st.size(); ++i) s(i) = st[i]; for (unsigned i = 0; i < di.size(); ++i) { d(i) = di[i]; o(i) = od[i]; }
  return FixedMultiIndexSet<HS>(dim, s, d, o); }
// sum of c_t prod_j phi; der = number of derivatives in the last input
template <class B> static double expn(std::vector<double> const& c, std::vector<double> const& x, double xl, int der) {
  B b; double s = 0; for (unsigned t = 0; t < terms.size(); ++t) { double p = c[t]; for (unsigned j = 0; j + 1 < dim; ++j) p *= b.Evaluate(terms[t][j], x[j]); unsigned o = terms[t][dim - 1]; p *= der == 0 ? b.Evaluate(o, xl) : der == 1 ? b.Derivative(o, xl) : b.SecondDerivative(o, xl); s += p; } return s; }
// a selection of term sets: 1-3 inputs, with and without terms in the last input, constants, mixed orders
static void pickTerms() { switch (sym_choice("terms", TIER ? 9 : 6)) {
  case 0: dim = 1; terms = {{0}, {1}, {2}}; break;
  case 1: dim = 2; terms = {{0, 0}, {1, 0}, {0, 1}, {1, 1}}; break;
  case 2: dim = 2; terms = {{2, 0}, {1, 2}, {0, 1}}; break;
  case 3: dim = 3; terms = {{0, 0, 0}, {1, 0, 1}, {0, 1, 2}, {1, 1, 0}}; break;
  case 4: dim = 1; terms = {{0}}; break;
  case 5: dim = 2; terms = {{1, 0}, {2, 0}}; break;
  case 6: dim = 3; terms = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 0, 0}, {1, 1, 0}, {1, 0, 1}, {0, 2, 0}, {0, 1, 1}, {0, 0, 2}}; break;
  case 7: dim = 4; terms = {{0, 1, 0, 1}, {1, 0, 2, 3}, {0, 0, 0, 1}}; break;
  case 8: dim = 2; terms = {{0, 3}, {3, 0}, {2, 2}, {0, 0}}; break; } }
struct Setup { unsigned n, N; double eps; std::vector<double> c; Vec cv; Mat x; OpaqueQuad q;
  Setup(unsigned npts) : N(npts) { pickTerms(); n = terms.size(); eps = 0; if (sym_choice("nugget", 2)) { eps = sym_double("eps"); sym_assume(eps > 0); } cv = Vec("c", n); c.resize(n); for (unsigned i = 0; i < n; ++i) cv(i) = c[i] = symd("c", i);
    x = Mat("x", dim, N); for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i < dim; ++i) x(i, j) = symd("x", i, j); }
  std::vector<double> pt(unsigned j) const { std::vector<double> p(dim); for (unsigned i = 0; i < dim; ++i) p[i] = x(i, j); return p; }
  double slope(unsigned j, double t) const { return OpaquePos::Evaluate(expn<OB>(c, pt(j), t, 1)) + eps; }
  // derivative of the value (quadrature included) in the last input
  double dslope(unsigned j) const { double xl = x(dim - 1, j), s = 0; for (int i = 0; i < NQ; ++i) { double t = q.t[i] * xl; s += q.w[i] * (slope(j, t) + t * OpaquePos::Derivative(expn<OB>(c, pt(j), t, 1)) * expn<OB>(c, pt(j), t, 2)); } return s; }
  double value(unsigned j) const { double xl = x(dim - 1, j), s = expn<OB>(c, pt(j), 0.0, 0); for (int i = 0; i < NQ; ++i) s += q.w[i] * xl * slope(j, q.t[i] * xl); return s; } };
typedef MultivariateExpansionWorker<OB, HS> Exp_;
typedef MonotoneComponent<Exp_, OpaquePos, OpaqueQuad, HS> Comp;
static std::shared_ptr<Comp> make(Setup& s, bool cont) { std::shared_ptr<Comp> m; Exp_ e(fixedOf());
  if (sym_choice("coeffs", 2)) m = std::make_shared<Comp>(e, s.q, cont, s.eps, Kokkos::View<const double*, HS>(s.cv)); else { m = std::make_shared<Comp>(e, s.q, cont, s.eps); m->SetCoeffs(Kokkos::View<const double*, HS>(s.cv)); }
  return m; }
static Mat uninit(const char* n, unsigned r, unsigned c) { Mat m(std::string(n), r, c); sym_uninit(m.data(), 8ul * r * c); return m; }
static Vec uninitv(const char* n, unsigned r) { Vec m(std::string(n), r); sym_uninit(m.data(), 8ul * r); return m; }
