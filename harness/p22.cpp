// P22: maps made by the factory against the same maps assembled by hand from the options.
#include "omap.h"
#include "MParT/MapFactory.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/TriangularMap.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
using namespace mpart; typedef std::shared_ptr<ConditionalMapBase<HS>> MP; typedef std::shared_ptr<ParameterizedFunctionBase<HS>> FP; typedef FixedMultiIndexSet<HS> F;
template <class B, class P, class Q> static MP hand(F const& f, B const& b, Q const& q, MapOptions const& o) { typedef MultivariateExpansionWorker<B, HS> W; return std::make_shared<MonotoneComponent<W, P, Q, HS>>(W(f, b), q, o.contDeriv, o.nugget); }
template <class P, class B> static MP hand2(F const& f, B const& b, MapOptions const& o) { switch (o.quadType) {
  case QuadTypes::ClenshawCurtis: return hand<B, P>(f, b, ClenshawCurtisQuadrature<HS>(o.quadPts, 1, nullptr), o);
  case QuadTypes::AdaptiveSimpson: return hand<B, P>(f, b, AdaptiveSimpson<HS>(o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub), o);
  default: { unsigned l = 1; while (o.quadPts > 2 && (2u << l) <= o.quadPts - 2) ++l;  return hand<B, P>(f, b, AdaptiveClenshawCurtis<HS>(l, o.quadMaxSub, 1, nullptr, o.quadAbsTol, o.quadRelTol, QuadError::First, o.quadMinSub), o); } } }
template <class B> static MP hand3(F const& f, B const& b, MapOptions const& o) { return o.posFuncType == PosFuncTypes::Exp ? hand2<Exp>(f, b, o) : hand2<SoftPlus>(f, b, o); }
template <class B> static MP hand4(F const& f, B const& b, MapOptions const& o, bool lin) { return lin ? hand3(f, LinearizedBasis<B>(b, o.basisLB, o.basisUB), o) : hand3(f, b, o); }
static MP handMade(F const& f, MapOptions const& o, bool lin) { switch (o.basisType) { case BasisTypes::ProbabilistHermite: return hand4(f, ProbabilistHermite(o.basisNorm), o, lin); case BasisTypes::PhysicistHermite: return hand4(f, PhysicistHermite(o.basisNorm), o, lin); default: return hand4(f, HermiteFunction(), o, lin); } }
static bool bounds(MapOptions& o, int k) { if (k == 0) return false; if (k != 2) o.basisLB = k == 4 ? sym_double("lb") : -1.25; if (k != 1) o.basisUB = k == 4 ? sym_double("ub") : 0.75; if (k == 4) sym_assume(o.basisLB < o.basisUB); return true; }
static MapOptions opts(bool& lin) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", 3); o.posFuncType = (PosFuncTypes)sym_choice("pos", 2); o.quadType = (QuadTypes)sym_choice("quad", 3); return o; }
static Kokkos::View<double**, HS> points(unsigned r, unsigned c, const char* n) { Kokkos::View<double**, HS> x("x", r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) x(i, j) = symd(n, i, j); return x; }
template <class A> static void same(A const& u, A const& v, const char* what) { sym_assert(u.extent(0) == v.extent(0) && u.extent(1) == v.extent(1), "shape"); for (unsigned i = 0; i < u.extent(0) && i < v.extent(0); ++i) for (unsigned j = 0; j < u.extent(1); ++j) sym_assert_eq(u(i, j), v(i, j), what); }
static void agree(ConditionalMapBase<HS>& a, ConditionalMapBase<HS>& b, Kokkos::View<double**, HS> x, int what) { sym_assert(a.inputDim == b.inputDim && a.outputDim == b.outputDim && a.numCoeffs == b.numCoeffs, "dimensions"); sym_assert(a.CheckCoefficients(), "a factory-made map has coefficients"); Kokkos::View<double*, HS> c("c", b.numCoeffs); auto c0 = a.Coeffs(); for (unsigned i = 0; i < b.numCoeffs; ++i) { sym_assert_eq(c0(i), 0.0, "initial coefficients"); c(i) = symd("c", i); } a.SetCoeffs(Kokkos::View<const double*, HS>(c)); b.SetCoeffs(Kokkos::View<const double*, HS>(c)); unsigned N = x.extent(1); auto s = points(1, N, "s");
  if (what == 0) same(a.Evaluate(x), b.Evaluate(x), "value"); if (what == 1) { auto u = a.LogDeterminant(x), v = b.LogDeterminant(x); for (unsigned j = 0; j < N; ++j) sym_assert_eq(u(j), v(j), "log-determinant"); } if (what == 2) same(a.Gradient(x, s), b.Gradient(x, s), "gradient"); if (what == 3) same(a.CoeffGrad(x, s), b.CoeffGrad(x, s), "coefficient gradient"); }
// fixed rules: everything symbolic
HARNESS(fixedRule) { bool lin; MapOptions o = opts(lin); if (o.quadType != QuadTypes::ClenshawCurtis) return; int k = sym_choice("bounds", TIER ? 5 : 3); lin = bounds(o, TIER ? k : k == 2 ? 4 : k); o.contDeriv = sym_choice("cont", 2); o.basisNorm = sym_choice("norm", 2); o.quadPts = TIER ? 1 + sym_choice("points", 3) : 2 + sym_choice("points", 2); o.nugget = sym_double("nugget"); sym_assume(o.nugget >= 0); unsigned d = 1 + sym_choice("dim", TIER ? 2 : 1); F f(d, 1); MP a = MapFactory::CreateComponent<HS>(f, o), b = handMade(f, o, lin); agree(*a, *b, points(d, 1, "x"), sym_choice("what", 4)); sym_reach("fixedRule"); }
// adaptive rules: symbolic tolerances, coefficients and nugget
HARNESS(adaptiveRule) { bool lin; MapOptions o = opts(lin); if (o.quadType == QuadTypes::ClenshawCurtis) return; int k = sym_choice("bounds", TIER ? 4 : 2); lin = bounds(o, k ? (TIER ? k : 3) : 0); int what = sym_choice("what", TIER ? 4 : 2); o.contDeriv = what ? sym_choice("cont", 2) : 1; o.basisNorm = sym_choice("norm", TIER ? 2 : 1); if (o.quadType == QuadTypes::AdaptiveClenshawCurtis) o.quadPts = (unsigned[]){5, 10, 2, 4, 6}[what && !TIER ? 0 : sym_choice("points", TIER ? 5 : 3)]; bool deep = !what && (TIER || (!lin && (int)o.basisType == (o.posFuncType == PosFuncTypes::Exp ? 0 : 1))); o.quadMaxSub = deep ? 1 + sym_choice("max", 2) : 1; o.quadMinSub = deep ? sym_choice("min", 2) : 0; if (o.quadMinSub >= o.quadMaxSub) return; o.quadAbsTol = sym_double("atol"); o.quadRelTol = sym_double("rtol"); sym_assume(o.quadAbsTol > 0 && o.quadRelTol > 0); o.nugget = sym_double("nugget"); sym_assume(o.nugget >= 0); F f(1, 1); MP a = MapFactory::CreateComponent<HS>(f, o), b = handMade(f, o, lin); agree(*a, *b, points(1, 1, "x"), what); sym_reach("adaptiveRule"); }
HARNESS(unknown) { MapOptions o; int k = sym_choice("which", 3); if (k == 0) o.basisType = (BasisTypes)(3 + sym_choice("v", 2)); if (k == 1) o.posFuncType = (PosFuncTypes)(2 + sym_choice("v", 2)); if (k == 2) o.quadType = (QuadTypes)(3 + sym_choice("v", 2)); if (sym_choice("lin", 2)) o.basisLB = -1; F f(1, 1); sym_assert(throws([&] { MapFactory::CreateComponent<HS>(f, o); }), "unknown options raise an error"); if (k == 0) sym_assert(throws([&] { MapFactory::CreateExpansion<HS>(1, f, o); }), "unknown basis raises an error"); sym_reach("unknown"); }
template <class B> static FP expn(unsigned m, F const& f, B const& b) { return std::make_shared<MultivariateExpansion<B, HS>>(m, f, b); }
template <class B> static FP expn2(unsigned m, F const& f, B const& b, MapOptions const& o, bool lin) { return lin ? expn(m, f, LinearizedBasis<B>(b, o.basisLB, o.basisUB)) : expn(m, f, b); }
HARNESS(expansions) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", 3); bool lin = bounds(o, sym_choice("bounds", 5)); o.basisNorm = sym_choice("norm", 2); unsigned m = 1 + sym_choice("outputs", 2), d = 1 + sym_choice("dim", 2); F f(d, d == 1 ? 3 : 2); FP a = MapFactory::CreateExpansion<HS>(m, f, o), b; switch (o.basisType) { case BasisTypes::ProbabilistHermite: b = expn2(m, f, ProbabilistHermite(o.basisNorm), o, lin); break; case BasisTypes::PhysicistHermite: b = expn2(m, f, PhysicistHermite(o.basisNorm), o, lin); break; default: b = expn2(m, f, HermiteFunction(), o, lin); }
  sym_assert(a->inputDim == d && a->outputDim == m && a->numCoeffs == m * f.Size(), "dimensions"); Kokkos::View<double*, HS> c("c", a->numCoeffs); auto c0 = a->Coeffs(); for (unsigned i = 0; i < c.extent(0); ++i) { sym_assert_eq(c0(i), 0.0, "initial coefficients"); c(i) = symd("c", i); } a->SetCoeffs(Kokkos::View<const double*, HS>(c)); b->SetCoeffs(Kokkos::View<const double*, HS>(c)); auto x = points(d, 1, "x"); same(a->Evaluate(x), b->Evaluate(x), "value"); sym_reach("expansions"); }
// triangular maps: dimensions, blocks over the right inputs, total-order terms
HARNESS(triangular) { MapOptions o; o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 2; o.posFuncType = PosFuncTypes::Exp; o.nugget = sym_double("nugget"); sym_assume(o.nugget >= 0); o.contDeriv = sym_choice("cont", 2); unsigned in = 1 + sym_choice("in", 3), out = 1 + sym_choice("out", 3), p = sym_choice("order", 3); if (out > in) { sym_assert(throws([&] { MapFactory::CreateTriangular<HS>(in, out, p, o); }), "more outputs than inputs raise an error"); sym_reach("rejected"); return; } MP m = MapFactory::CreateTriangular<HS>(in, out, p, o); std::vector<MP> parts; unsigned n = 0; for (unsigned i = 0; i < out; ++i) { parts.push_back(handMade(F(in - out + i + 1, p), o, false)); n += parts[i]->numCoeffs; } sym_assert(m->inputDim == in && m->outputDim == out && m->numCoeffs == n, "dimensions"); auto c0 = m->Coeffs(); Kokkos::View<double*, HS> c("c", n); for (unsigned i = 0; i < n; ++i) { sym_assert_eq(c0(i), 0.0, "initial coefficients"); c(i) = symd("c", i); } m->SetCoeffs(Kokkos::View<const double*, HS>(c));
  auto x = points(in, 1, "x"); auto y = m->Evaluate(x); auto ld = m->LogDeterminant(x); double sum = 0; unsigned k = 0; for (unsigned i = 0; i < out; ++i) { unsigned di = in - out + i + 1; Kokkos::View<double*, HS> ci("ci", parts[i]->numCoeffs); for (unsigned t = 0; t < ci.extent(0); ++t) ci(t) = c(k++); parts[i]->SetCoeffs(Kokkos::View<const double*, HS>(ci)); Kokkos::View<double**, HS> xi("xi", di, 1); for (unsigned t = 0; t < di; ++t) xi(t, 0) = x(t, 0); sym_assert_eq(y(i, 0), parts[i]->Evaluate(xi)(0, 0), "output of a block"); sum += parts[i]->LogDeterminant(xi)(0); } sym_assert_eq(ld(0), sum, "log-determinant"); sym_reach("triangular"); }
// single-entry maps over an arbitrary component
HARNESS(single) { unsigned d = 1 + sym_choice("dim", TIER ? 5 : 4), act = sym_choice("active", 7), ci = sym_choice("compDim", 6), nc = sym_choice("coeffs", 3), N = 1 + sym_choice("points", 2); if (ci == 0) return; auto comp = std::make_shared<OMap>(0, ci, 1, nc); if (act == 0 || act > d || act != ci) { sym_assert(throws([&] { MapFactory::CreateSingleEntryMap<HS>(d, act, comp); }), "an active index out of range or of another component size raises an error"); sym_reach("rejected"); return; }
  MP m = MapFactory::CreateSingleEntryMap<HS>(d, act, comp); sym_assert(m->inputDim == d && m->outputDim == d && m->numCoeffs == nc, "dimensions"); std::vector<double> c; Kokkos::View<double*, HS> cv("c", nc); for (unsigned i = 0; i < nc; ++i) { cv(i) = symd("c", i); c.push_back(cv(i)); } m->SetCoeffs(Kokkos::View<const double*, HS>(cv)); auto x = points(d, N, "x"); auto y = m->Evaluate(x); auto ld = m->LogDeterminant(x); auto z = m->Inverse(x, y); for (unsigned j = 0; j < N; ++j) { std::vector<double> xi; for (unsigned i = 0; i < act; ++i) xi.push_back(x(i, j)); double v = oval(0, 0, c, xi); for (unsigned i = 0; i < d; ++i) sym_assert_eq(y(i, j), i + 1 == act ? v : x(i, j), "only the active output changes"); sym_assert_eq(ld(j), odet(0, c, xi), "log-determinant"); std::vector<double> lead(xi.begin(), xi.end() - 1); for (unsigned i = 0; i < d; ++i) sym_assert_eq(z(i, j), i + 1 == act ? oinv(0, 0, c, lead, {v}) : x(i, j), "inverse"); } sym_reach("single"); }
