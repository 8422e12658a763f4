// P27: evaluations stay inside their arrays (the engine checks every access, free, uninitialised read and integer division), wrong shapes are rejected.
#include "mono.h"
#include "views.h"
#include "omap.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/MapFactory.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/Sigmoid.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
static int teamSize = 1; extern "C" int vk_team_size() { return teamSize; }
typedef std::shared_ptr<ParameterizedFunctionBase<HS>> FunPtr; typedef Eigen::RowMatrixXd RM;
enum Op { EVAL, GRAD, CGRAD, LOGDET, LDCG, LDIG, INV };
struct Sum : ParameterizedFunctionBase<HS> { Sum() : ParameterizedFunctionBase<HS>(2, 1, 0) {} void EvaluateImpl(CSMat const& p, SMat o) override { for (unsigned k = 0; k < p.extent(1); ++k) o(0, k) = p(0, k) * p(1, k); } void GradientImpl(CSMat const& p, CSMat const& s, SMat o) override { for (unsigned k = 0; k < p.extent(1); ++k) for (unsigned i = 0; i < 2; ++i) o(i, k) = s(0, k) * p(1 - i, k); } void CoeffGradImpl(CSMat const&, CSMat const&, SMat) override {} };
struct OSig { static double Evaluate(double x) { return uf1(70, x, 0); } static double Derivative(double x) { return uf1(70, x, 1); } };
struct Any { FunPtr f; MapPtr m; unsigned lead = 0, maxGuess = 0; };
static MapPtr component(unsigned d) { dim = d; terms.clear(); terms.push_back(std::vector<unsigned>(d, 0)); terms.push_back(std::vector<unsigned>(d, 1)); return std::make_shared<Comp>(Exp_(fixedOf()), OpaqueQuad(), true, 0.0); }
static Mat cmat(std::vector<std::vector<double>> v) { Mat A("A", v.size(), v[0].size()); for (unsigned i = 0; i < v.size(); ++i) for (unsigned j = 0; j < v[0].size(); ++j) A(i, j) = v[i][j]; return A; }
static Any any() { Any a; switch (sym_choice("map", 14)) { case 0: a.m = component(1); break; case 1: a.m = component(3); break; case 2: dim = 2; terms = {{0, 0}, {1, 2}}; a.f = std::make_shared<MultivariateExpansion<OB, HS>>(2, fixedOf(), OB()); break;
  case 3: a.m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{std::make_shared<OMap>(0, 2, 1, 1), std::make_shared<OMap>(1, 4, 2, 1)}); break; case 4: a.m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{component(1), component(2)}); break;
  case 5: a.m = std::make_shared<ComposedMap<HS>>(std::vector<MapPtr>{std::make_shared<OMap>(0, 2, 2, 1), std::make_shared<OMap>(1, 2, 2, 1)}); break; case 6: a.m = std::make_shared<SummarizedMap<HS>>(std::make_shared<Sum>(), std::make_shared<OMap>(0, 2, 1, 1)); break;
  case 7: a.m = std::make_shared<AffineMap<HS>>(cmat({{2, 1}, {0, 1}})); break; case 8: { Vec b("b", 1); b(0) = 1; a.m = std::make_shared<AffineMap<HS>>(cmat({{1, 2, 3}}), b); break; } case 9: { Vec b("b", 2); b(0) = 1; b(1) = 2; a.m = std::make_shared<AffineMap<HS>>(b); break; }
  case 10: { Vec b("b", 1); b(0) = 1; a.f = std::make_shared<AffineFunction<HS>>(cmat({{1, 2}}), b); break; } case 11: a.m = std::make_shared<IdentityMap<HS>>(3, 2); break; case 12: a.m = std::make_shared<IdentityMap<HS>>(2, 2); break; default: { Vec c("c", 2), w("w", 2); c(0) = 1; c(1) = 2; w(0) = w(1) = 3; a.f = std::make_shared<Sigmoid1d<HS, OSig>>(c, w); } }
  if (a.m) a.f = a.m; Vec c("c", a.f->numCoeffs); for (unsigned i = 0; i < c.extent(0); ++i) c(i) = 0.5 + i; a.f->SetCoeffs(Kokkos::View<const double*, HS>(c)); a.lead = a.f->inputDim - a.f->outputDim; if (dynamic_cast<IdentityMap<HS>*>(a.m.get())) a.lead = 0; return a; }
static void call(Any& a, Op o, SMat x, SMat s, bool eigen) { FunPtr f = a.f; MapPtr m = a.m; if (!eigen) { CSMat X = x, S = s; switch (o) { case EVAL: f->Evaluate(X); break; case GRAD: f->Gradient(X, S); break; case CGRAD: f->CoeffGrad(X, S); break; case LOGDET: m->LogDeterminant(X); break; case LDCG: m->LogDeterminantCoeffGrad(X); break; case LDIG: m->LogDeterminantInputGrad(X); break; case INV: m->Inverse(X, S); } return; }
  RM X(x.extent(0), x.extent(1)), S(s.extent(0), s.extent(1)); for (int i = 0; i < X.rows(); ++i) for (int j = 0; j < X.cols(); ++j) X(i, j) = x(i, j); for (int i = 0; i < S.rows(); ++i) for (int j = 0; j < S.cols(); ++j) S(i, j) = s(i, j); switch (o) { case EVAL: f->Evaluate(X); break; case GRAD: f->Gradient(X, S); break; case CGRAD: f->CoeffGrad(X, S); break; case LOGDET: m->LogDeterminant(X); break; case LDCG: m->LogDeterminantCoeffGrad(X); break; case LDIG: m->LogDeterminantInputGrad(X); break; case INV: m->Inverse(X, S); } }
static SMat filled(const char* n, unsigned r, unsigned c, int lay) { SMat m = layoutMat(n, r, c, lay); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = 0.25 + i + 0.5 * j; return m; }
// every shape around the right one, through both public entries
HARNESS(shapes) { Any a = any(); Op o = (Op)sym_choice("operation", a.m ? 6 : 3); bool two = o == GRAD || o == CGRAD, eigen = sym_choice("eigen", 2); unsigned in = a.f->inputDim, out = a.f->outputDim, N = TIER ? sym_choice("points", 4) : 2 * sym_choice("points", 2), D = TIER ? 5 : 3; int c = TIER ? 2 : 1; int dr = (int)sym_choice("rows", D) - c, sr = two ? (int)sym_choice("sensRows", D) - c : 0, sc = two ? (int)sym_choice("sensCols", D) - c : 0; if ((int)in + dr < 0 || (int)out + sr < 0 || (int)N + sc < 0) return;
  SMat x = filled("x", in + dr, N, eigen ? 0 : 2), s = two ? filled("s", out + sr, N + sc, eigen ? 0 : 1) : filled("s", 0, 0, 0); bool bad = dr || sr || sc, t = throws([&] { call(a, o, x, s, eigen); }); sym_assert(t == bad, bad ? "arrays of another shape are rejected" : "arrays of the right shape are accepted"); sym_reach(bad ? "rejected" : "accepted"); }
HARNESS(inverseShapes) { Any a = any(); if (!a.m || dynamic_cast<Comp*>(a.m.get())) return; if (auto t = dynamic_cast<TriangularMap<HS>*>(a.m.get())) if (dynamic_cast<Comp*>(t->GetComponent(0).get())) return; bool eigen = sym_choice("eigen", 2); unsigned in = a.f->inputDim, out = a.f->outputDim, N = 2 * sym_choice("points", 2), xr = sym_choice("guessRows", in + 1); int xc = (int)sym_choice("guessCols", 3) - 1, sr = (int)sym_choice("rows", 3) - 1; if ((int)N + xc < 0) return;
  SMat x = filled("x", xr, N + xc, 0), s = filled("s", out + sr, N, eigen ? 0 : 2); bool bad = xc || sr || xr < a.lead, t = throws([&] { call(a, INV, x, s, eigen); }); sym_assert(t == bad, bad ? "targets and leading inputs of another shape are rejected" : "targets and leading inputs of the right shape are accepted"); sym_reach(bad ? "rejected" : "accepted"); }
HARNESS(triangularGuess) { auto m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{std::make_shared<OMap>(0, 2, 1, 0), std::make_shared<OMap>(1, 3, 1, 0)}); unsigned r = sym_choice("rows", 6); bool t = throws([&] { m->Inverse(CSMat(filled("x", r, 2, 0)), CSMat(filled("r", 2, 2, 0))); }); sym_assert(t == (r < 1 || r > 3), "more rows than inputs are rejected"); sym_reach("guess"); }
HARNESS(componentInverseShapes) { dim = 1 + sym_choice("inputs", 3); terms = {std::vector<unsigned>(dim, 0)}; auto m = std::make_shared<MonotoneComponent<Exp_, mpart::Exp, ClenshawCurtisQuadrature<HS>, HS>>(Exp_(fixedOf()), ClenshawCurtisQuadrature<HS>(3, 1, nullptr), true, 0.0); Vec c("c", 1); c(0) = 0; m->SetCoeffs(Kokkos::View<const double*, HS>(c)); unsigned r = sym_choice("guessRows", dim + 1); int xc = (int)sym_choice("guessCols", 3) - 1, sr = (int)sym_choice("rows", 3) - 1; bool bad = xc || sr || r + 1 < dim; if (!bad) return; sym_assert(throws([&] { m->Inverse(CSMat(filled("x", r, 2 + xc, 0)), CSMat(filled("r", 1 + sr, 2, 0))); }), "targets and leading inputs of another shape are rejected"); sym_reach("rejected"); }
// the maps the factory makes, with every basis, positive function and rule: no sum over uninitialised or foreign memory, whatever the inputs
static unsigned maxPts = TIER ? 4 : 3;
static MapOptions opts() { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", 3); bool b = sym_choice("bounded", 2); o.posFuncType = (PosFuncTypes)(TIER ? sym_choice("pos", 2) : ((int)o.basisType + b) % 2); if (b) { maxPts = TIER ? 3 : 2; o.basisLB = -1.5; o.basisUB = 1.25; } o.quadMaxSub = 2; o.quadPts = 5; return o; }
static double num(const char* n, unsigned i, unsigned j, bool sym) { return sym ? symd(n, i, j) : 0.375 * (i + 1) - 0.625 * j; }
static void use(FunPtr f, MapPtr m, bool sym, int ops) { unsigned N = sym_choice("points", sym ? maxPts : TIER ? 4 : 3); teamSize = 1 + (N > 1); Op o = (Op)sym_choice("operation", ops); unsigned in = f->inputDim, out = f->outputDim; Vec c("c", f->numCoeffs); for (unsigned i = 0; i < c.extent(0); ++i) c(i) = sym ? symd("c", i) : 0.125 * i - 0.25; f->SetCoeffs(Kokkos::View<const double*, HS>(c)); Mat x("x", in, N), s("s", out, N); for (unsigned i = 0; i < in; ++i) for (unsigned k = 0; k < N; ++k) x(i, k) = num("x", i, k, sym); for (unsigned i = 0; i < out; ++i) for (unsigned k = 0; k < N; ++k) s(i, k) = num("s", i, k, sym && o != INV);
  unsigned R = o == EVAL || o == INV ? out : o == GRAD || o == LDIG ? in : o == LOGDET ? 1 : f->numCoeffs; SMat y; switch (o) { case EVAL: y = f->Evaluate(x); break; case GRAD: y = f->Gradient(x, s); break; case CGRAD: y = f->CoeffGrad(x, s); break; case LOGDET: { auto l = m->LogDeterminant(x); y = uninitMat("y", 1, l.extent(0), 0); for (unsigned k = 0; k < l.extent(0); ++k) y(0, k) = l(k); break; } case LDCG: y = m->LogDeterminantCoeffGrad(x); break; case LDIG: y = m->LogDeterminantInputGrad(x); break; case INV: y = m->Inverse(x, s); }
  sym_assert(y.extent(0) == R && y.extent(1) == N, "shape of the result"); for (unsigned i = 0; i < y.extent(0); ++i) for (unsigned k = 0; k < y.extent(1); ++k) sym_assert_eq(y(i, k) + 0.0, y(i, k), "the result is a number computed from the arguments"); sym_reach(N ? "points" : "no points"); }
static FixedMultiIndexSet<HS> someSet() { switch (sym_choice("terms", TIER ? 8 : 6)) { case 0: return FixedMultiIndexSet<HS>(1, 0); case 1: return FixedMultiIndexSet<HS>(3, 0); case 2: dim = 1; terms = {{2}}; break; case 3: dim = 2; terms = {{0, 3}, {2, 0}}; break; case 4: dim = 3; terms = {{0, 1, 0}}; break; case 5: return FixedMultiIndexSet<HS>(2, 1); case 6: return FixedMultiIndexSet<HS>(4, 1); default: dim = 2; terms = {{0, 0}, {0, 5}, {4, 1}}; } return fixedOf(); }
HARNESS(fixedRules) { MapOptions o = opts(); o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 3; o.contDeriv = sym_choice("cont", 2); MapPtr m = MapFactory::CreateComponent<HS>(someSet(), o); use(m, m, true, o.contDeriv ? 6 : 4); }
HARNESS(adaptiveRules) { MapOptions o = opts(); o.quadType = sym_choice("simpson", 2) ? QuadTypes::AdaptiveSimpson : QuadTypes::AdaptiveClenshawCurtis; o.quadMinSub = sym_choice("min", 2); o.contDeriv = sym_choice("cont", 2); MapPtr m = MapFactory::CreateComponent<HS>(someSet(), o); use(m, m, false, o.contDeriv ? 6 : 5); }
HARNESS(inverses) { MapOptions o = opts(); o.quadType = (QuadTypes)sym_choice("rule", 3); MapPtr m = MapFactory::CreateComponent<HS>(someSet(), o); unsigned N = sym_choice("points", 3); Vec c("c", m->numCoeffs); for (unsigned i = 0; i < c.extent(0); ++i) c(i) = 0.125 * i - 0.25; m->SetCoeffs(Kokkos::View<const double*, HS>(c)); Mat x("x", m->inputDim - 1 + sym_choice("guess", 2), N), r("r", 1, N); for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < x.extent(0); ++i) x(i, k) = num("x", i, k, false); r(0, k) = 0.5 - k; } auto y = m->Inverse(x, r); sym_assert(y.extent(0) == 1 && y.extent(1) == N, "shape of the result"); for (unsigned k = 0; k < N; ++k) sym_assert_eq(y(0, k) + 0.0, y(0, k), "the result is a number computed from the arguments"); sym_reach("inverse"); }
HARNESS(expansions) { MapOptions o = opts(); auto f = MapFactory::CreateExpansion<HS>(1 + sym_choice("outputs", 2), someSet(), o); use(f, nullptr, true, 3); }
HARNESS(triangulars) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", 3); o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 2; unsigned in = 1 + sym_choice("in", 3), out = 1 + sym_choice("out", in), order = sym_choice("order", TIER ? 3 : 2); MapPtr m = MapFactory::CreateTriangular<HS>(in, out, order, o); use(m, m, true, 6); }
// one operation after another on the same component: nothing the first leaves behind (workspace sizes, quadrature dimension) reaches the second
static SMat result(MapPtr m, Op o, Mat x, Mat s) { CSMat X = x, S = s; switch (o) { case EVAL: return m->Evaluate(X); case GRAD: return m->Gradient(X, S); case CGRAD: return m->CoeffGrad(X, S); case LDCG: return m->LogDeterminantCoeffGrad(X); case LDIG: return m->LogDeterminantInputGrad(X); case INV: return m->Inverse(X, S); default: { auto l = m->LogDeterminant(X); SMat y = uninitMat("y", 1, l.extent(0), 0); for (unsigned k = 0; k < l.extent(0); ++k) y(0, k) = l(k); return y; } } }
static void sequence(MapOptions o, bool sym, unsigned N) { o.contDeriv = sym_choice("cont", 2); FixedMultiIndexSet<HS> fs = someSet(); MapPtr m = MapFactory::CreateComponent<HS>(fs, o), f = MapFactory::CreateComponent<HS>(fs, o); Op a = (Op)sym_choice("first", 7), b = (Op)sym_choice("second", 7); if (!o.contDeriv && (a == LDIG || b == LDIG)) return; if (sym && (a == INV || b == INV)) return;
  unsigned in = m->inputDim; Vec c("c", m->numCoeffs); for (unsigned i = 0; i < c.extent(0); ++i) c(i) = sym ? symd("c", i) : 0.125 * i - 0.25; m->SetCoeffs(Kokkos::View<const double*, HS>(c)); f->SetCoeffs(Kokkos::View<const double*, HS>(c)); Mat x("x", in, N), s("s", 1, N); for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < in; ++i) x(i, k) = num("x", i, k, sym); s(0, k) = sym ? symd("s", k) : 0.5 - 0.75 * k; }
  result(m, a, x, s); SMat y = result(m, b, x, s), z = result(f, b, x, s); sym_assert(y.extent(0) == z.extent(0) && y.extent(1) == N && z.extent(1) == N, "shape of the result"); for (unsigned i = 0; i < z.extent(0); ++i) for (unsigned k = 0; k < N; ++k) sym_assert_eq(y(i, k), z(i, k), "what was computed before does not matter"); sym_reach("sequence"); }
HARNESS(sequenceFixed) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", TIER ? 3 : 1); o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 3; sequence(o, true, 1); }
HARNESS(sequenceInverse) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", TIER ? 3 : 1); o.quadType = (QuadTypes)sym_choice("rule", 3); o.quadMaxSub = 2; o.quadPts = o.quadType == QuadTypes::ClenshawCurtis ? 3 : 5; teamSize = 1; sequence(o, false, 1 + sym_choice("two", 2)); }
