// P26: results do not depend on batching, team size, array layout, entry point or the order of the parallel iterations.
#include "mono.h"
#include "views.h"
#include "omap.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/Sigmoid.h"
static int teamSize = 1; extern "C" int vk_team_size() { return teamSize; }
typedef std::shared_ptr<ParameterizedFunctionBase<HS>> FunPtr; typedef Eigen::RowMatrixXd RM;
static void coeffs(FunPtr m, const char* n = "c") { Vec v("v", m->numCoeffs); for (unsigned i = 0; i < m->numCoeffs; ++i) v(i) = symd(n, i); m->SetCoeffs(Kokkos::View<const double*, HS>(v)); }
enum Op { EVAL, GRAD, CGRAD, LOGDET, LDCG, LDIG, INV };
static unsigned rows(FunPtr m, Op o) { return o == EVAL || o == INV ? m->outputDim : o == GRAD || o == LDIG ? m->inputDim : o == LOGDET ? 1 : m->numCoeffs; }
static void impl(FunPtr f, MapPtr m, Op o, CSMat x, CSMat s, SMat y) { switch (o) { case EVAL: f->EvaluateImpl(x, y); break; case GRAD: f->GradientImpl(x, s, y); break; case CGRAD: f->CoeffGradImpl(x, s, y); break; case LOGDET: m->LogDeterminantImpl(x, Kokkos::subview(y, 0, Kokkos::ALL())); break; case LDCG: m->LogDeterminantCoeffGradImpl(x, y); break; case LDIG: m->LogDeterminantInputGradImpl(x, y); break; case INV: m->InverseImpl(x, s, y); } }
template <class A, class B> static SMat views(FunPtr f, MapPtr m, Op o, A x, B s, SMat keep) { switch (o) { case EVAL: return f->Evaluate(x); case GRAD: return f->Gradient(x, s); case CGRAD: return f->CoeffGrad(x, s); case LOGDET: { auto l = m->LogDeterminant(x); for (unsigned k = 0; k < l.extent(0); ++k) keep(0, k) = l(k); sym_assert(l.extent(0) == x.extent(1), "one log determinant per point"); return keep; } case LDCG: return m->LogDeterminantCoeffGrad(x); case LDIG: return m->LogDeterminantInputGrad(x); default: return m->Inverse(x, s); } }
static RM eigen(FunPtr f, MapPtr m, Op o, RM const& x, RM const& s) { switch (o) { case EVAL: return f->Evaluate(x); case GRAD: return f->Gradient(x, s); case CGRAD: return f->CoeffGrad(x, s); case LOGDET: return m->LogDeterminant(x).transpose(); case LDCG: return m->LogDeterminantCoeffGrad(x); case LDIG: return m->LogDeterminantInputGrad(x); default: return m->Inverse(x, s); } }
static bool lite = false; // fewer points and entries for maps whose formulas are expensive
// a batch through any entry against every column on its own
static void batch(FunPtr f, MapPtr m, Op o, bool teams) { unsigned N = lite && !TIER ? sym_choice("points", 3) : teams ? sym_choice("points", TIER ? 6 : 5) : TIER ? sym_choice("points", 5) : sym_choice("points", 3), in = f->inputDim, R = rows(f, o), S = o == INV || o == GRAD || o == CGRAD ? f->outputDim : 0; if (!teams && !TIER && N == 2) N = 3; if (o == INV) in = sym_choice("guess", 2) ? f->inputDim : f->inputDim - f->outputDim; teamSize = teams ? 1 + sym_choice("team", lite ? 2 : TIER ? 5 : 4) : 1;
  int style = lite && !TIER ? sym_choice("entry", 2) * 4 : sym_choice("entry", 5), lay = style == 0 ? (lite && !TIER ? 2 : sym_choice("layout", 3)) : style == 1 ? (TIER ? sym_choice("layout", 5) : 1 << sym_choice("layout", 3)) : style == 3 ? 1 : 0, slay = style == 0 ? (lay + 1) % 3 : style == 1 ? (lay + 1) % 5 : lay, olay = style == 0 ? (TIER ? sym_choice("out", 3) : (lay + 2) % 3) : 0;
  SMat x = symMat("x", in, N, lay), s = symMat("s", S, N, slay), y = uninitMat("y", R, N, olay); RM e; std::vector<V1> given; for (unsigned k = 0; k < N; ++k) given.push_back(col(x, k, in));
  if (style == 0) impl(f, m, o, x, s, y);
  else if (style == 1) y = views(f, m, o, CSMat(x), CSMat(s), y);
  else if (style == 4) { RM ex(in, N), es(S, N); for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < in; ++i) ex(i, k) = x(i, k); for (unsigned i = 0; i < S; ++i) es(i, k) = s(i, k); } e = eigen(f, m, o, ex, es); sym_assert(e.rows() == R && e.cols() == N, "shape of the result"); }
  else if (style == 2) { Mat a("a", in, N), b("b", S, N); for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < in; ++i) a(i, k) = x(i, k); for (unsigned i = 0; i < S; ++i) b(i, k) = s(i, k); } y = views(f, m, o, a, b, y); }
  else { MatL a("a", in, N), b("b", S, N); for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < in; ++i) a(i, k) = x(i, k); for (unsigned i = 0; i < S; ++i) b(i, k) = s(i, k); } y = views(f, m, o, a, b, y); }
  if (style != 4) sym_assert(y.extent(0) == R && y.extent(1) == N, "shape of the result");
  teamSize = 1; for (unsigned k = 0; k < N; ++k) { SMat p = layoutMat("p", in, 1, 0), q = layoutMat("q", S, 1, 0), z = uninitMat("z", R, 1, 0); for (unsigned i = 0; i < in; ++i) p(i, 0) = x(i, k); for (unsigned i = 0; i < S; ++i) q(i, 0) = s(i, k); impl(f, m, o, p, q, z); for (unsigned i = 0; i < R; ++i) sym_assert_eq(style == 4 ? e(i, k) : y(i, k), z(i, 0), "every column is the result for its point alone"); }
  for (unsigned k = 0; k < N; ++k) for (unsigned i = 0; i < in; ++i) sym_assert_eq(x(i, k), given[k][i], "the points are not changed"); sym_reach(style == 0 ? "implementation" : style == 4 ? "Eigen" : "views"); }
static Op anyOp(bool inv = true) { return (Op)sym_choice("operation", inv ? 7 : 6); }
// ------------------------------------------------------------ components: threads with scratch memory of their own
static MapPtr component(bool cont, int k = -1) { switch (k < 0 ? sym_choice("terms", TIER ? 3 : 2) : k) { case 0: dim = 2; terms = {{0, 0}, {1, 0}, {0, 1}, {1, 1}}; break; case 1: dim = 1; terms = {{0}, {1}, {2}}; break; default: dim = 3; terms = {{1, 0, 1}, {0, 1, 2}, {1, 1, 0}}; } auto m = std::make_shared<Comp>(Exp_(fixedOf()), OpaqueQuad(), cont, sym_choice("nugget", 2) ? 0.25 : 0.0); coeffs(m); return m; }
HARNESS(component) { auto m = component(true); batch(m, m, (Op)sym_choice("operation", 6), true); }
HARNESS(componentDiscrete) { lite = true; auto m = component(false, TIER ? -1 : 1); batch(m, m, sym_choice("operation", 2) ? LDCG : LOGDET, true); }
HARNESS(expansion) { dim = 1 + sym_choice("dim", 2); if (dim == 1) terms = {{0}, {2}}; else terms = {{0, 0}, {1, 0}, {1, 2}}; auto f = std::make_shared<MultivariateExpansion<OB, HS>>(1 + sym_choice("outputs", 2), fixedOf(), OB()); coeffs(f); batch(f, nullptr, (Op)sym_choice("operation", 3), true); }
// ------------------------------------------------------------ inverses by root finding (concrete numbers: the search itself is P08/P09), columns of different length
struct MockExp { typedef OB BasisType; typedef HS KokkosSpace; unsigned d = 1; operator MultivariateExpansionWorker<OB, HS>() const { return MultivariateExpansionWorker<OB, HS>(FixedMultiIndexSet<HS>(d, 0)); } unsigned InputSize() const { return d; } unsigned NumCoeffs() const { return 1; } unsigned CacheSize() const { return d; }
  template <class P> void FillCache1(double* c, P const& p, DerivativeFlags::DerivativeType) const { for (unsigned i = 0; i + 1 < d; ++i) c[i] = p(i); } template <class P> void FillCache2(double* c, P const&, double x, DerivativeFlags::DerivativeType) const { c[d - 1] = x; }
  template <class C> double Evaluate(const double* c, C const& co) const { return co(0) * (d > 1 ? c[0] : 1.0); } template <class C> double DiagonalDerivative(const double* c, C const&, unsigned) const { return d > 1 ? c[0] : 1.0; }
  template <class C, class G> double CoeffDerivative(const double*, C const&, G) const { return 0; } template <class C, class G> double InputDerivative(const double*, C const&, G) const { return 0; } template <class C, class G> double MixedCoeffDerivative(const double*, C const&, unsigned, G) const { return 0; } template <class C, class G> double MixedInputDerivative(const double*, C const&, G) const { return 0; }
  FixedMultiIndexSet<HS> GetMultiIndexSet() const { return FixedMultiIndexSet<HS>(d, 0); } template <class A> void serialize(A&) {} };
struct LinPos { static double Evaluate(double x) { return 1.0 + x * x; } static double Derivative(double x) { return 2 * x; } static double SecondDerivative(double) { return 2.0; } static double Inverse(double x) { return x; } };
struct LinQuad { void SetDim(unsigned) {} unsigned WorkspaceSize() const { return 1; } template <class F> void Integrate(double* w, F const& f, double, double, double* out) const { f(0.5, w); *out = w[0]; } template <class A> void serialize(A&) {} };
HARNESS(componentInverse) { MockExp e; e.d = 1 + sym_choice("inputs", 2); Vec c("c", 1); c(0) = 0.75; MonotoneComponent<MockExp, LinPos, LinQuad, HS> m(e, LinQuad(), true, 0.0, c); unsigned N = sym_choice("points", TIER ? 6 : 5), rows = e.d - 1 + sym_choice("guess", 2); teamSize = 1 + sym_choice("team", 4); int lay = sym_choice("layout", 3), perm = sym_choice("targets", 4); static const double T[6] = {0.3, -7.25, 1.5, 40.0, 0.0, -0.125}, X[5] = {0.5, -1.25, 2.0, 0.0, 3.0}; SMat x = layoutMat("x", rows, N, lay), r = layoutMat("r", 1, N, lay), y = uninitMat("y", 1, N, sym_choice("out", 3));
  for (unsigned k = 0; k < N; ++k) { for (unsigned i = 0; i < rows; ++i) x(i, k) = X[(k + i + perm) % 5]; r(0, k) = T[(2 * k + perm) % 6]; } if (sym_choice("public", 2)) y = m.Inverse(CSMat(x), CSMat(r)); else m.InverseImpl(x, r, y); teamSize = 1; for (unsigned k = 0; k < N; ++k) { Mat p("p", rows, 1), q("q", 1, 1), z("z", 1, 1); for (unsigned i = 0; i < rows; ++i) p(i, 0) = x(i, k); q(0, 0) = r(0, k); m.InverseImpl(p, q, z); sym_assert(std::isfinite(z(0, 0)) && y(0, k) == z(0, 0), "every column is the inverse for its target alone"); } sym_reach("inverse"); }
// ------------------------------------------------------------ maps made of maps, and the other kinds of maps
HARNESS(triangular) { int k = sym_choice("parts", TIER ? 3 : 2); auto a = component(true, 1), b = k == 1 ? std::make_shared<OMap>(1, 2, 1, 1) : component(true, 0); MapPtr m = std::make_shared<TriangularMap<HS>>(k == 2 ? std::vector<MapPtr>{a, b, std::make_shared<OMap>(2, 3, 1, 0)} : std::vector<MapPtr>{a, b}); coeffs(m); batch(m, m, (Op)sym_choice("operation", 6), true); }
HARNESS(triangularOpaque) { static const unsigned S[3][3] = {{0, 1, 1}, {1, 1, 2}, {2, 2, 1}}; auto s = S[sym_choice("sizes", 3)]; MapPtr m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{std::make_shared<OMap>(0, s[0] + s[1], s[1], 1), std::make_shared<OMap>(1, s[0] + s[1] + s[2], s[2], 2)}); coeffs(m); batch(m, m, anyOp(), false); }
HARNESS(composed) { unsigned L = 2 + sym_choice("layers", 2), d = 1 + sym_choice("dim", 2); std::vector<MapPtr> v; for (unsigned i = 0; i < L; ++i) v.push_back(std::make_shared<OMap>(i, d, d, 1)); int check = sym_choice("checkpoints", 3); MapPtr m = std::make_shared<ComposedMap<HS>>(v, false, check == 0 ? -1 : check); coeffs(m); batch(m, m, anyOp(), false); }
HARNESS(summarized) { struct Sum : ParameterizedFunctionBase<HS> { Sum() : ParameterizedFunctionBase<HS>(2, 1, 0) {} void EvaluateImpl(CSMat const& p, SMat o) override { for (unsigned k = 0; k < p.extent(1); ++k) o(0, k) = ouf(31, {}, col(p, k, 2)); } void GradientImpl(CSMat const& p, CSMat const& s, SMat o) override { for (unsigned k = 0; k < p.extent(1); ++k) for (unsigned i = 0; i < 2; ++i) o(i, k) = s(0, k) * ouf(31, {}, col(p, k, 2), i); } void CoeffGradImpl(CSMat const&, CSMat const&, SMat) override {} };
  MapPtr m = std::make_shared<SummarizedMap<HS>>(std::make_shared<Sum>(), std::make_shared<OMap>(0, 2, 1, 2)); coeffs(m); batch(m, m, anyOp(), false); }
HARNESS(identity) { unsigned in = 1 + sym_choice("in", 3), out = 1 + sym_choice("out", in); MapPtr m = std::make_shared<IdentityMap<HS>>(in, out); batch(m, m, anyOp(), false); }
HARNESS(affine) { unsigned out = 1 + sym_choice("out", 2), in = out + sym_choice("extra", 2); int kind = sym_choice("kind", 3); SMat A = symMat("A", out, in, kind); Vec b = symVec("b", out); double dt = out == 1 ? A(0, in - 1) : A(0, in - 2) * A(1, in - 1) - A(0, in - 1) * A(1, in - 2); sym_assume((dt > 0) | (dt < 0)); if (out == 2) sym_assume(((A(0, in - 2) > 0) & (A(0, in - 2) > A(1, in - 2)) & (A(0, in - 2) > -A(1, in - 2))));
  MapPtr m; if (kind == 0) m = std::make_shared<AffineMap<HS>>(A, b); else if (kind == 1) m = std::make_shared<AffineMap<HS>>(A); else { sym_assume(in == out); m = std::make_shared<AffineMap<HS>>(b); } batch(m, m, anyOp(), false); }
HARNESS(affineFunction) { unsigned out = 1 + sym_choice("out", 2), in = 1 + sym_choice("in", 2); int kind = sym_choice("kind", 3); SMat A = symMat("A", out, in, kind); Vec b = symVec("b", out); FunPtr m; if (kind == 2) { sym_assume(in == out); } else sym_assume(in >= out); if (kind == 0) m = std::make_shared<AffineFunction<HS>>(A, b); else if (kind == 1) m = std::make_shared<AffineFunction<HS>>(A); else m = std::make_shared<AffineFunction<HS>>(b); batch(m, nullptr, (Op)sym_choice("operation", 3), false); }
struct OSig { static double Evaluate(double x) { return uf1(70, x, 0); } static double Derivative(double x) { return uf1(70, x, 1); } };
HARNESS(sigmoid) { unsigned n = 1 + sym_choice("terms", 2); Vec c = symVec("center", n), w = symVec("width", n); FunPtr m = std::make_shared<Sigmoid1d<HS, OSig>>(c, w); coeffs(m); batch(m, nullptr, (Op)sym_choice("operation", 3), false); }
