// P28: sigmoid expansions and tensor-product functions.
#include "views.h"
#include <sstream>
#include "opaque.h"
#include "MParT/DerivativeFlags.h"
#include "MParT/Sigmoid.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/TensorProductFunction.h"
using namespace mpart;
typedef std::vector<double> V1;
// ------------------------------------------------------------ the sigmoid itself
HARNESS(logistic) { double x = sym_double("x"); double f = Logistic::Evaluate(x); sym_assert(f > 0 && f < 1, "the sigmoid lies between 0 and 1"); sym_assert_eq(f * (1 + std::exp(-x)), 1.0, "the sigmoid is 1/(1+exp(-x))"); sym_assert_eq(Logistic::Derivative(x), sym_diff(f, "x"), "derivative of the sigmoid"); sym_assert(Logistic::Derivative(x) > 0, "the sigmoid increases"); sym_reach("logistic"); }
HARNESS(logisticInverse) { double y = sym_double("y"); sym_assume(y > 0 && y < 1); double x = Logistic::Inverse(y); sym_assert_eq(Logistic::Evaluate(x), y, "the inverse is mapped back"); sym_reach("inverse"); }
// ------------------------------------------------------------ expansions in an arbitrary sigmoid
struct OSig { static double Evaluate(double x) { return uf1(70, x, 0); } static double Inverse(double y) { return uf1(72, y, 0); } static double Derivative(double x) { return uf1(70, x, 1); } };
struct Sg { std::shared_ptr<Sigmoid1d<HS, OSig>> s; V1 c, w, t; };
static SVec lv(const char* n, V1& v, int lay) { SMat m = uninitMat(n, v.size(), 1, lay); SVec r = Kokkos::subview(m, Kokkos::ALL(), 0); for (unsigned i = 0; i < v.size(); ++i) r(i) = v[i] = symd(n, i); return r; }
static Sg mk(bool strided = false) { unsigned n = 1 + sym_choice("terms", TIER ? 4 : 3); Sg g{nullptr, V1(n), V1(n), V1(n)}; int lay = strided ? sym_choice("arrays", 3) : 0; SVec c = lv("center", g.c, lay), w = lv("width", g.w, lay); g.s = std::make_shared<Sigmoid1d<HS, OSig>>(c, w); SVec t = lv("coeff", g.t, 0); Kokkos::View<double*, HS> tc("t", n); for (unsigned i = 0; i < n; ++i) tc(i) = t(i); g.s->SetCoeffs(Kokkos::View<const double*, HS>(tc)); return g; }
static double sig(Sg const& g, double x) { double s = 0; for (unsigned i = 0; i < g.t.size(); ++i) s += g.t[i] * OSig::Evaluate(g.w[i] * (x - g.c[i])); return s; }
static double dsig(Sg const& g, double x) { double s = 0; for (unsigned i = 0; i < g.t.size(); ++i) s += g.t[i] * g.w[i] * OSig::Derivative(g.w[i] * (x - g.c[i])); return s; }
HARNESS(sigmoid) { Sg g = mk(true); sym_assert(g.s->inputDim == 1 && g.s->outputDim == 1 && g.s->numCoeffs == g.t.size(), "dimensions"); unsigned N = sym_choice("points", 4); SMat x = symMat("x", 1, N, sym_choice("layout", 3)); SMat y; if (sym_choice("impl", 2)) { y = uninitMat("y", 1, N, sym_choice("out", 3)); g.s->EvaluateImpl(x, y); } else y = g.s->Evaluate(CSMat(x)); sym_assert(y.extent(0) == 1 && y.extent(1) == N, "shape"); for (unsigned k = 0; k < N; ++k) sym_assert_eq(y(0, k), sig(g, x(0, k)), "value of the expansion"); sym_reach("sigmoid"); }
HARNESS(sizes) { unsigned a = sym_choice("centers", 4), b = sym_choice("widths", 4); Vec c = symVec("c", a), w = symVec("w", b); bool t = throws([&] { Sigmoid1d<HS, OSig> s(c, w); }); sym_assert(t == (a != b), "different numbers of centers and widths are rejected"); sym_reach("sizes"); }
// which argument comes first: the interface says points; a probe with known numbers tells what the code does
static bool pointsFirst() { Vec c("c", 1), w("w", 1), t("t", 1); c(0) = 0; w(0) = 1; t(0) = 1; Sigmoid1d<HS, Logistic> s(c, w); s.SetCoeffs(Kokkos::View<const double*, HS>(t)); Mat a("a", 1, 1), b("b", 1, 1); a(0, 0) = 0; b(0, 0) = 4; return std::fabs(s.Gradient(CSMat(a), CSMat(b))(0, 0) - 1.0) < 1e-9; }
HARNESS(order) { bool coeff = sym_choice("coeff", 2); if (!coeff) sym_assert(pointsFirst(), "Gradient takes the points first"); else { Vec c("c", 1), w("w", 1), t("t", 1); c(0) = 0; w(0) = 1; t(0) = 1; Sigmoid1d<HS, Logistic> s(c, w); s.SetCoeffs(Kokkos::View<const double*, HS>(t)); Mat a("a", 1, 1), b("b", 1, 1); a(0, 0) = 0; b(0, 0) = 4; sym_assert(std::fabs(s.CoeffGrad(CSMat(a), CSMat(b))(0, 0) - 2.0) < 1e-9, "CoeffGrad takes the points first"); } sym_reach("order"); }
HARNESS(sigGrad) { bool pf = pointsFirst(); Sg g = mk(); unsigned N = 1 + sym_choice("points", 3); SMat x = symMat("x", 1, N, sym_choice("layout", 3)), s = symMat("s", 1, N, sym_choice("sens", 3)); CSMat a = pf ? x : s, b = pf ? s : x; bool coeff = sym_choice("coeff", 2); unsigned n = coeff ? g.t.size() : 1; SMat y; if (sym_choice("impl", 2)) { y = uninitMat("y", n, N, sym_choice("out", 3)); if (coeff) g.s->CoeffGradImpl(a, b, y); else g.s->GradientImpl(a, b, y); } else y = coeff ? g.s->CoeffGrad(a, b) : g.s->Gradient(a, b);
  sym_assert(y.extent(0) == n && y.extent(1) == N, "shape"); for (unsigned k = 0; k < N; ++k) { if (!coeff) sym_assert_eq(y(0, k), s(0, k) * dsig(g, x(0, k)), "input gradient"); else for (unsigned i = 0; i < n; ++i) sym_assert_eq(y(i, k), s(0, k) * OSig::Evaluate(g.w[i] * (x(0, k) - g.c[i])), "coefficient gradient"); } sym_reach(coeff ? "coefficient gradient" : "gradient"); }
// ------------------------------------------------------------ tensor products of arbitrary functions of their inputs and coefficients
// the cache keeps the inputs and the kind of derivative it was filled for
struct OFac { int id; unsigned d, n; OFac(int i, unsigned dd, unsigned nn) : id(i), d(dd), n(nn) {} unsigned int CacheSize() const { return 2 * d + 1; } unsigned int NumCoeffs() const { return n; } unsigned int InputSize() const { return d; }
  template <class P> void FillCache1(double* c, P const& pt, DerivativeFlags::DerivativeType) const { for (unsigned i = 0; i + 1 < d; ++i) c[i] = pt(i); }
  template <class P> void FillCache2(double* c, P const&, double xd, DerivativeFlags::DerivativeType t) const { c[d - 1] = xd; c[d] = t == DerivativeFlags::Diagonal || t == DerivativeFlags::Input ? 1 : t == DerivativeFlags::Diagonal2 || t == DerivativeFlags::MixedInput ? 2 : 0; }
  template <class C> double f(const double* c, C const& t, int dd = 0, int dc = -1) const { V1 v(c, c + d); for (unsigned i = 0; i < n; ++i) v.push_back(t(i)); std::vector<int> e(v.size(), 0); e[d - 1] = dd; if (dc >= 0) e[d + dc]++; return sym_uf(400 + id, v.size(), v.data(), e.data()); }
  template <class C> double Evaluate(const double* c, C const& t) const { return f(c, t); }
  template <class C> double DiagonalDerivative(const double* c, C const& t, unsigned o) const { sym_assert(o >= 1 && c[d] >= o, "a derivative is only asked for after the cache was filled for it"); return f(c, t, o); }
  template <class C, class G> double CoeffDerivative(const double* c, C const& t, G& g) const { sym_assert(g.size() == n, "every factor gets its own part of the gradient"); for (unsigned i = 0; i < n; ++i) g(i) = f(c, t, 0, i); return f(c, t); }
  template <class C, class G> double MixedDerivative(const double* c, C const& t, unsigned o, G& g) const { sym_assert(g.size() == n, "every factor gets its own part of the gradient"); for (unsigned i = 0; i < n; ++i) g(i) = f(c, t, o, i); return f(c, t, o); } };
struct One { unsigned d, n; }; struct Ov { V1 v; double operator()(unsigned i) const { return v[i]; } };
// value of the factors and of the product, order o in the last input
static double fac(int id, unsigned d, unsigned n, V1 const& x, unsigned x0, V1 const& t, unsigned t0, int o, int dc = -1) { V1 c(x.begin() + x0, x.begin() + x0 + d); Ov v{V1(t.begin() + t0, t.begin() + t0 + n)}; return OFac(id, d, n).f(c.data(), v, o, dc); }
template <class T> static void product(T const& f, std::vector<OFac> const& F) { unsigned D = 0, N = 0, m = F.size(); std::vector<unsigned> x0, t0; for (auto& q : F) { x0.push_back(D); t0.push_back(N); D += q.d; N += q.n; } sym_assert(f.InputSize() == D && f.NumCoeffs() == N, "sizes of the product"); V1 x(D), t(N); Kokkos::View<double*, HS> xv("x", D), tv("t", N); for (unsigned i = 0; i < D; ++i) xv(i) = x[i] = symd("x", i); for (unsigned i = 0; i < N; ++i) tv(i) = t[i] = symd("t", i); double xd = sym_double("xd"); x[D - 1] = xd; int k = sym_choice("kind", 6);
  std::vector<double> cache(f.CacheSize() + 1, 3.5); sym_uninit(cache.data(), 8 * f.CacheSize()); DerivativeFlags::DerivativeType ty = k == 0 || k == 3 ? DerivativeFlags::None : k == 1 || k == 4 ? DerivativeFlags::Diagonal : DerivativeFlags::Diagonal2; f.FillCache1(cache.data(), xv, sym_choice("first", 2) ? ty : DerivativeFlags::None); f.FillCache2(cache.data(), xv, xd, ty); sym_assert_eq(cache[f.CacheSize()], 3.5, "only the cache is written");
  unsigned o = k % 3; auto val = [&](int skip, int dc, unsigned from = 0) { double p = 1; for (unsigned q = 0; q < m; ++q) p *= fac(F[q].id, F[q].d, F[q].n, x, x0[q], t, t0[q], q + 1 == m ? o : 0, (int)q == skip ? dc : -1); return p; };
  if (k < 3) { double v = o ? f.DiagonalDerivative(cache.data(), tv, o) : f.Evaluate(cache.data(), tv); sym_assert_eq(v, val(-1, -1), o ? "derivative in the last input" : "value"); }
  else { Eigen::VectorXd g(N); sym_uninit(g.data(), 8 * N); double v = o ? f.MixedDerivative(cache.data(), tv, o, g) : f.CoeffDerivative(cache.data(), tv, g); sym_assert_eq(v, val(-1, -1), "value of the gradient routine"); for (unsigned q = 0; q < m; ++q) for (unsigned i = 0; i < F[q].n; ++i) sym_assert_eq(g(t0[q] + i), val(q, i), o ? "mixed derivative" : "coefficient gradient"); }
  for (unsigned i = 0; i < D; ++i) if (i + 1 < D) sym_assert_eq(xv(i), x[i], "the point is not changed"); for (unsigned i = 0; i < N; ++i) sym_assert_eq(tv(i), t[i], "the coefficients are not changed"); sym_reach(k < 3 ? "value" : "gradients"); }
static OFac factor(int id) { unsigned d = 1 + sym_choice("inputs", TIER ? 4 : 3), n = sym_choice("coefficients", TIER ? 5 : 4); return OFac(id, d, n); }
HARNESS(tensor) { OFac a = factor(0), b = factor(1); product(TensorProductFunction<OFac, OFac>(a, b), {a, b}); }
HARNESS(nested) { static const unsigned S[3][6] = {{1, 2, 2, 1, 1, 3}, {2, 1, 1, 0, 1, 2}, {1, 1, 1, 2, 3, 1}}; auto s = S[sym_choice("sizes", 3)]; OFac a(0, s[0], s[1]), b(1, s[2], s[3]), c(2, s[4], s[5]); if (sym_choice("left", 2)) { TensorProductFunction<OFac, OFac> ab(a, b); product(TensorProductFunction<decltype(ab), OFac>(ab, c), {a, b, c}); } else { TensorProductFunction<OFac, OFac> bc(b, c); product(TensorProductFunction<OFac, decltype(bc)>(a, bc), {a, b, c}); } }
// expansions as factors
typedef MultivariateExpansionWorker<OpaqueBasis1, HS> EW;
HARNESS(expansions) { int k = sym_choice("case", 3); FixedMultiIndexSet<HS> m1(k == 1 ? 2 : 1, k == 2 ? 1 : 2), m2(k == 2 ? 2 : 1, k == 0 ? 1 : 2); EW a(m1), b(m2); TensorProductFunction<EW, EW> f(a, b); unsigned d1 = a.InputSize(), D = d1 + b.InputSize(), N1 = a.NumCoeffs(), N = N1 + b.NumCoeffs(); sym_assert(f.InputSize() == D && f.NumCoeffs() == N, "sizes of the product"); Kokkos::View<double*, HS> x("x", D), x1("x1", d1), x2("x2", D - d1), t("t", N), t1("t1", N1), t2("t2", N - N1); for (unsigned i = 0; i < D; ++i) { x(i) = symd("x", i); (i < d1 ? x1(i) : x2(i - d1)) = x(i); } for (unsigned i = 0; i < N; ++i) { t(i) = symd("t", i); (i < N1 ? t1(i) : t2(i - N1)) = t(i); }
  int o = sym_choice("order", 3); auto ty = o == 0 ? DerivativeFlags::None : o == 1 ? DerivativeFlags::Diagonal : DerivativeFlags::Diagonal2; V1 c(f.CacheSize()), ca(a.CacheSize()), cb(b.CacheSize()); sym_uninit(c.data(), 8 * c.size()); f.FillCache1(c.data(), x, ty); f.FillCache2(c.data(), x, x(D - 1), ty); a.FillCache1(ca.data(), x1, ty); a.FillCache2(ca.data(), x1, x1(d1 - 1), ty); b.FillCache1(cb.data(), x2, ty); b.FillCache2(cb.data(), x2, x2(D - d1 - 1), ty);
  double va = a.Evaluate(ca.data(), t1), vb = o ? b.DiagonalDerivative(cb.data(), t2, o) : b.Evaluate(cb.data(), t2); sym_assert_eq(o ? f.DiagonalDerivative(c.data(), t, o) : f.Evaluate(c.data(), t), va * vb, "product of two expansions"); if (o == 0) { Eigen::VectorXd g(N), ga(N1), gb(N - N1); a.CoeffDerivative(ca.data(), t1, ga); b.CoeffDerivative(cb.data(), t2, gb); sym_assert_eq(f.CoeffDerivative(c.data(), t, g), va * vb, "value of the gradient routine"); for (unsigned i = 0; i < N; ++i) sym_assert_eq(g(i), i < N1 ? vb * ga(i) : va * gb(i - N1), "coefficient gradient of two expansions"); } sym_reach("expansions"); }
