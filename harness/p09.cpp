// P09: inversion of a monotone component
#include "mono.h"
// minimal expansion: the cache holds the point; value at (x,0) is the coefficient times the first conditioning input (0 if none); slope input is one
struct MockExp { typedef OB BasisType; typedef HS KokkosSpace; operator MultivariateExpansionWorker<OB, HS>() const { return MultivariateExpansionWorker<OB, HS>(FixedMultiIndexSet<HS>(d, 0)); } unsigned d = 1; unsigned InputSize() const { return d; } unsigned NumCoeffs() const { return 1; } unsigned CacheSize() const { return d; }
  template <class P> void FillCache1(double* c, P const& p, DerivativeFlags::DerivativeType) const { for (unsigned i = 0; i + 1 < d; ++i) c[i] = p(i); }
  template <class P> void FillCache2(double* c, P const&, double x, DerivativeFlags::DerivativeType) const { c[d - 1] = x; }
  template <class C> double Evaluate(const double* c, C const& co) const { return co(0) * (d > 1 ? c[0] : 1.0); }
  template <class C> double DiagonalDerivative(const double* c, C const&, unsigned) const { return 1.0; }
  template <class C, class G> double CoeffDerivative(const double*, C const&, G) const { return 0; } template <class C, class G> double InputDerivative(const double*, C const&, G) const { return 0; }
  template <class C, class G> double MixedCoeffDerivative(const double*, C const&, unsigned, G) const { return 0; } template <class C, class G> double MixedInputDerivative(const double*, C const&, G) const { return 0; }
  FixedMultiIndexSet<HS> GetMultiIndexSet() const { return FixedMultiIndexSet<HS>(d, 0); } template <class A> void serialize(A&) {} };
struct One { static double Evaluate(double) { return 1.0; } static double Derivative(double) { return 0.0; } static double SecondDerivative(double) { return 0.0; } static double Inverse(double x) { return x; } };
static double XS[2][16], YS[2][16]; static int NN[2], MAXQ; static double EPS;
// the integral as an adversarially chosen strictly increasing function of x_d (zero at zero), slope at least the nugget
static double adversary(int col, double x) { int& n = NN[col]; for (int i = 0; i < n; ++i) if (x == XS[col][i]) return YS[col][i];
  if (n >= MAXQ) sym_stop();
  double y = symd("y", col, n); for (int i = 0; i < n; ++i) { if (x < XS[col][i]) sym_assume(y < YS[col][i]); else sym_assume(y > YS[col][i]); } XS[col][n] = x; YS[col][n] = y; ++n; return y; }
struct AdvQuad { int col = 0; void SetDim(unsigned) {} unsigned WorkspaceSize() const { return 1; } template <class F> void Integrate(double* w, F const& f, double, double, double* out) const { double xd; f(1.0, &xd); *out = adversary(col, xd); } template <class A> void serialize(A&) {} };
struct LinQuad { void SetDim(unsigned) {} unsigned WorkspaceSize() const { return 1; } template <class F> void Integrate(double* w, F const& f, double, double, double* out) const { f(0.5, out); } template <class A> void serialize(A&) {} };
static std::map<std::string, std::string> opts(const char* x, const char* y) { std::map<std::string, std::string> o; o["Method"] = "Bracket"; o["xtol"] = x; o["ytol"] = y; return o; }
// one column, adversarial component: a returned number is converged, anything else is reported as nan
HARNESS(adversarial) { MAXQ = TIER ? 6 : 4; NN[0] = 0; MockExp e; e.d = 2; Vec c("c", 1); c(0) = sym_double("c"); MonotoneComponent<MockExp, One, AdvQuad, HS> m(e, AdvQuad(), true, 0.0, c);
  Mat x("x", 2, 1); double x1 = x(0, 0) = sym_double("x1"); int st = sym_choice("start", 2); x(1, 0) = st ? -1.5 : 0.0; Vec ys("ys", 1); double t = sym_double("target"); ys(0) = t; Vec out = uninitv("out", 1);
  StridedMatrix<const double, HS> xs = x; StridedVector<const double, HS> yv = ys, cv = c; m.InverseImpl(xs, yv, cv, out, opts("0.6", "0.5"));
  if (std::isnan(out(0))) { sym_reach("reported failure"); return; }
  double r = out(0), yd = t - c(0) * x1; int in = 0, conv = 0, n = NN[0]; double *X = XS[0], *Y = YS[0];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int s = (Y[i] <= yd) & (yd <= Y[j]) & (X[i] <= r) & (r <= X[j]); in |= s; conv |= s & ((X[j] - X[i] <= 0.6) | (Y[j] - Y[i] <= 0.5)); }
  for (int i = 0; i < n; ++i) conv |= (X[i] == r) & (Y[i] - yd <= 0.5) & (yd - Y[i] <= 0.5);
  sym_assert(in, "inverse lies between points that straddle the target"); sym_assert(conv, "inverse is converged"); sym_reach("converged"); }
// several columns, affine in the last input with slope 1+nugget: evaluating at the inverse recovers the target within tolerance
static void batch(unsigned N, unsigned numX, unsigned d, const char* xt, const char* yt, double tol) { MockExp e; e.d = d; Vec c("c", 1); c(0) = sym_double_in("c", -1, 1); double eps = sym_choice("nugget", 2) ? 0.5 : 0.0;
  MonotoneComponent<MockExp, One, LinQuad, HS> m(e, LinQuad(), true, eps, c); Mat x("x", d, numX); for (unsigned j = 0; j < numX; ++j) { if (d > 1) x(0, j) = j == 0 ? 0.5 : 3.0; x(d - 1, j) = j == 0 ? 0.25 : -0.5; }
  Vec ys("ys", N); for (unsigned j = 0; j < N; ++j) ys(j) = j == 0 ? sym_double_in("target", -1, 2.5) : 0.75; Vec out = uninitv("out", N); StridedMatrix<const double, HS> xs = x; StridedVector<const double, HS> yv = ys, cv = c;
  m.InverseImpl(xs, yv, cv, out, opts(xt, yt));
  Mat z("z", d, N); for (unsigned j = 0; j < N; ++j) { if (d > 1) z(0, j) = x(0, numX == 1 ? 0 : j); z(d - 1, j) = out(j); } Mat y = m.Evaluate(z);
  for (unsigned j = 0; j < N; ++j) { sym_assert(!std::isnan(out(j)), "an affine component is always inverted"); sym_assert_close(y(0, j), ys(j), tol, "evaluating the inverse recovers the target"); } sym_reach("batch"); }
HARNESS(single) { batch(1, 1, 1 + sym_choice("dim", 2), "0.3", "0.1", 0.61); }
HARNESS(batch_own) { batch(2, 2, 2, "0.6", "0.5", 1.21); }
HARNESS(batch_shared) { batch(2, 1, 2, "0.6", "0.5", 1.21); }
// default tolerances (concrete targets, symbolic offset folded into the target)
HARNESS(default_tolerance) { MockExp e; e.d = 2; Vec c("c", 1); c(0) = 1.0; MonotoneComponent<MockExp, One, LinQuad, HS> m(e, LinQuad(), true, 0.5, c); int k = sym_choice("target", 4); double t = k == 0 ? 0.1 : k == 1 ? -7.3 : k == 2 ? 1234.5 : -0.75; Mat x1("x1", 1 + sym_choice("rows", 2), 2), r("r", 1, 2); for (unsigned j = 0; j < 2; ++j) { for (unsigned i = 0; i < x1.extent(0); ++i) x1(i, j) = 0.5 - 2.0 * j; r(0, j) = t + j; }
  Mat o = m.Inverse(x1, r); Mat z("z", 2, 2); for (unsigned j = 0; j < 2; ++j) { z(0, j) = x1(0, j); z(1, j) = o(0, j); } Mat y = m.Evaluate(z); for (unsigned j = 0; j < 2; ++j) sym_assert_close(y(0, j), r(0, j), 3e-6, "inverse at the default tolerance"); sym_reach("default"); }
// no conditioning inputs at all
HARNESS(no_conditioning) { MockExp e; e.d = 1; Vec c("c", 1); c(0) = 2.0; MonotoneComponent<MockExp, One, LinQuad, HS> m(e, LinQuad(), true, 0.0, c); Mat x1("x1", 0, 1), r("r", 1, 1); r(0, 0) = 3.5; Mat o = m.Inverse(x1, r); sym_assert_close(o(0, 0), 1.5, 3e-6, "inverse without leading inputs"); sym_reach("no conditioning"); }
HARNESS(nan_conditioning) { MockExp e; e.d = 2; Vec c("c", 1); c(0) = 1.0; MonotoneComponent<MockExp, One, LinQuad, HS> m(e, LinQuad(), true, 0.0, c); Mat x("x", 2, 2); x(0, 0) = NAN; x(1, 0) = 0; x(0, 1) = 0.5; x(1, 1) = 0; Vec ys("ys", 2), out = uninitv("out", 2); ys(0) = 1; ys(1) = 1.25; StridedMatrix<const double, HS> xs = x; StridedVector<const double, HS> yv = ys, cv = c; m.InverseImpl(xs, yv, cv, out);
  sym_assert(std::isnan(out(0)), "nan conditioning gives nan"); sym_assert_close(out(1), 0.75, 3e-6, "other columns unaffected"); sym_reach("nan"); }
HARNESS(bad_options) { MockExp e; e.d = 1; Vec c("c", 1); c(0) = 1.0; MonotoneComponent<MockExp, One, LinQuad, HS> m(e, LinQuad(), true, 0.0, c); int k = sym_choice("case", 6); Mat x("x", 1, k == 4 ? 3 : 2); for (unsigned j = 0; j < x.extent(1); ++j) x(0, j) = 0; Vec ys("ys", 2), out("out", k == 5 ? 1 : 2); ys(0) = ys(1) = 1; std::map<std::string, std::string> o;
  if (k == 0) o["Method"] = "Newton"; if (k == 1) o["xtol"] = "-1e-3"; if (k == 2) o["ytol"] = "-1"; if (k == 3) { o["xtol"] = "0"; o["ytol"] = "0"; } StridedMatrix<const double, HS> xs = x; StridedVector<const double, HS> yv = ys, cv = c; StridedVector<double, HS> ov = out;
  sym_assert(throws([&]() { m.InverseImpl(xs, yv, cv, ov, o); }), "invalid inversion request is an error"); sym_reach("bad"); }
// a component that saturates: targets beyond its range are reported as nan, attained ones still inverted
struct SatQuad { void SetDim(unsigned) {} unsigned WorkspaceSize() const { return 1; } template <class F> void Integrate(double* w, F const& f, double, double, double* out) const { double xd; f(1.0, &xd); *out = xd / (1 + std::fabs(xd)); } template <class A> void serialize(A&) {} };
HARNESS(unattained) { MockExp e; e.d = 1 + sym_choice("inputs", 2); Vec c("c", 1); c(0) = 0.5; MonotoneComponent<MockExp, One, SatQuad, HS> m(e, SatQuad(), true, 0.0, c); unsigned bad = sym_choice("which", 2); double sg = sym_choice("below", 2) ? -1 : 1; Mat x("x", e.d, 2); for (unsigned j = 0; j < 2; ++j) { x(0, j) = 1.0; x(e.d - 1, j) = sym_choice("start", 2) ? -3.5 : 0.25; } if (e.d > 1) x(0, 0) = x(0, 1) = 1.0;
  double base = e.d > 1 ? 0.5 : 0.5; Vec ys("ys", 2); ys(bad) = base + sg * sym_double_in("target", 1.001, 1000); ys(1 - bad) = base + 0.5; Vec out = uninitv("out", 2); StridedMatrix<const double, HS> xs = x; StridedVector<const double, HS> yv = ys, cv = c; m.InverseImpl(xs, yv, cv, out);
  sym_assert(std::isnan(out(bad)), "a target that is not attained is reported as nan"); sym_assert_close(out(1 - bad), 1.0, 1e-4, "attained targets are inverted all the same"); sym_reach("unattained"); }
