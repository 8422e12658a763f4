// P06: slope, log determinant, monotonicity of a monotone component
#include "mono.h"
HARNESS(continuous) { Setup s(1 + sym_choice("npts", 2)); auto m = make(s, true); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x;
  Vec d = uninitv("d", s.N), l = uninitv("l", s.N); m->ContinuousDerivative(xs, cs, d); m->LogDeterminantImpl(xs, l); auto L = m->LogDeterminant(s.x); auto D = m->ContinuousDerivative(xs, cs);
  for (unsigned j = 0; j < s.N; ++j) { double r = s.slope(j, s.x(dim - 1, j)); sym_assert_eq(d(j), r, "slope is g(df)+nugget"); sym_assert_eq(D(j), r, "slope (returned)"); sym_assert(d(j) > 0, "slope strictly positive"); sym_assert(d(j) > s.eps, "slope exceeds the nugget");
    sym_assert_eq(l(j), std::log(r), "log determinant is the log of the slope"); sym_assert_eq(L(j), std::log(r), "log determinant (public entry)"); } sym_reach("continuous"); }
HARNESS(discrete) { Setup s(1); auto m = make(s, false); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x; double v = s.value(0);
  Vec e = uninitv("e", 1), d = uninitv("d", 1), l = uninitv("l", 1); m->DiscreteDerivative(xs, cs, e, d); double r = sym_diff(v, nm("x", dim - 1, 0).c_str()); sym_assert_eq(d(0), r, "discrete derivative differentiates the value"); sym_assert_eq(m->DiscreteDerivative(xs, cs)(0), r, "discrete derivative (returned)");
  m->LogDeterminantImpl(xs, l); if (d(0) > 0) { sym_assert_eq(l(0), std::log(d(0)), "log determinant of the discrete slope"); sym_reach("positive"); } else { sym_assert(l(0) == -INFINITY, "non-positive slope has log determinant minus infinity"); sym_reach("non-positive"); } }
// slope constant in the last input (affine in the last input): any rule whose weights sum to one is exact; value strictly increasing
struct Lin : OB { static double v(unsigned k, double x, int d) { return k == 0 ? (d ? 0.0 : 1.0) : k == 1 ? (d == 0 ? x : d == 1 ? 1.0 : 0.0) : uf1(100 + 2 * k, x, d); }
  void EvaluateAll(double* o, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) o[k] = v(k, x, 0); } void EvaluateDerivatives(double* a, double* b, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { a[k] = v(k, x, 0); b[k] = v(k, x, 1); } }
  void EvaluateSecondDerivatives(double* a, double* b, double* c, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { a[k] = v(k, x, 0); b[k] = v(k, x, 1); c[k] = v(k, x, 2); } } };
HARNESS(increasing_affine) { dim = 1 + sym_choice("dim", 2); terms = dim == 1 ? std::vector<std::vector<unsigned>>{{0}, {1}} : std::vector<std::vector<unsigned>>{{2, 0}, {0, 1}, {2, 1}}; unsigned n = terms.size(); Vec c("c", n); for (unsigned i = 0; i < n; ++i) c(i) = symd("c", i); double eps = sym_double("eps"); sym_assume(eps >= 0);
  OpaqueQuad q; double sum = 0; for (int i = 0; i < NQ; ++i) sum += q.w[i]; sym_assume(sum == 1); MonotoneComponent<MultivariateExpansionWorker<Lin, HS>, OpaquePos, OpaqueQuad, HS> m(MultivariateExpansionWorker<Lin, HS>(fixedOf()), q, true, eps, c);
  Mat x("x", dim, 2); for (unsigned i = 0; i < dim; ++i) x(i, 0) = x(i, 1) = symd("x", i); double a = sym_double("a"), h = sym_double("h"); sym_assume(h > 0); x(dim - 1, 0) = a; x(dim - 1, 1) = a + h; Mat y = m.Evaluate(x);
  sym_assert(y(0, 1) - y(0, 0) >= eps * h, "increases by at least the nugget times the step"); sym_assert(y(0, 1) > y(0, 0), "strictly increasing"); sym_reach("increasing"); }
// slope quadratic in the last input, rule exact to degree two
struct SqPos { static double Evaluate(double x) { return x * x + 0.25; } static double Derivative(double x) { return 2 * x; } static double SecondDerivative(double) { return 2; } static double Inverse(double x) { return x; } };
struct Mono2 : OB { static double v(unsigned k, double x, int d) { return k == 0 ? (d ? 0.0 : 1.0) : k == 1 ? (d == 0 ? x : d == 1 ? 1.0 : 0.0) : (d == 0 ? x * x : d == 1 ? 2 * x : 2.0); }
  void EvaluateAll(double* o, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) o[k] = v(k, x, 0); } void EvaluateDerivatives(double* a, double* b, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { a[k] = v(k, x, 0); b[k] = v(k, x, 1); } }
  void EvaluateSecondDerivatives(double* a, double* b, double* c, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { a[k] = v(k, x, 0); b[k] = v(k, x, 1); c[k] = v(k, x, 2); } } };
HARNESS(increasing_quadratic) { dim = 1; terms = {{0}, {1}, {2}}; Vec c("c", 3); for (int i = 0; i < 3; ++i) c(i) = sym_double_in(nm("c", i).c_str(), -10, 10); double eps = sym_double_in("eps", 0, 10);
  MonotoneComponent<MultivariateExpansionWorker<Mono2, HS>, SqPos, ClenshawCurtisQuadrature<HS>, HS> m(MultivariateExpansionWorker<Mono2, HS>(fixedOf()), ClenshawCurtisQuadrature<HS>(3, 1, nullptr), true, eps, c);
  Mat x("x", 1, 2); double a = sym_double_in("a", -10, 10), h = sym_double("h"); sym_assume(h > 1e-3 && h < 10); x(0, 0) = a; x(0, 1) = a + h; Mat y = m.Evaluate(x);
  // exact increment: h(1/4+eps) + int (c1+2 c2 t)^2
  double b = a + h, inc = h * (0.25 + eps) + c(1) * c(1) * h + 2 * c(1) * c(2) * (b * b - a * a) + 4.0 / 3.0 * c(2) * c(2) * (b * b * b - a * a * a); sym_assert_close(y(0, 1) - y(0, 0), inc, 1e-6, "increment is the integral of the slope"); sym_assert(y(0, 1) > y(0, 0), "strictly increasing where the rule is exact"); sym_reach("quadratic"); }
// the minimum slope is the one configured, seen identically by evaluation, slope, log determinant and the functions inverted
HARNESS(nugget_everywhere) { Setup s(1); sym_assume(s.eps > 0); auto m = make(s, true); double sl = s.slope(0, s.x(dim - 1, 0)); StridedMatrix<const double, HS> xs = s.x;
  Vec l = uninitv("l", 1); m->LogDeterminantImpl(xs, l); sym_assert_eq(l(0), std::log(sl), "log determinant sees the nugget"); sym_assert_eq(m->Evaluate(s.x)(0, 0), s.value(0), "evaluation sees the nugget"); sym_reach("nugget"); }
