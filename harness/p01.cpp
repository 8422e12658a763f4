// P01: one-dimensional bases against the textbook definitions
#include "harness.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
using namespace mpart;
static const unsigned N = TIER ? 22 : 16;
static double fact(unsigned n) { double r = 1; for (unsigned i = 2; i <= n; ++i) r *= i; return r; }
static double ipow(double x, unsigned k) { double r = 1; for (unsigned i = 0; i < k; ++i) r *= x; return r; }
// He_n(x) = n! sum_m (-1)^m / (m! (n-2m)!) x^(n-2m) / 2^m ;  H_n(x) = n! sum_m (-1)^m / (m! (n-2m)!) (2x)^(n-2m)
static double choose2m(unsigned n, unsigned m) { double r = 1; for (unsigned i = 0; i < 2 * m; ++i) r *= (n - i); for (unsigned i = 2; i <= m; ++i) r /= i; return r; } // n!/(m!(n-2m)!)
static double refHe(unsigned n, double x) { double s = 0; for (unsigned m = 0; 2 * m <= n; ++m) s += (m % 2 ? -1.0 : 1.0) * choose2m(n, m) / ipow(2, m) * ipow(x, n - 2 * m); return s; }
static double refH(unsigned n, double x) { double s = 0; for (unsigned m = 0; 2 * m <= n; ++m) s += (m % 2 ? -1.0 : 1.0) * choose2m(n, m) * ipow(2.0, n - 2 * m) * ipow(x, n - 2 * m); return s; }
template <class P, class R> static void family(P const& p, R ref, unsigned lo, unsigned hi) {
  double x = sym_double("x"); unsigned n = lo + sym_choice("order", hi - lo + 1);
  std::vector<double> r(n + 1), d(n + 1), dd(n + 1); for (unsigned k = 0; k <= n; ++k) { r[k] = ref(k, x); d[k] = sym_diff(r[k], "x"); dd[k] = 0; }
  double e1 = p.Derivative(n, x); double d2 = sym_diff(d[n], "x");
  sym_assert_eq(p.Evaluate(n, x), r[n], "Evaluate is the defined function");
  sym_assert_eq(e1, d[n], "Derivative is the exact derivative");
  if (sym_is_symbolic()) sym_assert_eq(p.SecondDerivative(n, x), d2, "SecondDerivative is the exact second derivative");
  else sym_assert_eq(p.SecondDerivative(n, x), sym_diff(e1, "x"), "SecondDerivative is the exact second derivative");
  double *a = new double[n + 1], *b = new double[n + 1], *c = new double[n + 1];
  p.EvaluateAll(a, n, x); for (unsigned k = 0; k <= n; ++k) sym_assert_eq(a[k], r[k], "EvaluateAll agrees with the single-order value");
  sym_uninit(a, 8 * (n + 1)); p.EvaluateDerivatives(a, b, n, x); for (unsigned k = 0; k <= n; ++k) { sym_assert_eq(a[k], r[k], "value from EvaluateDerivatives"); sym_assert_eq(b[k], d[k], "derivative from EvaluateDerivatives"); }
  sym_uninit(a, 8 * (n + 1)); sym_uninit(b, 8 * (n + 1)); p.EvaluateSecondDerivatives(a, b, c, n, x);
  for (unsigned k = 0; k <= n; ++k) { sym_assert_eq(a[k], r[k], "value from EvaluateSecondDerivatives"); sym_assert_eq(b[k], d[k], "derivative from EvaluateSecondDerivatives"); sym_assert_eq(c[k], p.SecondDerivative(k, x), "second derivative from EvaluateSecondDerivatives"); }
  delete[] a; delete[] b; delete[] c; sym_reach("family");
}
template <class P, class R> static void derivsOnly(P const& p, R ref) { double x = sym_double("x"); unsigned n = sym_choice("order", N + 1); double* b = new double[n + 1]; p.EvaluateDerivatives(b, n, x); for (unsigned k = 0; k <= n; ++k) sym_assert_eq(b[k], sym_diff(ref(k, x), "x"), "derivative-only routine"); delete[] b; sym_reach("derivs"); }
static double normHe(unsigned n) { return std::sqrt(std::sqrt(2.0 * M_PI) * fact(n)); }
static double normH(unsigned n) { return std::sqrt(std::sqrt(M_PI) * std::ldexp(1.0, n) * fact(n)); }
HARNESS(probabilist) { family(ProbabilistHermite(false), refHe, 0, N); }
HARNESS(probabilist_normalised) { family(ProbabilistHermite(true), [](unsigned n, double x) { return refHe(n, x) / normHe(n); }, 0, N); }
HARNESS(physicist) { family(PhysicistHermite(false), refH, 0, N); }
HARNESS(physicist_normalised) { family(PhysicistHermite(true), [](unsigned n, double x) { return refH(n, x) / normH(n); }, 0, N); }
HARNESS(derivatives_only) { int w = sym_choice("which", 4);
  if (w == 0) derivsOnly(ProbabilistHermite(false), refHe); if (w == 1) derivsOnly(ProbabilistHermite(true), [](unsigned n, double x) { return refHe(n, x) / normHe(n); });
  if (w == 2) derivsOnly(PhysicistHermite(), refH); if (w == 3) derivsOnly(PhysicistHermite(true), [](unsigned n, double x) { return refH(n, x) / normH(n); }); }
static double refPsi(unsigned n, double x) { if (n == 0) return 1.0; if (n == 1) return x; n -= 2; return refH(n, x) * std::exp(-0.5 * x * x) / (std::pow(M_PI, 0.25) * std::sqrt(std::ldexp(1.0, n) * fact(n))); }
HARNESS(hermite_function) { family(HermiteFunction(), refPsi, 0, N + 2); }
