// P02: linearised bases
#include "opaque.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include <limits>
using namespace mpart;
static const double INF = std::numeric_limits<double>::infinity();
// bounds: finite symbolic or infinite, in every combination
static void bounds(double& lb, double& ub) { int w = sym_choice("bounds", 4); lb = (w & 1) ? sym_double("lb") : -INF; ub = (w & 2) ? sym_double("ub") : INF; if (w == 3) sym_assume(lb < ub); }
template <class B, class R> static void linearised(B const& base, R val, unsigned maxo) {
  double lb, ub; bounds(lb, ub); LinearizedBasis<B> b(base, lb, ub);
  double x = sym_double("x"); unsigned n = sym_choice("order", maxo + 1); int reg = x < lb ? -1 : x > ub ? 1 : 0;
  double *a = new double[n + 1], *d = new double[n + 1], *dd = new double[n + 1], *a0 = new double[n + 1], *d0 = new double[n + 1], *a1 = new double[n + 1];
  b.EvaluateAll(a1, n, x); b.EvaluateDerivatives(a0, d0, n, x); b.EvaluateSecondDerivatives(a, d, dd, n, x);
  for (unsigned k = 0; k <= n; ++k) {
    double e = reg ? (reg < 0 ? lb : ub) : x; double v0 = val(k, e, 0), v1 = val(k, e, 1), v2 = val(k, e, 2);
    double v = reg ? v0 + v1 * (x - e) : v0, dv = v1, ddv = reg ? 0.0 : v2;
    sym_assert_eq(b.Evaluate(k, x), v, "value is the basis inside and its tangent line outside");
    sym_assert_eq(b.Derivative(k, x), dv, "derivative"); sym_assert_eq(b.SecondDerivative(k, x), ddv, "second derivative");
    sym_assert_eq(a1[k], v, "EvaluateAll"); sym_assert_eq(a0[k], v, "EvaluateDerivatives value"); sym_assert_eq(d0[k], dv, "EvaluateDerivatives derivative");
    sym_assert_eq(a[k], v, "EvaluateSecondDerivatives value"); sym_assert_eq(d[k], dv, "EvaluateSecondDerivatives derivative"); sym_assert_eq(dd[k], ddv, "EvaluateSecondDerivatives second derivative"); }
  double vn = b.Evaluate(n, x), dn = b.Derivative(n, x); sym_assert_eq(dn, sym_diff(vn, "x"), "derivative is the derivative of the value");
  delete[] a; delete[] d; delete[] dd; delete[] a0; delete[] d0; delete[] a1; sym_reach(reg < 0 ? "below" : reg > 0 ? "above" : "inside");
}
HARNESS(opaque_basis) { linearised(OpaqueBasis(), [](unsigned k, double x, int d) { return uf1(100 + 2 * k, x, d); }, 2); }
// at a bound the two pieces meet: value and derivative there are those of the basis
HARNESS(at_bounds) { double lb = sym_double("lb"), ub = sym_double("ub"); sym_assume(lb < ub); LinearizedBasis<OpaqueBasis> b(OpaqueBasis(), lb, ub); double p[3], q[3], r[3];
  for (int s = 0; s < 2; ++s) { double x = s ? ub : lb; b.EvaluateSecondDerivatives(p, q, r, 2, x); for (unsigned k = 0; k < 3; ++k) { sym_assert_eq(b.Evaluate(k, x), uf1(100 + 2 * k, x, 0), "value at the bound"); sym_assert_eq(b.Derivative(k, x), uf1(100 + 2 * k, x, 1), "derivative at the bound"); sym_assert_eq(p[k], uf1(100 + 2 * k, x, 0), "vector value at the bound"); sym_assert_eq(q[k], uf1(100 + 2 * k, x, 1), "vector derivative at the bound"); } } sym_reach("bounds"); }
// the default bounds are -3 and 3
HARNESS(defaults) { LinearizedBasis<OpaqueBasis> b, c{OpaqueBasis()}; double x = sym_double("x"); double e = x < -3 ? -3 : x > 3 ? 3 : x; double v = uf1(102, e, 0) + (e != x ? uf1(102, e, 1) * (x - e) : 0.0); sym_assert_eq(b.Evaluate(1, x), v, "default bounds"); sym_assert_eq(c.Evaluate(1, x), v, "default bounds"); sym_reach("defaults"); }
// the combinations the factory uses: the real bases wrapped; scalar and vector routines describe one function
template <class B> static void real(B const& p, unsigned maxo) { linearised(p, [&](unsigned k, double x, int d) {
    std::vector<double> v(k + 1), dv(k + 1), ddv(k + 1); p.EvaluateSecondDerivatives(v.data(), dv.data(), ddv.data(), k, x); return d == 0 ? v[k] : d == 1 ? dv[k] : ddv[k]; }, maxo); }
HARNESS(probabilist) { real(ProbabilistHermite(sym_choice("normalise", 2)), TIER ? 6 : 3); }
HARNESS(physicist) { real(PhysicistHermite(sym_choice("normalise", 2)), TIER ? 6 : 3); }
HARNESS(hermite_function) { real(HermiteFunction(), TIER ? 6 : 4); }
