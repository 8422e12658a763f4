// P08: bracketing and ITP root finding with an adversarial increasing function
#include "harness.h"
#include "MParT/Utilities/RootFinding.h"
using namespace mpart;
typedef Kokkos::HostSpace HS;
// a strictly increasing function revealed one query at a time: every answer is a fresh symbol constrained only by monotonicity
struct Adversary { double *xs, *ys; int* n; int max; 
  double operator()(double x) const {
    for (int i = 0; i < *n; ++i) if (x == xs[i]) return ys[i];
    if (*n >= max) sym_stop();
    double y = symd("y", *n);
    for (int i = 0; i < *n; ++i) { if (x < xs[i]) sym_assume(y < ys[i]); else sym_assume(y > ys[i]); }
    xs[*n] = x; ys[*n] = y; ++*n; return y; } };
HARNESS(find_bracket) {
  const int N = TIER ? 9 : 6; double xs[16], ys[16]; int n = 0; Adversary f{xs, ys, &n, N};
  double x0 = sym_double("x0"), yd = sym_double("yd"); double xlb = x0, xub = x0, ylb = 0, yub = 0; int info = 5;
  RootFinding::FindBracket<HS>(f, xlb, ylb, xub, yub, yd, info);
  sym_assert(info == 0 || info == -1 || info == -2, "documented status");
  if (info == 0) { sym_assert(xlb < xub || (xlb == xub && ylb == yd), "ordered bracket"); sym_assert(ylb <= yd && yd <= yub, "bracket straddles the target");
    sym_assert_eq(ylb, f(xlb), "lower value belongs to the lower end"); sym_assert_eq(yub, f(xub), "upper value belongs to the upper end"); sym_reach("bracketed"); }
  else { double w = xub - xlb; sym_assert(info == -1 && w > 10 && yub - ylb < 1e-12 * w, "gives up only on a flat stretch"); sym_reach("flat"); } }
// bracket ends already separate (the general precondition: two points)
HARNESS(find_bracket_two_points) {
  const int N = TIER ? 7 : 5; double xs[16], ys[16]; int n = 0; Adversary f{xs, ys, &n, N};
  double xlb = sym_double("xlb"), xub = sym_double("xub"), yd = sym_double("yd"), ylb = 0, yub = 0; sym_assume(xlb < xub); int info = 5;
  RootFinding::FindBracket<HS>(f, xlb, ylb, xub, yub, yd, info);
  if (info == 0) { sym_assert(ylb <= yd && yd <= yub, "bracket straddles the target"); sym_assert_eq(ylb, f(xlb), "lower value belongs to the lower end"); sym_assert_eq(yub, f(xub), "upper value belongs to the upper end"); sym_reach("bracketed"); } }
// a target out of reach within the doubling limit is reported
HARNESS(bracket_exhausted) { double s = sym_double("slope"), yd = sym_double("yd"); sym_assume(s > 1e-11 && s < 1); int up = sym_choice("side", 2); sym_assume(up ? yd > 1e42 : yd < -1e42);
  double xlb = 0, xub = 0, ylb = 0, yub = 0; int info = 5; RootFinding::FindBracket<HS>([s](double x) { return s * x; }, xlb, ylb, xub, yub, yd, info); sym_assert(info == -2, "exhausted bracketing is reported");
  info = 5; double r = RootFinding::InverseSingleBracket<HS>(yd, [s](double x) { return s * x; }, 0.0, 1e-6, 1e-6, info); sym_assert(info < 0, "failed inversion reported"); sym_assert(std::isnan(r), "failed inversion is nan"); sym_reach("exhausted"); }
// the next iterate of a bracketed search stays inside the bracket
HARNESS(itp_step) { double xlb = sym_double("xlb"), w = sym_double("w"), t = sym_double("t"), ylb = sym_double("ylb"), dy = sym_double("dy"); sym_assume(w > 0 && dy > 0 && t >= 0 && t <= 1);
  double yd = ylb + t * dy; double slack = sym_double("slack"); sym_assume(slack >= 0.5 * w); // the minmax radius never excludes the bisection point
  double x = RootFinding::Find_x_ITP(xlb, xlb + w, yd, ylb, ylb + dy, 0.1, 2.0, 0.0, 0.0, 0, slack);
  sym_assert(x >= xlb && x <= xlb + w, "iterate stays in the bracket");
  // either half that may become the next bracket fits the halved radius, so the search ends within its bisection count
  sym_assert(x - xlb <= slack && xlb + w - x <= slack, "next bracket fits the next radius"); sym_reach("itp"); }
// whole inversions, up to a bounded number of queries
static void inverse(double yd, double x0, double xtol, double ftol, int N) {
  double xs[32], ys[32]; int n = 0; Adversary f{xs, ys, &n, N}; int info = 5;
  double r = RootFinding::InverseSingleBracket<HS>(yd, f, x0, xtol, ftol, info);
  if (info != 0) { sym_assert(info == -1 || info == -2, "documented status"); sym_reach("reported failure"); return; }
  int conv = 0, in = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int st = (ys[i] <= yd) & (yd <= ys[j]) & (xs[i] <= r) & (r <= xs[j]); in |= st; conv |= st & ((xs[j] - xs[i] <= xtol) | (ys[j] - ys[i] <= ftol)); }
  for (int i = 0; i < n; ++i) conv |= (xs[i] == r) & (ys[i] - yd <= ftol) & (yd - ys[i] <= ftol);
  sym_assert(in, "returned point lies between points that straddle the target"); sym_assert(conv, "a reported success is converged"); sym_reach("converged"); }
HARNESS(inverse_coarse) { inverse(3.0, 0.0, TIER ? 0.3 : 0.6, 0.5, TIER ? 5 : 4); }
HARNESS(inverse_start) { inverse(-2.0, 1.5, 0.6, 0.01, TIER ? 5 : 4); }
// every query of the bracketed phase lies in the current bracket
struct Inside { Adversary a; double yd; double operator()(double x) const { bool hl = false, hh = false; double lo = 0, hi = 0; for (int i = 0; i < *a.n; ++i) { if (a.ys[i] <= yd) { if (!hl || a.xs[i] > lo) lo = a.xs[i]; hl = true; } else { if (!hh || a.xs[i] < hi) hi = a.xs[i]; hh = true; } }
    if (hl && hh) { sym_assert(lo <= x && x <= hi, "query stays inside the bracket"); sym_reach("bracketed query"); } return a(x); } };
HARNESS(queries_inside) { double xs[32], ys[32]; int n = 0; double yd = sym_double("yd"); Inside f{{xs, ys, &n, TIER ? 4 : 3}, yd}; int info = 5; RootFinding::InverseSingleBracket<HS>(yd, f, 0.0, 1e-3, 1e-3, info); sym_reach("end"); }
// a jump across the target cannot be resolved: the iteration limit must be reported
HARNESS(iteration_limit) { int k = sym_choice("target", 3); double yd = k == 0 ? 0.0 : k == 1 ? 0.75 : -0.25, c = 0.3; int calls = 0; int info = 5;
  auto f = [&](double x) { ++calls; return x < c ? x - 2 : x + 2; };
  double r = RootFinding::InverseSingleBracket<HS>(yd, f, 0.0, 1e-300, 1e-300, info);
  sym_assert(info != 0 || std::fabs(f(r) - yd) < 1e-300, "success means converged"); if (info) sym_reach("limit"); }
