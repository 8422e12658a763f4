// P10: quadrature rules
#include "harness.h"
#include "MParT/Quadrature.h"
#include <Kokkos_Core.hpp>
using namespace mpart;
typedef Kokkos::HostSpace HS;
template <class F> static void eqs(F const& q, double a, double b, const double* c0, const double* c1, unsigned deg, unsigned fdim, const char* msg) {
  double* r = new double[fdim]; sym_uninit(r, 8 * fdim);
  auto f = [&](double x, double* v) { for (unsigned j = 0; j < fdim; ++j) { double s = 0, p = 1; for (unsigned k = 0; k <= deg; ++k) { s += (j ? c1[k] : c0[k]) * p; p *= x; } v[j] = s; } };
  q.Integrate(f, a, b, r);
  for (unsigned j = 0; j < fdim; ++j) { double s = 0, pa = a, pb = b; for (unsigned k = 0; k <= deg; ++k) { s += (j ? c1[k] : c0[k]) * (pb - pa) / (k + 1); pa *= a; pb *= b; } sym_assert_eq(r[j], s, msg); }
  delete[] r; sym_reach(msg); }
static void interval(double& a, double& b) { a = sym_double("a"); int k = sym_choice("interval", 3); if (k == 0) { b = sym_double("b"); sym_assume(b - a > 1e-12); } else if (k == 1) { b = sym_double("b"); sym_assume(a - b > 1e-12); } else b = a; }
static void coeffs(double* c, const char* n, unsigned deg) { for (unsigned k = 0; k <= deg; ++k) c[k] = symd(n, k); }
// an n point Clenshaw-Curtis rule is exact to degree n-1 (n for odd n)
HARNESS(clenshaw_curtis) { unsigned n = 1 + sym_choice("points", TIER ? 13 : 9); unsigned deg = n % 2 ? n : n - 1; double a, b, c0[20], c1[20]; interval(a, b); coeffs(c0, "c", deg); coeffs(c1, "d", deg); unsigned fdim = 1 + sym_choice("outputs", 2);
  int how = sym_choice("workspace", 3);
  if (how == 0) { ClenshawCurtisQuadrature<HS> q(n, fdim); eqs(q, a, b, c0, c1, deg, fdim, "exact to the nominal degree"); }
  else if (how == 1) { double* w = new double[fdim]; ClenshawCurtisQuadrature<HS> q(n, fdim, w); eqs(q, a, b, c0, c1, deg, fdim, "exact with external workspace"); delete[] w; }
  else { Kokkos::View<double*, HS> p("p", n), wt("w", n); double* w = new double[fdim]; ClenshawCurtisQuadrature<HS> q(p, wt, 3, w); q.SetDim(fdim); eqs(q, a, b, c0, c1, deg, fdim, "exact with external rule storage"); delete[] w; } }
// rule itself: positive weights summing to two, ordered points in [-1,1], symmetric
HARNESS(rule_shape) { unsigned n = 2 + sym_choice("points", TIER ? 63 : 31); double* w = new double[n]; double* p = new double[n]; ClenshawCurtisQuadrature<HS>::GetRule(n, w, p); double s = 0;
  for (unsigned i = 0; i < n; ++i) { s += w[i]; sym_assert(w[i] > 0, "positive weight"); if (i) sym_assert(p[i] > p[i - 1], "ordered points"); sym_assert_close(p[i], -p[n - 1 - i], 1e-14, "symmetric points"); sym_assert_close(w[i], w[n - 1 - i], 1e-14, "symmetric weights"); }
  sym_assert_close(s, 2.0, 1e-13, "weights sum to two"); sym_assert(p[0] == -1 && p[n - 1] == 1, "end points"); auto r = ClenshawCurtisQuadrature<HS>::GetRule(n); for (unsigned i = 0; i < n; ++i) { sym_assert(r.first(i) == w[i], "weights returned first"); sym_assert(r.second(i) == p[i], "points returned second"); } delete[] w; delete[] p; sym_reach("rule"); }
// opaque integrand: linear in the integrand, and the value is the weighted sum over the mapped points
HARNESS(cc_linear) { unsigned n = 2 + sym_choice("points", 4); ClenshawCurtisQuadrature<HS> q(n, 1); double a, b; a = sym_double("a"); b = sym_double("b"); sym_assume(b - a > 1e-12); double al = sym_double("alpha"); double r1, r2, r3;
  q.Integrate([](double x, double* v) { v[0] = uf1(100, x); }, a, b, &r1); q.Integrate([](double x, double* v) { v[0] = uf1(102, x); }, a, b, &r2); q.Integrate([al](double x, double* v) { v[0] = uf1(100, x) + al * uf1(102, x); }, a, b, &r3);
  sym_assert_eq(r3, r1 + al * r2, "linear in the integrand"); sym_reach("linear"); }
// adaptive rules on polynomials: exact whatever partition is chosen
HARNESS(simpson_exact) { double a = sym_double("a"), b = sym_double("b"), c0[4], c1[4]; coeffs(c0, "c", 3); coeffs(c1, "d", 3); unsigned fdim = 1 + sym_choice("outputs", 2), m = 1 + sym_choice("sub", 3); unsigned mn = sym_choice("min", 3); if (mn >= m) return;
  AdaptiveSimpson<HS> q(m, fdim, 1e-8, 1e-8, (QuadError::Type)sym_choice("metric", 2), mn); eqs(q, a, b, c0, c1, 3, fdim, "Simpson exact for cubics"); }
HARNESS(acc_exact) { double a = sym_double("a"), b = sym_double("b"), c0[8], c1[8]; unsigned lev = 1 + sym_choice("level", 2), deg = lev == 1 ? 5 : 9; if (!TIER && deg > 7) deg = 7; double cc0[12], cc1[12]; (void)c0; (void)c1; coeffs(cc0, "c", deg); coeffs(cc1, "d", deg); unsigned fdim = 1 + sym_choice("outputs", 2), m = 1 + sym_choice("sub", 2);
  AdaptiveClenshawCurtis<HS> q(lev, m, fdim, 1e-8, 1e-8, QuadError::First, m - 1); eqs(q, a, b, cc0, cc1, deg, fdim, "fine rule exact for polynomials"); }
// adaptive rules on an adversarial integrand: equal to a reference recursion over the same rule pair
struct Opt { unsigned fdim, maxSub, minSub; double at, rt; int metric; };
// the partition is observed from the points at which the integrand was asked for; every accepted piece must pass the error test
// (up to rounding) or be at the subdivision limit, every refined piece must be above the limit and fail the test or be too coarse
// adversarial integrand: a free value at every point (points closer than rounding are one point)
static double gx[800]; static double gv[800][2]; static int gn = 0;
static double g(unsigned j, double x) { int i = 0; for (; i < gn; ++i) if (std::fabs(gx[i] - x) < 1e-10) break; if (i == gn) { gx[i] = x; gv[i][0] = symd("f", i); gv[i][1] = symd("g", i); gn++; } return gv[i][j]; }
struct Trace { double* x; int* n; bool has(double v) const { for (int i = 0; i < *n; ++i) if (std::fabs(x[i] - v) < 1e-10) return true; return false; } };
template <class PAIR> static void pieces(PAIR const& pair, Opt const& o, Trace const& t, double childprobe, double a, double b, unsigned level, double* res, double* scale) {
  double co[2], fi[2]; pair(a, b, co, fi); double m = 0.5 * (a + b), q = a + (m - a) * childprobe; bool refined = t.has(q);
  double e = 0, r = 0;
  for (unsigned j = 0; j < o.fdim; ++j) { double d = std::fabs(fi[j] - co[j]), c = std::fabs(co[j]); if (o.metric == QuadError::First) { if (!j) { e = d; r = c; } } else if (o.metric == QuadError::NormInf) { e = std::fmax(e, d); r = std::fmax(r, c); } else if (o.metric == QuadError::Norm1) { e += d; r += c; } else { e += d * d; r += c * c; } }
  if (o.metric == QuadError::Norm2) { e = std::sqrt(e); r = std::sqrt(r); }
  double tol = std::fmax(o.rt * r, o.at), eps = 1e-9 * (1 + r + e);
  if (refined) { sym_assert(level + 1 < o.maxSub, "no piece is split beyond the limit"); if (level >= o.minSub) sym_assert(e >= tol - eps, "a piece that passes the test is not split");
    pieces(pair, o, t, childprobe, a, m, level + 1, res, scale); pieces(pair, o, t, childprobe, m, b, level + 1, res, scale); return; }
  sym_assert(level >= o.minSub, "minimum number of levels"); if (level + 1 != o.maxSub) sym_assert(e <= tol + eps, "an accepted piece passes the error test");
  for (unsigned j = 0; j < o.fdim; ++j) res[j] += fi[j]; }
template <class Q, class PAIR> static void adversarial(Q& q, PAIR const& pair, Opt const& o, double a, double b, double probe) {
  double res[2], ref[2] = {0, 0}; sym_uninit(res, 16); double xs[400]; int n = 0; auto f = [&](double x, double* v) { xs[n++] = x; for (unsigned j = 0; j < o.fdim; ++j) v[j] = g(j, x); };
  unsigned ws = q.WorkspaceSize(); double* w = new double[ws]; q.Integrate(w, f, a, b, res); delete[] w;
  pieces(pair, o, Trace{xs, &n}, probe, a, b, 0, ref, nullptr); for (unsigned j = 0; j < o.fdim; ++j) sym_assert_eq(res[j], ref[j], "sum of accepted pieces"); sym_reach("adaptive"); }
static Opt options(unsigned maxs) { Opt o; o.fdim = 1 + sym_choice("outputs", 2); o.maxSub = 1 + sym_choice("sub", maxs); o.minSub = sym_choice("min", maxs); if (o.minSub >= o.maxSub) sym_stop(); o.at = 1e-3; o.rt = 0.01; o.metric = sym_choice("metric", 4); return o; }
static void simpson(Opt o, double a, double b) { AdaptiveSimpson<HS> q(o.maxSub, o.fdim, nullptr, o.at, o.rt, (QuadError::Type)o.metric, o.minSub);
  sym_assert(q.WorkspaceSize() == AdaptiveSimpson<HS>::GetWorkspaceSize(o.maxSub, o.fdim), "workspace size");
  adversarial(q, [&](double l, double r, double* co, double* fi) { double m = (l + r) / 2, h = r - l; for (unsigned j = 0; j < o.fdim; ++j) { double A = g(j, l), B = g(j, (l + m) / 2), C = g(j, m), D = g(j, (m + r) / 2), E = g(j, r); co[j] = h / 6 * (A + 4 * C + E); fi[j] = h / 12 * (A + 4 * B + 2 * C + 4 * D + E); } }, o, a, b, 0.25); }
HARNESS(simpson_adaptive) { simpson(options(TIER ? 3 : 2), 0.0, 1.0); }
HARNESS(simpson_deep) { Opt o = options(1); o.fdim = 1; o.maxSub = TIER ? 4 : 3; o.minSub = sym_choice("min2", o.maxSub); o.metric = QuadError::First; simpson(o, -1.0, 1.0); }
HARNESS(simpson_interval) { double a = sym_double("a"), b = sym_double("b"), c0[6]; coeffs(c0, "c", 5); unsigned m = 1 + sym_choice("sub", 3); AdaptiveSimpson<HS> q(m, 1, 1e-8, 1e-8, QuadError::First, m - 1); double r; auto f = [&](double x, double* v) { v[0] = c0[0] + x * (c0[1] + x * (c0[2] + x * (c0[3] + x * (c0[4] + x * c0[5])))); };
  sym_assume(b - a > 1e-6 || a - b > 1e-6); q.Integrate(f, a, b, &r); unsigned n = 1u << m; double h = (b - a) / n, s = 0; for (unsigned i = 0; i < n; ++i) { double v0, v1, v2; f(a + i * h, &v0); f(a + (i + 0.5) * h, &v1); f(a + (i + 1) * h, &v2); s += h / 6 * (v0 + 4 * v1 + v2); } sym_assert_eq(r, s, "composite rule over the uniform partition"); sym_reach("interval"); }
static void acc(Opt o, unsigned lev, double a, double b, int how) {
  unsigned nc = (1u << lev) + 1, nf = (2u << lev) + 1; static double wc[20], pc[20], wf[20], pf[20]; ClenshawCurtisQuadrature<HS>::GetRule(nc, wc, pc); ClenshawCurtisQuadrature<HS>::GetRule(nf, wf, pf);
  auto pair = [&](double l, double r, double* co, double* fi) { double m = (l + r) / 2, h = (r - l) / 2; for (unsigned j = 0; j < o.fdim; ++j) { co[j] = fi[j] = 0;
      for (unsigned i = 0; i < nf; ++i) { double x = i == 0 ? l : i == nf - 1 ? r : i == nf / 2 ? m : i % 2 ? m + h * pf[i] : m + h * pc[i / 2]; double v = g(j, x); fi[j] += h * wf[i] * v; if (i % 2 == 0) co[j] += h * wc[i / 2] * v; } } };
  if (how == 0) { AdaptiveClenshawCurtis<HS> q(lev, o.maxSub, o.fdim, nullptr, o.at, o.rt, (QuadError::Type)o.metric, o.minSub); sym_assert(q.WorkspaceSize() == AdaptiveClenshawCurtis<HS>::GetWorkspaceSize(o.maxSub, o.fdim), "workspace size"); adversarial(q, pair, o, a, b, 0.5); }
  else { Kokkos::View<double*, HS> vpc("pc", nc), vwc("wc", nc), vpf("pf", nf), vwf("wf", nf); AdaptiveClenshawCurtis<HS> q(vpc, vwc, vpf, vwf, o.maxSub, o.fdim, nullptr, o.at, o.rt, (QuadError::Type)o.metric, o.minSub); adversarial(q, pair, o, a, b, 0.5); } }
HARNESS(acc_adaptive) { acc(options(TIER ? 3 : 2), 1, 0.0, 1.0, 0); }
HARNESS(acc_level2) { Opt o = options(2); o.fdim = 1; acc(o, 2, -1.0, 2.0, 0); }
HARNESS(acc_interval) { double a = sym_double("a"), b = sym_double("b"); unsigned m = 1 + sym_choice("sub", 3); AdaptiveClenshawCurtis<HS> q(1, m, 1, 1e-8, 1e-8, QuadError::First, m - 1); double r, c6 = sym_double("c6"); auto f = [&](double x, double* v) { v[0] = c6 * x * x * x * x * x * x; };
  sym_assume(b - a > 1e-6 || a - b > 1e-6); q.Integrate(f, a, b, &r); unsigned n = 1u << (m - 1); double h = (b - a) / n, s = 0; double w[5], p[5]; ClenshawCurtisQuadrature<HS>::GetRule(5, w, p); for (unsigned i = 0; i < n; ++i) for (unsigned k = 0; k < 5; ++k) { double v; f(a + (i + 0.5 + 0.5 * p[k]) * h, &v); s += h / 2 * w[k] * v; } sym_assert_eq(r, s, "composite rule over the uniform partition"); sym_reach("interval"); }
HARNESS(acc_views) { Opt o = options(1); acc(o, 1 + sym_choice("level", 3), 0.0, 1.0, 1); }
// internally managed workspace with a smaller dimension selected afterwards
HARNESS(set_dim) { int k = sym_choice("rule", 3); double c0[4], c1[4]; coeffs(c0, "c", 3); coeffs(c1, "d", 3); double a = sym_double("a"), b = sym_double("b"); sym_assume(b - a > 1e-6); unsigned fd = 1 + sym_choice("dim", 2);
  if (k == 0) { AdaptiveSimpson<HS> q(2, 2, 1e-3, 1e-3, QuadError::First, 1); q.SetDim(fd); eqs(q, a, b, c0, c1, 3, fd, "after SetDim"); } else if (k == 1) { AdaptiveClenshawCurtis<HS> q(1, 2, 2, 1e-3, 1e-3, QuadError::First, 1); q.SetDim(fd); eqs(q, a, b, c0, c1, 3, fd, "after SetDim"); } else { ClenshawCurtisQuadrature<HS> q(5, 2); q.SetDim(fd); eqs(q, a, b, c0, c1, 3, fd, "after SetDim"); } }
// an integrand that is not a number somewhere: refining until the limit cannot help (the work would double with every level)
HARNESS(not_a_number) { int rule = sym_choice("rule", 2), metric = sym_choice("metric", 4), where = sym_choice("where", 4); unsigned n = 0, m = 2 + sym_choice("sub", 8), mn = sym_choice("min", 2), fd = 1 + sym_choice("outputs", 2); double c = sym_double("c"), r[2]; double bad[] = {0.0, 0.25, 0.5, 1.0}; bool all = sym_choice("everywhere", 2); if (all && where) return;
  auto f = [&](double x, double* v) { ++n; v[0] = all || x == bad[where] ? NAN : c; if (fd == 2) v[1] = c; }; double* w = new double[1000]; if (rule) { AdaptiveClenshawCurtis<HS> q(1, m, fd, nullptr, 1e-8, 1e-8, (QuadError::Type)metric, mn); q.Integrate(w, f, 0.0, 1.0, r); } else { AdaptiveSimpson<HS> q(m, fd, nullptr, 1e-8, 1e-8, (QuadError::Type)metric, mn); q.Integrate(w, f, 0.0, 1.0, r); } delete[] w;
  bool seen = all || where != 1 || !rule || mn; if (seen) sym_assert(std::isnan(r[0]), "the result is not a number"); if (fd == 2) sym_assert_eq(r[1], c, "other outputs are integrated"); sym_assert(n <= 8u << mn, "no further refinement"); sym_reach("nan"); }
