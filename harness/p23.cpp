// P23: the Kullback-Leibler objective, its gradient, its datasets.
#include "omap.h"
#include "MParT/MapObjective.h"
#include "MParT/TriangularMap.h"
using namespace mpart;
static double olog(V1 const& y, int d = -1) { std::vector<int> der(y.size(), 0); if (d >= 0) der[d] = 1; return sym_uf(900, y.size(), y.data(), der.data()); }
// an arbitrary smooth log density
struct ODens : DensityBase<HS> { ODens(unsigned d) : DensityBase<HS>(d) {}
  void LogDensityImpl(CSMat const& p, SVec o) override { sym_assert(p.extent(0) == Dim() && o.extent(0) == p.extent(1), "shapes handed to the density"); for (unsigned k = 0; k < p.extent(1); ++k) o(k) = olog(col(p, k, Dim())); }
  void LogDensityInputGradImpl(CSMat const& p, SMat o) override { sym_assert(p.extent(0) == Dim() && o.extent(0) == Dim() && o.extent(1) == p.extent(1), "shapes handed to the density"); for (unsigned k = 0; k < p.extent(1); ++k) { V1 y = col(p, k, Dim()); for (unsigned i = 0; i < Dim(); ++i) o(i, k) = olog(y, i); } } };
struct Case { MapPtr m; unsigned in, out, nc; int kind; std::shared_ptr<OMap> a, b; };
// one arbitrary map, or a triangular map of two
static Case mkmap() { Case c; static const unsigned S[6][3] = {{1, 1, 1}, {1, 1, 2}, {2, 1, 1}, {2, 2, 1}, {2, 2, 3}, {3, 2, 2}}; int k = sym_choice("map", TIER ? 8 : 6); if (k < (TIER ? 6 : 5)) { c.kind = 0; c.in = S[k][0]; c.out = S[k][1]; c.nc = S[k][2]; c.m = c.a = std::make_shared<OMap>(0, c.in, c.out, c.nc); return c; } bool w = k == 7; c.kind = 1; c.in = w ? 3 : 2; c.out = 2; c.nc = w ? 3 : 2; c.a = std::make_shared<OMap>(0, w ? 2 : 1, 1, 1); c.b = std::make_shared<OMap>(1, w ? 3 : 2, 1, w ? 2 : 1); c.m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{c.a, c.b}); return c; }
static double ll(Case const& c, V1 const& t, V1 const& x) { if (c.kind == 0) { V1 y; for (unsigned i = 0; i < c.out; ++i) y.push_back(oval(0, i, t, x)); return olog(y) + odet(0, t, x); } V1 ta{t[0]}, tb(t.begin() + 1, t.end()), xa(x.begin(), x.end() - 1); return olog({oval(0, 0, ta, xa), oval(1, 0, tb, x)}) + odet(0, ta, xa) + odet(1, tb, x); }
static double kl(Case const& c, V1 const& t, CSMat const& d) { double s = 0; for (unsigned k = 0; k < d.extent(1); ++k) s -= ll(c, t, col(d, k, c.in)); return s / d.extent(1); }
static V1 coefs(unsigned n, const char* s = "c") { V1 t(n); for (unsigned i = 0; i < n; ++i) t[i] = symd(s, i); return t; }
static void set(MapPtr m, V1 const& t) { Vec v("v", t.size()); for (unsigned i = 0; i < t.size(); ++i) v(i) = t[i]; m->SetCoeffs(Kokkos::View<const double*, HS>(v)); }
static void holds(MapPtr m, V1 const& t) { auto c = m->Coeffs(); for (unsigned i = 0; i < t.size(); ++i) sym_assert_eq(c(i), t[i], "coefficients of the map"); }
static unsigned npts() { return 1 + sym_choice("points", TIER ? 4 : 3); }
HARNESS(value) { Case c = mkmap(); unsigned N = npts(); SMat x = symMat("x", c.in, N, sym_choice("layout", 3)); KLObjective<HS> o(x, std::make_shared<ODens>(c.out)); V1 t = coefs(c.nc); set(c.m, t); sym_assert(o.InputDim() == c.in && o.NumSamples() == N && o.MapOutputDim() == c.out, "dimensions of the objective"); sym_assert_eq(o.TrainError(c.m), kl(c, t, x), "training error"); holds(c.m, t); if (sym_choice("direct", 2)) { V1 u = coefs(c.nc, "u"), w(u); sym_assert_eq(o(c.nc, w.data(), nullptr, c.m), kl(c, u, x), "objective without a gradient"); holds(c.m, u); } sym_assert(throws([&] { o.TestError(c.m); }), "a test error needs test data"); sym_reach("value"); }
HARNESS(grad) { Case c = mkmap(); unsigned N = npts(); SMat x = symMat("x", c.in, N, sym_choice("layout", 3)); KLObjective<HS> o(x, std::make_shared<ODens>(c.out)); V1 t = coefs(c.nc); set(c.m, t); double f = kl(c, t, x); int how = sym_choice("how", 4); SVec g; if (how == 0) g = o.TrainCoeffGrad(c.m); else { SMat b = uninitMat("g", c.nc, 1, how == 3 ? 2 : how - 1); g = Kokkos::subview(b, Kokkos::ALL(), 0); o.TrainCoeffGradImpl(c.m, g); } sym_assert(g.extent(0) == c.nc, "length of the gradient"); for (unsigned i = 0; i < c.nc; ++i) sym_assert_eq(g(i), diffc(f, i), "gradient of the objective"); holds(c.m, t); sym_reach("grad"); }
HARNESS(both) { Case c = mkmap(); unsigned N = npts(); SMat x = symMat("x", c.in, N, sym_choice("layout", 2)); KLObjective<HS> o(x, std::make_shared<ODens>(c.out)); if (sym_choice("before", 2)) set(c.m, coefs(c.nc, "old")); V1 t = coefs(c.nc); double f = kl(c, t, x); int how = sym_choice("how", 3); std::vector<double> g(c.nc + 1); g[c.nc] = 3.5; sym_uninit(g.data(), 8 * c.nc); V1 in(t); double v;
  if (how == 0) v = o(c.nc, in.data(), g.data(), c.m); else { set(c.m, t); SMat b = uninitMat("g", c.nc, 1, how == 1 ? 0 : 2); SVec gv = Kokkos::subview(b, Kokkos::ALL(), 0); v = o.ObjectivePlusCoeffGradImpl(x, gv, c.m); for (unsigned i = 0; i < c.nc; ++i) g[i] = gv(i); }
  sym_assert_eq(v, f, "objective of the combined routine"); for (unsigned i = 0; i < c.nc; ++i) { sym_assert_eq(g[i], diffc(f, i), "gradient of the combined routine"); sym_assert_eq(in[i], t[i], "the caller's coefficients are not changed"); } sym_assert_eq(g[c.nc], 3.5, "only the gradient is written"); for (unsigned i = 0; i < c.nc; ++i) in[i] = symd("later", i); holds(c.m, t); sym_assert_eq(o.TrainError(c.m), f, "training error afterwards"); sym_reach("both"); }
// separate datasets, several coefficient vectors through one objective
HARNESS(datasets) { Case c = mkmap(); unsigned N = npts(), M = 1 + sym_choice("tests", 2); SMat x = symMat("x", c.in, N), z = symMat("z", c.in, M, sym_choice("layout", 3)); KLObjective<HS> o(x, z, std::make_shared<ODens>(c.out)); V1 t = coefs(c.nc), u = coefs(c.nc, "u"); set(c.m, t); int ops = sym_choice("order", 3); V1 g(c.nc), w(t);
  if (ops == 1) { w = u; o(c.nc, w.data(), g.data(), c.m); } if (ops == 2) { sym_assert_eq(o.TestError(c.m), kl(c, t, z), "test error"); w = u; set(c.m, w); }
  sym_assert_eq(o.TestError(c.m), kl(c, w, z), "test error"); sym_assert_eq(o.TrainError(c.m), kl(c, w, x), "training error"); sym_assert_eq(o.TestError(c.m), kl(c, w, z), "test error again"); auto gr = o.TrainCoeffGrad(c.m); if (ops == 0) for (unsigned i = 0; i < c.nc; ++i) sym_assert_eq(gr(i), diffc(kl(c, w, x), i), "the gradient is that of the training error"); auto a = o.GetTrain(), b = o.GetTest(); sym_assert(a.extent(1) == N && b.extent(1) == M, "sizes of the datasets"); for (unsigned i = 0; i < c.in; ++i) { for (unsigned k = 0; k < N; ++k) sym_assert_eq(a(i, k), x(i, k), "training data"); for (unsigned k = 0; k < M; ++k) sym_assert_eq(b(i, k), z(i, k), "test data"); } sym_reach("datasets"); }
// the factory's standard normal reference
HARNESS(gaussian) { Case c = mkmap(); unsigned N = 1 + sym_choice("points", 2), M = sym_choice("tests", 3); SMat x = symMat("x", c.in, N), z; unsigned dim = c.out; if (c.in == c.out && sym_choice("default", 2)) dim = 0; std::shared_ptr<MapObjective<HS>> o; if (M) { z = symMat("z", c.in, M); o = ObjectiveFactory::CreateGaussianKLObjective<HS>(CSMat(x), CSMat(z), dim); } else o = ObjectiveFactory::CreateGaussianKLObjective<HS>(CSMat(x), dim); V1 t = coefs(c.nc); set(c.m, t); sym_assert(o->MapOutputDim() == c.out && o->InputDim() == c.in && o->NumSamples() == N, "dimensions of the objective");
  for (int s = 0; s < (M ? 2 : 1); ++s) { CSMat d = s ? CSMat(z) : CSMat(x); auto y = c.m->Evaluate(d); auto l = c.m->LogDeterminant(d); double f = 0; for (unsigned k = 0; k < d.extent(1); ++k) { for (unsigned i = 0; i < c.out; ++i) f += 0.5 * y(i, k) * y(i, k) + 0.5 * std::log(2 * M_PI); f -= l(k); } sym_assert_close(s ? o->TestError(c.m) : o->TrainError(c.m), f / d.extent(1), 1e-12, s ? "test error" : "training error"); }
  if (!M) sym_assert(throws([&] { o->TestError(c.m); }), "a test error needs test data"); sym_reach("gaussian"); }
// user-defined objectives go through the same wrapper
struct OObj : MapObjective<HS> { OObj(CSMat a, CSMat b) : MapObjective<HS>(a, b) {} static double f(CSMat const& d, MapPtr m, int der = -1) { V1 v = col(d, 0, d.extent(0)); for (unsigned i = 0; i < m->numCoeffs; ++i) v.push_back(m->Coeffs()(i)); std::vector<int> e(v.size(), 0); if (der >= 0) e[d.extent(0) + der] = 1; return sym_uf(901, v.size(), v.data(), e.data()); }
  double ObjectiveImpl(CSMat d, MapPtr m) const override { return f(d, m); } void CoeffGradImpl(CSMat d, SVec g, MapPtr m) const override { for (unsigned i = 0; i < m->numCoeffs; ++i) g(i) = f(d, m, i); } };
HARNESS(custom) { auto m = std::make_shared<OMap>(0, 2, 1, 2); SMat x = symMat("x", 2, 1), z = symMat("z", 2, 1); OObj o(x, z); V1 t = coefs(2), g(2); bool nograd = sym_choice("nograd", 2); double v = o(2, t.data(), nograd ? nullptr : g.data(), m); holds(m, t); sym_assert_eq(v, OObj::f(x, m), "objective"); if (!nograd) for (int i = 0; i < 2; ++i) sym_assert_eq(g[i], OObj::f(x, m, i), "gradient"); sym_assert_eq(o.TestError(m), OObj::f(z, m), "test error"); sym_assert_eq(o.TrainError(m), v, "training error"); sym_assert(o.MapOutputDim() == 2, "default output dimension"); sym_reach("custom"); }
