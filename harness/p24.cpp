// P24: Gaussian, pullback and pushforward distributions.
#include "omap.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/Distributions/PushforwardDensity.h"
#include "MParT/Distributions/PullbackSampler.h"
#include "MParT/Distributions/PushforwardSampler.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
using namespace mpart; typedef GaussianSamplerDensity<HS> G; typedef std::shared_ptr<Distribution<HS>> DP;
static double olog(V1 const& y, int d = -1) { std::vector<int> der(y.size(), 0); if (d >= 0) der[d] = 1; return sym_uf(900, y.size(), y.data(), der.data()); }
struct ODens : DensityBase<HS> { ODens(unsigned d) : DensityBase<HS>(d) {}
  void LogDensityImpl(CSMat const& p, SVec o) override { sym_assert(p.extent(0) == Dim() && o.extent(0) == p.extent(1), "shapes handed to the density"); for (unsigned k = 0; k < p.extent(1); ++k) o(k) = olog(col(p, k, Dim())); }
  void LogDensityInputGradImpl(CSMat const& p, SMat o) override { sym_assert(p.extent(0) == Dim() && o.extent(0) == Dim() && o.extent(1) == p.extent(1), "shapes handed to the density"); for (unsigned k = 0; k < p.extent(1); ++k) { V1 y = col(p, k, Dim()); for (unsigned i = 0; i < Dim(); ++i) o(i, k) = olog(y, i); } } };
struct OSampler : SampleGenerator<HS> { OSampler(unsigned d) : SampleGenerator<HS>(d) {} unsigned seed = 0; std::vector<double> last; unsigned n = 0;
  void SetSeed(unsigned s) override { seed = s; }
  void SampleImpl(SMat o) override { last.clear(); for (unsigned j = 0; j < o.extent(1); ++j) for (unsigned i = 0; i < o.extent(0); ++i) { o(i, j) = symd("w", i, n); last.push_back(o(i, j)); if (i + 1 == o.extent(0)) ++n; } } };
static V1 coefs(unsigned n, const char* s = "c") { V1 t(n); for (unsigned i = 0; i < n; ++i) t[i] = symd(s, i); return t; }
static void set(MapPtr m, V1 const& t) { Vec v("v", t.size()); for (unsigned i = 0; i < t.size(); ++i) v(i) = t[i]; m->SetCoeffs(Kokkos::View<const double*, HS>(v)); }
typedef std::vector<std::vector<double>> MM;
// ------------------------------------------------------------ Gaussian; covariance through its factor
struct GC { unsigned d; int kind; V1 mean; MM L; std::shared_ptr<G> g; };
static SMat covMat(MM const& L, int lay) { unsigned d = L.size(); SMat C = layoutMat("cov", d, d, lay); for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) { double s = 0; for (unsigned k = 0; k <= (i < j ? i : j); ++k) s += L[i][k] * L[j][k]; C(i, j) = s; } return C; }
static GC gauss(unsigned maxd, int lays = 1) { GC c; c.d = 1 + sym_choice("dim", maxd); c.kind = sym_choice("kind", 4); bool mean = c.kind & 1, cov = c.kind & 2; SVec m; SMat C; c.mean.assign(c.d, 0.0); c.L.assign(c.d, V1(c.d, 0.0)); for (unsigned i = 0; i < c.d; ++i) c.L[i][i] = 1;
  if (mean) { SMat mm = layoutMat("mean", c.d, 1, sym_choice("meanLayout", lays > 1 ? 2 : 1) * 2); for (unsigned i = 0; i < c.d; ++i) mm(i, 0) = c.mean[i] = symd("mu", i); m = Kokkos::subview(mm, Kokkos::ALL(), 0); }
  if (cov) { for (unsigned i = 0; i < c.d; ++i) for (unsigned j = 0; j <= i; ++j) { c.L[i][j] = symd("L", i, j); if (i == j) sym_assume(c.L[i][j] > 0); } C = covMat(c.L, sym_choice("covLayout", lays)); }
  switch (c.kind) { case 0: c.g = std::make_shared<G>(c.d); break; case 1: c.g = std::make_shared<G>(m); break; case 2: c.g = std::make_shared<G>(C); break; default: c.g = std::make_shared<G>(m, C); } return c; }
// log density of the oracle: forward substitution
static double glog(GC const& c, V1 const& x) { V1 y(c.d); double q = 0, ld = 1; for (unsigned i = 0; i < c.d; ++i) { double s = x[i] - c.mean[i]; for (unsigned k = 0; k < i; ++k) s -= c.L[i][k] * y[k]; y[i] = s / c.L[i][i]; q += y[i] * y[i]; ld *= c.L[i][i] * c.L[i][i]; } return -0.5 * q - (c.kind & 2 ? 0.5 * std::log(ld) : 0.0) - 0.5 * c.d * std::log(2 * M_PI); }
HARNESS(gaussDensity) { GC c = gauss(TIER ? 3 : 2, 3); unsigned N = 1 + sym_choice("points", 2); SMat x = symMat("x", c.d, N, sym_choice("layout", 3)); Distribution<HS> dist(c.g, c.g); sym_assert(dist.Dim() == c.d, "dimension"); int how = sym_choice("how", 3); SVec o; if (how == 0) o = dist.LogDensity(x); else { SMat b = uninitMat("o", N, 1, how == 1 ? 0 : 2); o = Kokkos::subview(b, Kokkos::ALL(), 0); dist.LogDensityImpl(x, o); } sym_assert(o.extent(0) == N, "length"); for (unsigned k = 0; k < N; ++k) sym_assert_close(o(k), glog(c, col(x, k, c.d)), 1e-9, "log density"); sym_reach("gaussDensity"); }
HARNESS(gaussGrad) { GC c = gauss(TIER ? 3 : 2, 3); unsigned N = 1 + sym_choice("points", 2); SMat x = symMat("x", c.d, N, sym_choice("layout", 2)); int how = sym_choice("how", 4); SMat o; if (how == 0) o = c.g->LogDensityInputGrad<HS>(CSMat(x)); else { o = uninitMat("o", c.d, N, how - 1); c.g->LogDensityInputGradImpl(x, o); } for (unsigned k = 0; k < N; ++k) { double f = glog(c, col(x, k, c.d)); for (unsigned i = 0; i < c.d; ++i) sym_assert_eq(o(i, k), diffx(f, i, k), "gradient of the log density"); } sym_reach("gaussGrad"); }
// every entry gets one draw of its own; covariance samples apply the factor to one draw per entry of the same column
static void drawn(GC const& c, SMat const& s, unsigned seedNo, unsigned first, const char* what) { unsigned N = s.extent(1); std::vector<int> used(c.d * N, 0); for (unsigned k = 0; k < c.d * N; ++k) { std::string z = nm("z", seedNo, first + k); int cj = -1, ci = -1; MM D(c.d, V1(N)); for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i < c.d; ++i) { D[i][j] = sym_diff(s(i, j), z.c_str()); if (ci < 0 && std::fabs(D[i][j]) > 1e-4) { ci = i; cj = j; } } sym_assert(ci >= 0 && !used[ci * N + cj]++, what); if (ci < 0) continue; for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i < c.d; ++i) sym_assert_eq(D[i][j], (int)j == cj ? c.L[i][ci] : 0.0, what); } }
HARNESS(gaussSample) { vk_draws().clear(); GC c = gauss(TIER ? 3 : 2, 2); for (unsigned i = 0; i < c.d; ++i) sym_assume(c.L[i][i] > 0.01); unsigned N = 1 + sym_choice("count", 2); Distribution<HS> dist(c.g, c.g); int how = sym_choice("how", 4); dist.SetSeed(7); SMat s; if (how == 0) s = dist.Sample(N); else { s = uninitMat("s", c.d, N, how - 1); dist.SampleImpl(s); } sym_assert(s.extent(0) == c.d && s.extent(1) == N, "shape"); sym_assert(vk_draws().used == (long)(c.d * N), "one draw per entry"); drawn(c, s, 0, 0, "samples apply the factor to standard normals"); for (unsigned i = 0; i < c.d; ++i) for (unsigned j = 0; j < N; ++j) { double v = s(i, j); for (unsigned k = 0; k < c.d * N; ++k) v -= sym_diff(s(i, j), nm("z", 0, k).c_str()) * vk_draws().z[0][k]; sym_assert_close(v, c.mean[i], 1e-6, "samples are centred at the mean"); } sym_reach("gaussSample"); }
HARNESS(seeds) { vk_draws().clear(); GC c = gauss(2); unsigned N = 1 + sym_choice("count", 2); c.g->SetSeed(3); SMat a = c.g->Sample(N); long n = vk_draws().used; SMat b = c.g->Sample(N); c.g->SetSeed(3); SMat a2 = c.g->Sample(N); for (unsigned i = 0; i < c.d; ++i) for (unsigned j = 0; j < N; ++j) sym_assert_eq(a(i, j), a2(i, j), "the same seed gives the same samples"); sym_assert(vk_draws().used == 3 * n, "one draw per entry"); sym_assert(vk_draws().n[0] == 2u * n, "later samples use fresh draws"); auto e0 = vk_draws().seeds; c.g->SetSeed(4); c.g->Sample(1); sym_assert(vk_draws().seeds == e0 + 1, "another seed gives other draws"); sym_reach("seeds"); }
HARNESS(gaussErrors) { GC c = gauss(2); unsigned r = sym_choice("rows", 4); if (r == c.d) return; int k = sym_choice("what", 3); SMat x = symMat("x", r, 2), o = symMat("o", r, 2); SVec l = symVec("l", 2); sym_assert(throws([&] { if (k == 0) c.g->LogDensityImpl(x, l); if (k == 1) c.g->LogDensityInputGradImpl(x, o); if (k == 2) c.g->SampleImpl(o); }), "mismatched dimensions raise an error"); sym_reach("gaussErrors"); }
// ------------------------------------------------------------ pullback
struct PC { std::shared_ptr<OMap> m; unsigned in, out, nc, N; V1 t; SMat x; };
static PC pcase(bool square, int lays) { PC c; static const unsigned S[5][3] = {{1, 1, 1}, {2, 2, 2}, {1, 1, 0}, {2, 1, 2}, {3, 2, 1}}; int k = sym_choice("map", square ? 3 : 5); c.in = S[k][0]; c.out = S[k][1]; c.nc = S[k][2]; c.m = std::make_shared<OMap>(0, c.in, c.out, c.nc); c.N = 1 + sym_choice("points", 2); c.t = coefs(c.nc); set(c.m, c.t); c.x = symMat("x", c.in, c.N, sym_choice("layout", lays)); return c; }
static double pll(PC const& c, V1 const& x) { V1 y; for (unsigned i = 0; i < c.out; ++i) y.push_back(oval(0, i, c.t, x)); return olog(y) + odet(0, c.t, x); }
HARNESS(pullback) { PC c = pcase(false, 3); PullbackDensity<HS> p(c.m, std::make_shared<ODens>(c.out)); int how = sym_choice("how", 3); SVec o; if (how == 0) o = p.LogDensity<HS>(CSMat(c.x)); else { SMat b = uninitMat("o", c.N, 1, how == 1 ? 0 : 2); o = Kokkos::subview(b, Kokkos::ALL(), 0); p.LogDensityImpl(c.x, o); } for (unsigned k = 0; k < c.N; ++k) sym_assert_eq(o(k), pll(c, col(c.x, k, c.in)), "pullback log density"); sym_reach("pullback"); }
HARNESS(pullbackGrad) { PC c = pcase(false, 2); PullbackDensity<HS> p(c.m, std::make_shared<ODens>(c.out)); int how = sym_choice("how", 4); bool co = sym_choice("coeffs", 2); SMat o; unsigned R = co ? c.nc : c.in; if (how == 0) o = co ? p.LogDensityCoeffGrad(CSMat(c.x)) : p.LogDensityInputGrad<HS>(CSMat(c.x)); else { o = uninitMat("o", R, c.N, how - 1); if (co) p.LogDensityCoeffGradImpl(c.x, o); else p.LogDensityInputGradImpl(c.x, o); } sym_assert(o.extent(0) == R && o.extent(1) == c.N, "shape"); for (unsigned k = 0; k < c.N; ++k) { double f = pll(c, col(c.x, k, c.in)); for (unsigned i = 0; i < R; ++i) { if (co && c.N > 1) { double g = 0; V1 xk = col(c.x, k, c.in), y; for (unsigned r = 0; r < c.out; ++r) y.push_back(oval(0, r, c.t, xk)); for (unsigned r = 0; r < c.out; ++r) g += olog(y, r) * oval(0, r, c.t, xk, i); sym_assert_eq(o(i, k), g + odet(0, c.t, xk, i), "coefficient gradient of the pullback log density"); } else sym_assert_eq(o(i, k), co ? diffc(f, i) : diffx(f, i, k), co ? "coefficient gradient of the pullback log density" : "gradient of the pullback log density"); } } sym_reach("pullbackGrad"); }
HARNESS(eigen) { PC c = pcase(false, 1); PullbackDensity<HS> p(c.m, std::make_shared<ODens>(c.out)); Eigen::RowMatrixXd x(c.in, c.N); for (unsigned i = 0; i < c.in; ++i) for (unsigned k = 0; k < c.N; ++k) x(i, k) = c.x(i, k); DensityBase<HS>& b = p; int w = sym_choice("what", 3); if (w == 0) { Eigen::VectorXd v = b.LogDensity(x); SVec u = b.LogDensity<HS>(CSMat(c.x)); sym_assert(v.size() == c.N, "shape"); for (unsigned k = 0; k < c.N; ++k) sym_assert_eq(v(k), u(k), "Eigen log density"); } else { Eigen::RowMatrixXd v = w == 1 ? b.LogDensityInputGrad(x) : p.LogDensityCoeffGrad(x); SMat u = w == 1 ? b.LogDensityInputGrad<HS>(CSMat(c.x)) : p.LogDensityCoeffGrad(CSMat(c.x)); sym_assert(v.rows() == u.extent(0) && v.cols() == u.extent(1), "shape of the Eigen gradient"); for (unsigned i = 0; i < u.extent(0) && i < v.rows(); ++i) for (unsigned k = 0; k < c.N; ++k) sym_assert_eq(v(i, k), u(i, k), "Eigen gradient"); } sym_reach("eigen"); }
// the reference is a Gaussian with a dense covariance
HARNESS(pullbackGauss) { GC g = gauss(2); auto m = std::make_shared<OMap>(0, g.d, g.d, 1); V1 t = coefs(1); set(m, t); SMat x = symMat("x", g.d, 2, sym_choice("layout", 2)); PullbackDensity<HS> p(m, g.g); SVec o = p.LogDensity<HS>(CSMat(x)); SMat d = p.LogDensityInputGrad<HS>(CSMat(x)); for (unsigned k = 0; k < 2; ++k) { V1 xk = col(x, k, g.d), y; for (unsigned i = 0; i < g.d; ++i) y.push_back(oval(0, i, t, xk)); double f = glog(g, y) + odet(0, t, xk); sym_assert_close(o(k), f, 1e-9, "pullback log density"); for (unsigned i = 0; i < g.d; ++i) sym_assert_eq(d(i, k), diffx(f, i, k), "gradient of the pullback log density"); } sym_reach("pullbackGauss"); }
// ------------------------------------------------------------ pushforward, samplers
HARNESS(pushforward) { PC c = pcase(true, 3); PushforwardDensity<HS> p(c.m, std::make_shared<ODens>(c.out)); int how = sym_choice("how", 3); SVec o; if (how == 0) o = p.LogDensity<HS>(CSMat(c.x)); else { SMat b = uninitMat("o", c.N, 1, how == 1 ? 0 : 2); o = Kokkos::subview(b, Kokkos::ALL(), 0); p.LogDensityImpl(c.x, o); } for (unsigned k = 0; k < c.N; ++k) { V1 r = col(c.x, k, c.in), z; for (unsigned i = 0; i < c.in; ++i) z.push_back(oinv(0, i, c.t, {}, r)); sym_assert_eq(o(k), olog(z) - odet(0, c.t, z), "pushforward log density"); } sym_reach("pushforward"); }
HARNESS(samplers) { PC c = pcase(true, 1); bool pull = sym_choice("pull", 2); auto base = std::make_shared<OSampler>(c.in); std::shared_ptr<SampleGenerator<HS>> s; if (pull) s = std::make_shared<PullbackSampler<HS>>(c.m, base); else s = std::make_shared<PushforwardSampler<HS>>(c.m, base); s->SetSeed(11); sym_assert(base->seed == 11, "the seed reaches the reference sampler"); sym_assert(s->Dim() == c.in, "dimension"); SMat o; int how = sym_choice("how", 3); if (how == 0) o = s->Sample(c.N); else { o = uninitMat("o", c.in, c.N, how == 1 ? 1 : 2); s->SampleImpl(o); } sym_assert(base->last.size() == c.in * c.N, "one reference sample per sample"); for (unsigned k = 0; k < c.N; ++k) { V1 w(base->last.begin() + k * c.in, base->last.begin() + (k + 1) * c.in); for (unsigned i = 0; i < c.in; ++i) sym_assert_eq(o(i, k), pull ? oinv(0, i, c.t, {}, w) : oval(0, i, c.t, w), "transported sample"); } sym_reach("samplers"); }
HARNESS(gaussPushed) { vk_draws().clear(); GC g = gauss(2); unsigned N = 1 + sym_choice("count", 2); auto m = std::make_shared<OMap>(0, g.d, g.d, 1); V1 t = coefs(1); set(m, t); bool pull = sym_choice("pull", 2); g.g->SetSeed(5); SMat r = g.g->Sample(N); std::shared_ptr<SampleGenerator<HS>> s; if (pull) s = std::make_shared<PullbackSampler<HS>>(m, g.g); else s = std::make_shared<PushforwardSampler<HS>>(m, g.g); s->SetSeed(5); SMat o = s->Sample(N); for (unsigned k = 0; k < N; ++k) { V1 w = col(r, k, g.d); for (unsigned i = 0; i < g.d; ++i) sym_assert_eq(o(i, k), pull ? oinv(0, i, t, {}, w) : oval(0, i, t, w), "transported sample"); } sym_reach("gaussPushed"); }
HARNESS(mismatch) { unsigned in = 1 + sym_choice("in", 3), out = 1 + sym_choice("out", 3), d = 1 + sym_choice("dim", 3), e = 1 + sym_choice("other", 3); if (out > in) return; auto m = std::make_shared<OMap>(0, in, out, 0); auto dn = std::make_shared<ODens>(d); auto sm = std::make_shared<OSampler>(d); auto ok = [](bool good, bool th, const char* what) { sym_assert(good != th, what); };
  ok(out == d, throws([&] { PullbackDensity<HS> p(m, dn); }), "pullback density dimensions"); ok(in == out && out == d, throws([&] { PushforwardDensity<HS> p(m, dn); }), "pushforward density dimensions"); ok(in == out && out == d, throws([&] { PullbackSampler<HS> p(m, sm); }), "pullback sampler dimensions"); ok(in == out && out == d, throws([&] { PushforwardSampler<HS> p(m, sm); }), "pushforward sampler dimensions"); auto de = std::make_shared<ODens>(e); ok(d == e, throws([&] { Distribution<HS> p(sm, de); }), "distribution dimensions"); sym_reach("mismatch"); }
// distributions made by the transport factory: sampler and density of the same map and reference
HARNESS(factory) { unsigned d = 1 + sym_choice("dim", 2), N = 1 + sym_choice("points", 2); auto m = std::make_shared<OMap>(0, d, d, 1); V1 t = coefs(1); set(m, t); bool pull = sym_choice("pull", 2); auto base = std::make_shared<OSampler>(d); DP ref = std::make_shared<Distribution<HS>>(base, std::make_shared<ODens>(d)); MapPtr mp = m; DP p = pull ? CreatePullback<HS>(mp, ref) : CreatePushforward<HS>(mp, ref); sym_assert(p->Dim() == d, "dimension"); p->SetSeed(9); sym_assert(base->seed == 9, "the seed reaches the reference sampler"); SMat x = symMat("x", d, N), s = p->Sample(N); SVec l = p->LogDensity(x); for (unsigned k = 0; k < N; ++k) { V1 w(base->last.begin() + k * d, base->last.begin() + (k + 1) * d), r = col(x, k, d), z; for (unsigned i = 0; i < d; ++i) { z.push_back(pull ? oval(0, i, t, r) : oinv(0, i, t, {}, r)); sym_assert_eq(s(i, k), pull ? oinv(0, i, t, {}, w) : oval(0, i, t, w), "transported sample"); } sym_assert_eq(l(k), pull ? olog(z) + odet(0, t, r) : olog(z) - odet(0, t, z), "transported log density"); } sym_reach("factory"); }
HARNESS(gaussFactory) { vk_draws().clear(); GC c = gauss(2); DP p; SVec m; SMat C; if (c.kind & 1) { Vec v("v", c.d); for (unsigned i = 0; i < c.d; ++i) v(i) = c.mean[i]; m = v; } if (c.kind & 2) C = covMat(c.L, 1); switch (c.kind) { case 0: p = CreateGaussianDistribution<HS>(c.d); break; case 1: p = CreateGaussianDistribution<HS>(m); break; case 2: p = CreateGaussianDistribution<HS>(C); break; default: p = CreateGaussianDistribution<HS>(m, C); } sym_assert(p->Dim() == c.d, "dimension"); SMat x = symMat("x", c.d, 1); sym_assert_close(p->LogDensity(x)(0), glog(c, col(x, 0, c.d)), 1e-9, "log density"); SMat g = p->LogDensityInputGrad(x); for (unsigned i = 0; i < c.d; ++i) sym_assert_eq(g(i, 0), diffx(glog(c, col(x, 0, c.d)), i, 0), "gradient of the log density"); sym_reach("gaussFactory"); }
