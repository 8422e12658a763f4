// P25: training and adaptive training against an optimiser that may return anything.
#include "omap.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/TriangularMap.h"
using namespace mpart; using nlopt::VkRun; using nlopt::vk_runs; typedef std::vector<unsigned> U;
static V1 now(MapPtr m) { auto c = m->Coeffs(); V1 v; for (unsigned i = 0; i < c.extent(0); ++i) v.push_back(c(i)); return v; }
// ------------------------------------------------------------ TrainMap: an arbitrary objective of the coefficients
struct OObj : MapObjective<HS> { OObj(CSMat a) : MapObjective<HS>(a) {} static double f(V1 v, int der = -1) { std::vector<int> e(v.size(), 0); if (der >= 0) e[der] = 1; return sym_uf(901, v.size(), v.data(), e.data()); }
  double ObjectiveImpl(CSMat, MapPtr m) const override { return f(now(m)); } void CoeffGradImpl(CSMat, SVec g, MapPtr m) const override { for (unsigned i = 0; i < m->numCoeffs; ++i) g(i) = f(now(m), i); } };
static void probe(VkRun& r) { for (int k = 0; k < 3; ++k) { V1 x, g(r.dim + 1, 3.5), keep; for (unsigned i = 0; i < r.dim; ++i) x.push_back(k == 2 ? r.x0[i] : symd("probe", k, i)); keep = x; double v = r.f(r.dim, x.data(), k == 1 ? nullptr : g.data(), r.data); sym_assert_eq(v, OObj::f(x), "the optimiser sees the objective"); for (unsigned i = 0; i < r.dim; ++i) { if (k != 1) sym_assert_eq(g[i], OObj::f(x, i), "the optimiser sees the gradient"); sym_assert_eq(x[i], keep[i], "the optimiser's point is not changed"); } sym_assert_eq(g[r.dim], 3.5, "only the gradient is written"); } }
HARNESS(train) { vk_runs().clear(); nlopt::vk_on_optimize = probe; nlopt::vk_results = true; int k = sym_choice("map", 4); MapPtr m; unsigned in = 2; if (k < 3) m = std::make_shared<OMap>(0, 2, 1, k + 1); else m = std::make_shared<TriangularMap<HS>>(std::vector<MapPtr>{std::make_shared<OMap>(0, 1, 1, 1), std::make_shared<OMap>(1, 2, 1, 2)}); unsigned n = m->numCoeffs; SMat x = symMat("x", in, 1); auto o = std::make_shared<OObj>(x);
  int before = sym_choice("before", 3); V1 t(n, 1.0); Vec w("w", n); if (before) { for (unsigned i = 0; i < n; ++i) t[i] = w(i) = symd("c", i); if (before == 1) m->SetCoeffs(Kokkos::View<const double*, HS>(w)); else m->WrapCoeffs(w); }
  TrainOptions p; p.opt_alg = sym_choice("alg", 2) ? "LD_LBFGS" : "LN_COBYLA"; p.opt_stopval = sym_double("stopval"); p.opt_ftol_rel = sym_double("frel"); p.opt_ftol_abs = sym_double("fabs"); p.opt_xtol_rel = sym_double("xrel"); p.opt_xtol_abs = sym_double("xabs"); p.opt_maxeval = sym_int("maxeval", 1, 100000); p.opt_maxtime = sym_double("maxtime");
  double err = TrainMap<HS>(m, o, p); sym_assert(vk_runs().size() == 1, "one optimisation"); VkRun r = vk_runs()[0]; sym_assert(r.dim == n && r.alg == p.opt_alg && r.maxeval == p.opt_maxeval, "algorithm, dimension and evaluation limit"); sym_assert_eq(r.stopval, p.opt_stopval, "stop value"); sym_assert_eq(r.frel, p.opt_ftol_rel, "relative f tolerance"); sym_assert_eq(r.fabs, p.opt_ftol_abs, "absolute f tolerance"); sym_assert_eq(r.xrel, p.opt_xtol_rel, "relative x tolerance"); sym_assert_eq(r.xabs, p.opt_xtol_abs, "absolute x tolerance"); sym_assert_eq(r.maxtime, p.opt_maxtime, "time limit"); for (unsigned i = 0; i < n; ++i) sym_assert_eq(r.x0[i], t[i], "the optimiser starts from the current coefficients"); sym_assert_eq(err, r.error, "the optimiser's value is returned"); V1 c = now(m); sym_assert(c.size() == n, "the map has coefficients"); for (unsigned i = 0; i < n; ++i) sym_assert_eq(c[i], r.xf[i], "the optimiser's coefficients are installed"); sym_reach("train"); }
HARNESS(trainTwice) { vk_runs().clear(); nlopt::vk_on_optimize = nullptr; nlopt::vk_results = false; auto m = std::make_shared<OMap>(0, 2, 1, 2); auto o = std::make_shared<OObj>(CSMat(symMat("x", 2, 1))); TrainOptions p; for (int k = 0; k < 3; ++k) { TrainMap<HS>(m, o, p); auto& r = vk_runs().back(); for (int i = 0; i < 2; ++i) { sym_assert_eq(r.x0[i], k ? vk_runs()[k - 1].xf[i] : 1.0, "the optimiser starts from the current coefficients"); sym_assert_eq(now(m)[i], r.xf[i], "the optimiser's coefficients are installed"); } } sym_reach("trainTwice"); }
// ------------------------------------------------------------ adaptive training: arbitrary test errors, gradients and trained coefficients; the expected history runs alongside
static void eqv(V1 const& a, V1 const& b, const char* w) { sym_assert(a.size() == b.size(), w); for (unsigned i = 0; i < a.size() && i < b.size(); ++i) sym_assert_eq(a[i], b[i], w); }
static bool sameSet(MultiIndexSet const& a, MultiIndexSet const& b) { if (a.Size() != b.Size()) return false; for (unsigned i = 0; i < a.Size(); ++i) { bool f = false; for (unsigned j = 0; j < b.Size(); ++j) f |= a[i] == b[j]; if (!f) return false; } return true; }
enum Phase { TRAIN, ERROR, GRAD, FINAL, DONE };
struct Hist { std::vector<MultiIndexSet> cur, best; std::vector<V1> C; Phase ph = TRAIN; unsigned n = 0, maxSize, pat = 0, maxPat, calls = 0, enlarged = 0; bool first = true, bound = false, stuck = false; U md; double bestE = 0; V1 last;
  V1 flat() const { V1 v; for (auto& c : C) v.insert(v.end(), c.begin(), c.end()); return v; }
  void next() { ph = n < maxSize && pat < maxPat ? GRAD : FINAL; }
  void trained(VkRun& r) { sym_assert(ph == TRAIN || ph == FINAL, "training happens at the start, after every enlargement and at the end"); if (ph == FINAL) { last = r.xf; ph = DONE; return; } if (ph != TRAIN) sym_stop(); eqv(r.x0, flat(), first ? "training starts from zero coefficients" : "a larger map starts from the trained coefficients and zero for the new term"); unsigned q = 0; for (auto& c : C) for (auto& v : c) v = r.xf[q++]; ph = ERROR; }
  void error(V1 const& c, double e) { if (ph == DONE || ph == FINAL) return; sym_assert(ph == ERROR, "the test error decides after every training"); if (ph != ERROR) sym_stop(); eqv(c, flat(), "the test error is that of the trained map"); if (first) bestE = e; else { ++pat; if (e < bestE) { bestE = e; best = cur; pat = 0; } } first = false; next(); }
  V1 grad(V1 const& c) { sym_assert(ph == GRAD, "the gradient is only needed to enlarge the map"); if (ph != GRAD) sym_stop(); V1 T; unsigned ab[16], ai[16], at[16], k = 0; std::vector<MultiIndexSet> tmp = cur; for (unsigned b = 0; b < cur.size(); ++b) { unsigned old = cur[b].Size(); tmp[b].Expand(); for (unsigned i = 0; i < tmp[b].Size(); ++i) { bool ok = i >= old; for (unsigned d = 0; d < tmp[b].Length(); ++d) if (bound && tmp[b][i].Get(d) >= md[d]) ok = false; if (ok && k < 16) { ab[k] = b; ai[k] = i; at[k++] = T.size(); } T.push_back(i < old ? C[b][i] : 0.0); } }
    eqv(c, T, "the gradient is taken at the trained coefficients and zeros for the new terms"); V1 g; for (unsigned i = 0; i < T.size(); ++i) g.push_back(symd("grad", calls, i)); ++calls; if (!k) { stuck = true; ph = FINAL; return g; } unsigned w = sym_choice("largest", k); for (unsigned i = 0; i < k; ++i) if (i != w) sym_assume(std::fabs(g[at[w]]) > std::fabs(g[at[i]])); cur[ab[w]] += tmp[ab[w]][ai[w]]; C[ab[w]].push_back(0.0); ++n; ++enlarged; ph = TRAIN; return g; } };
static Hist* hist; static unsigned evno;
static void follow(VkRun& r) { hist->trained(r); }
struct AObj : MapObjective<HS> { unsigned out; const void* test; AObj(CSMat a, CSMat b, unsigned o) : MapObjective<HS>(a, b), out(o), test(b.data()) {} unsigned int MapOutputDim() const override { return out; }
  double ObjectiveImpl(CSMat d, MapPtr m) const override { double e = symd("error", evno++); if (hist && d.data() == test) hist->error(now(m), e); return e; }
  void CoeffGradImpl(CSMat d, SVec g, MapPtr m) const override { sym_assert(d.data() != test, "gradients are those of the training error"); V1 v = hist->grad(now(m)); for (unsigned i = 0; i < m->numCoeffs && i < v.size(); ++i) g(i) = v[i]; } };
static std::vector<MultiIndexSet> start(unsigned in, unsigned out, int k) { std::vector<MultiIndexSet> s; for (unsigned i = 0; i < out; ++i) s.push_back(MultiIndexSet::CreateTotalOrder(in - out + i + 1, k == 2 ? (i + 1 == out ? 1 : 0) : k)); return s; }
static void adaptive(unsigned in, unsigned out, int k, unsigned extra, unsigned patience, bool bound) { vk_runs().clear(); nlopt::vk_results = false; nlopt::vk_on_optimize = follow; evno = 0; SMat x = symMat("x", in, 1), z = symMat("z", in, 1); auto obj = std::make_shared<AObj>(x, z, out); auto S = start(in, out, k); Hist h; hist = &h; h.cur = h.best = S; for (auto& s : S) { h.n += s.Size(); h.C.push_back(V1(s.Size(), 0.0)); } ATMOptions o; o.maxPatience = h.maxPat = patience; o.maxSize = h.maxSize = h.n + extra; o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 3; h.bound = bound; if (bound) { for (unsigned i = 0; i < in; ++i) h.md.push_back(1 + sym_choice("degree", in > 2 ? 2 : 3)); o.maxDegrees = MultiIndex(h.md.data(), in); }
  MapPtr m = TrainMapAdaptive<HS>(S, obj, o); hist = nullptr;
  sym_assert(h.ph == DONE, "the best sets are trained once the limits end the search"); unsigned nb = 0; for (unsigned b = 0; b < out; ++b) { sym_assert(sameSet(S[b], h.best[b]), "the sets with the lowest test error are returned"); nb += h.best[b].Size(); } sym_assert(m->inputDim == in && m->outputDim == out && m->numCoeffs == nb, "dimensions of the returned map"); eqv(now(m), h.last, "the returned map holds the optimiser's coefficients"); sym_reach(h.stuck ? "exhausted" : "adaptive"); }
HARNESS(adapt1) { int k = sym_choice("start", 2); adaptive(1, 1, k, sym_choice("extra", TIER ? 5 : 4), 1 + sym_choice("patience", 3), false); }
HARNESS(adapt2) { unsigned out = 1 + sym_choice("out", 2); adaptive(2, out, sym_choice("start", 3), 1 + sym_choice("extra", TIER ? 3 : 2), 1 + sym_choice("patience", 2), false); }
HARNESS(bounded) { unsigned in = 1 + sym_choice("in", 2), out = 1 + sym_choice("out", in); adaptive(in, out, sym_choice("start", 2), 1 + sym_choice("extra", TIER ? 3 : 2), 1 + sym_choice("patience", 2), true); }
HARNESS(adapt3) { adaptive(3, 2, 0, 1, 1, sym_choice("bound", 2)); }
HARNESS(invalid) { vk_runs().clear(); nlopt::vk_on_optimize = nullptr; nlopt::vk_results = false; hist = nullptr; SMat x = symMat("x", 2, 1), z = symMat("z", 2, 1); unsigned out = 1 + sym_choice("out", 2); auto obj = std::make_shared<AObj>(x, z, out); unsigned ns = 1 + sym_choice("sets", 3); std::vector<MultiIndexSet> S; bool good = ns == out; for (unsigned i = 0; i < ns; ++i) { unsigned l = 1 + sym_choice("length", 3); S.push_back(MultiIndexSet::CreateTotalOrder(l, 0)); if (good && l != 2 - out + i + 1) good = false; } ATMOptions o; o.maxSize = 0; o.quadType = QuadTypes::ClenshawCurtis; o.quadPts = 3; unsigned md = sym_choice("degrees", 4); U v(3, 2); if (md) { o.maxDegrees = MultiIndex(v.data(), md); if (md != 2) good = false; } bool t = throws([&] { TrainMapAdaptive<HS>(S, obj, o); }); sym_assert(t == !good, "unsuitable sets or degree limits raise an error"); if (t) sym_assert(vk_runs().empty(), "and nothing is trained"); sym_reach("invalid"); }
