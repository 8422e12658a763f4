// P03: multivariate expansions over opaque bases
#include "opaque.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/MultivariateExpansion.h"
using namespace mpart;
typedef Kokkos::HostSpace HS;
typedef Kokkos::View<double*, HS> Vec;

static std::vector<std::vector<unsigned>> terms; static unsigned dim;
static MultiIndexSet setOf() { Eigen::MatrixXi m(terms.size(), dim); for (unsigned i = 0; i < terms.size(); ++i) for (unsigned j = 0; j < dim; ++j) m(i, j) = terms[i][j]; return MultiIndexSet(m); }
static FixedMultiIndexSet<HS> fixedOf() {
  std::vector<unsigned> st(1, 0), di, od; for (auto& t : terms) { for (unsigned j = 0; j < dim; ++j) if (t[j]) { di.push_back(j); od.push_back(t[j]); } st.push_back(di.size()); }
  Kokkos::View<unsigned*, HS> s("s", st.size()), d("d", di.size()), o("o", od.size());
  for (unsigned i = 0; i < st.size(); ++i) s(i) = st[i]; for (unsigned i = 0; i < di.size(); ++i) { d(i) = di[i]; o(i) = od[i]; }
  return FixedMultiIndexSet<HS>(dim, s, d, o); }
template <class B> static double ref(std::vector<double> const& c, std::vector<double> const& x, int wrt1 = -1, int wrt2 = -1) {
  B b; double s = 0; for (unsigned t = 0; t < terms.size(); ++t) { double p = c[t]; for (unsigned j = 0; j < dim; ++j) { int k = (wrt1 == (int)j) + (wrt2 == (int)j); unsigned o = terms[t][j]; p *= k == 0 ? b.Evaluate(o, x[j]) : k == 1 ? b.Derivative(o, x[j]) : b.SecondDerivative(o, x[j]); } s += p; } return s; }
struct OB : OpaqueBasis1 { double Evaluate(unsigned k, double x) const { return val(k, x, 0); } double Derivative(unsigned k, double x) const { return val(k, x, 1); } double SecondDerivative(unsigned k, double x) const { return val(k, x, 2); } };

static void worker(FixedMultiIndexSet<HS> const& fs) {
  unsigned n = terms.size(), L = dim - 1;
  MultivariateExpansionWorker<OB, HS> w(fs);
  sym_assert(w.NumCoeffs() == n, "number of coefficients"); sym_assert(w.InputSize() == dim, "input size");
  std::vector<double> c(n), x(dim); Vec cv("c", n), pt("pt", dim);
  for (unsigned i = 0; i < n; ++i) cv(i) = c[i] = symd("c", i);
  for (unsigned j = 0; j < dim; ++j) pt(j) = x[j] = symd("x", j);
  Vec cache("cache", w.CacheSize()); auto fresh = [&]() { sym_uninit(cache.data(), 8 * w.CacheSize()); };
  Vec g("g", n), gx("gx", dim);
  double f = ref<OB>(c, x), fd = ref<OB>(c, x, L), fdd = ref<OB>(c, x, L, L);
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::None); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::None);
  sym_assert_eq(w.Evaluate(cache.data(), cv), f, "value is the defining sum");
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::Parameters); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::Parameters); sym_uninit(g.data(), 8 * n);
  sym_assert_eq(w.CoeffDerivative(cache.data(), cv, g), f, "value from CoeffDerivative");
  for (unsigned i = 0; i < n; ++i) sym_assert_eq(g(i), sym_diff(f, nm("c", i).c_str()), "coefficient gradient");
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::Input); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::Input); sym_uninit(gx.data(), 8 * dim);
  sym_assert_eq(w.InputDerivative(cache.data(), cv, gx), f, "value from InputDerivative");
  for (unsigned j = 0; j < dim; ++j) sym_assert_eq(gx(j), sym_diff(f, nm("x", j).c_str()), "input gradient");
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::None); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::Diagonal);
  sym_assert_eq(w.DiagonalDerivative(cache.data(), cv, 1), fd, "diagonal derivative"); sym_assert_eq(fd, sym_diff(f, nm("x", L).c_str()), "diagonal derivative is d/dx_last of the value");
  sym_uninit(g.data(), 8 * n); sym_assert_eq(w.MixedCoeffDerivative(cache.data(), cv, 1, g), fd, "value from MixedCoeffDerivative(1)");
  for (unsigned i = 0; i < n; ++i) sym_assert_eq(g(i), sym_diff(fd, nm("c", i).c_str()), "mixed coefficient derivative");
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::None); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::Diagonal2);
  sym_assert_eq(w.Evaluate(cache.data(), cv), f, "value with second-derivative cache");
  sym_assert_eq(w.DiagonalDerivative(cache.data(), cv, 1), fd, "diagonal derivative with second-derivative cache");
  sym_assert_eq(w.DiagonalDerivative(cache.data(), cv, 2), fdd, "second diagonal derivative");
  sym_uninit(g.data(), 8 * n); sym_assert_eq(w.MixedCoeffDerivative(cache.data(), cv, 2, g), fdd, "value from MixedCoeffDerivative(2)");
  for (unsigned i = 0; i < n; ++i) sym_assert_eq(g(i), sym_diff(fdd, nm("c", i).c_str()), "mixed second coefficient derivative");
  fresh(); w.FillCache1(cache.data(), pt, DerivativeFlags::MixedInput); w.FillCache2(cache.data(), pt, x[L], DerivativeFlags::MixedInput); sym_uninit(gx.data(), 8 * dim);
  sym_assert_eq(w.MixedInputDerivative(cache.data(), cv, gx), fd, "value from MixedInputDerivative");
  for (unsigned j = 0; j < dim; ++j) sym_assert_eq(gx(j), sym_diff(fd, nm("x", j).c_str()), "mixed input derivative");
  sym_reach("worker");
}
// every pair of distinct terms (symbolic orders, constant term and unused dimensions included)
static void pairTerms(unsigned d, int maxo) {
  dim = d; terms.assign(2, std::vector<unsigned>(d)); for (int t = 0; t < 2; ++t) for (unsigned j = 0; j < d; ++j) terms[t][j] = sym_concretize(sym_int(nm("o", t, j).c_str(), 0, maxo));
  if (terms[0] == terms[1]) terms.pop_back(); }
HARNESS(worker_pair1) { pairTerms(1, 3); worker(fixedOf()); }
HARNESS(worker_pair2) { pairTerms(2, 2); worker(fixedOf()); }
HARNESS(worker_pair3) { pairTerms(3, 1); worker(fixedOf()); }
static FixedMultiIndexSet<HS> denseOf() { Kokkos::View<unsigned*, HS> o("o", dim * terms.size()); for (unsigned t = 0; t < terms.size(); ++t) for (unsigned j = 0; j < dim; ++j) o(j + t * dim) = terms[t][j]; return FixedMultiIndexSet<HS>(dim, o); }
HARNESS(worker_dense1) { pairTerms(1, 3); worker(denseOf()); }
HARNESS(worker_dense2) { pairTerms(2, 2); worker(denseOf()); }
HARNESS(worker_dense3) { pairTerms(3, 1); worker(denseOf()); }
HARNESS(worker_total) { dim = 1 + sym_choice("dim", 3); unsigned p = sym_choice("order", TIER ? 4 : 3); FixedMultiIndexSet<HS> fs(dim, p); terms = std::vector<std::vector<unsigned>>(); for (unsigned i = 0; i < fs.Size(); ++i) terms.push_back(fs.IndexToMulti(i)); worker(fs); }
// the function object: several outputs, several points, every public entry
HARNESS(expansion) {
  dim = 2; terms = {{0, 0}, {1, 0}, {0, 2}, {1, 1}}; unsigned n = terms.size(); const unsigned M = 2, N = 1 + sym_choice("npts", 2);
  int how = sym_choice("ctor", 4);
  std::shared_ptr<MultivariateExpansion<OB, HS>> f;
  if (how == 0) f = std::make_shared<MultivariateExpansion<OB, HS>>(M, fixedOf(), OB());
  else if (how == 3) f = std::make_shared<MultivariateExpansion<OB, HS>>(M, denseOf(), OB());
  else if (how == 1) { MultiIndexSet s = setOf(); std::vector<std::vector<unsigned>> t; for (unsigned i = 0; i < s.Size(); ++i) t.push_back(s.IndexToMulti(i).Vector()); terms = t; f = std::make_shared<MultivariateExpansion<OB, HS>>(M, s, OB()); }
  else { MultivariateExpansionWorker<OB, HS> w(fixedOf()); f = std::make_shared<MultivariateExpansion<OB, HS>>(M, w); }
  sym_assert(f->inputDim == dim && f->outputDim == M && f->numCoeffs == n * M, "dimensions");
  Vec cv("c", n * M); std::vector<double> c(n * M); for (unsigned i = 0; i < n * M; ++i) cv(i) = c[i] = symd("c", i);
  f->SetCoeffs(Kokkos::View<const double*, HS>(cv));
  Kokkos::View<double**, HS> x("x", dim, N), s("s", M, N); for (unsigned j = 0; j < N; ++j) { for (unsigned i = 0; i < dim; ++i) x(i, j) = symd("x", i, j); for (unsigned i = 0; i < M; ++i) s(i, j) = symd("s", i, j); }
  std::vector<std::vector<double>> v(M, std::vector<double>(N)); std::vector<double> L(N, 0.0);
  for (unsigned j = 0; j < N; ++j) for (unsigned m = 0; m < M; ++m) { v[m][j] = ref<OB>(std::vector<double>(c.begin() + m * n, c.begin() + (m + 1) * n), {x(0, j), x(1, j)}); L[j] += s(m, j) * v[m][j]; }
  auto y = f->Evaluate(x); auto g = f->Gradient(x, s); auto cg = f->CoeffGrad(x, s);
  sym_assert(y.extent(0) == M && y.extent(1) == N && g.extent(0) == dim && g.extent(1) == N && cg.extent(0) == n * M && cg.extent(1) == N, "shapes");
  for (unsigned j = 0; j < N; ++j) {
    for (unsigned m = 0; m < M; ++m) sym_assert_eq(y(m, j), v[m][j], "value of every output");
    for (unsigned i = 0; i < dim; ++i) sym_assert_eq(g(i, j), sym_diff(L[j], nm("x", i, j).c_str()), "gradient is the exact input derivative");
    for (unsigned i = 0; i < n * M; ++i) sym_assert_eq(cg(i, j), sym_diff(L[j], nm("c", i).c_str()), "coefficient gradient is the exact derivative"); }
  // output arrays with arbitrary previous content
  Kokkos::View<double**, HS> o("o", dim, N), oc("oc", n * M, N); for (unsigned j = 0; j < N; ++j) { for (unsigned i = 0; i < dim; ++i) o(i, j) = symd("junk", i, j); for (unsigned i = 0; i < n * M; ++i) oc(i, j) = 7.0; }
  f->GradientImpl(x, s, o); f->CoeffGradImpl(x, s, oc); for (unsigned j = 0; j < N; ++j) { for (unsigned i = 0; i < dim; ++i) sym_assert_eq(o(i, j), g(i, j), "gradient independent of previous output content"); for (unsigned i = 0; i < n * M; ++i) sym_assert_eq(oc(i, j), cg(i, j), "coefficient gradient independent of previous output content"); }
  sym_reach("expansion");
}
