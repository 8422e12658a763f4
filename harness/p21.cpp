// P21: an object written to an archive and read back behaves the same, and the reader consumes what was written.
#include "opaque.h"
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/vector.hpp>
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/TriangularMap.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/MapOptions.h"
#include "MParT/Quadrature.h"
#include "MParT/Utilities/Serialization.h"
#include "views.h"
#ifdef VK_NATIVE
typedef std::basic_stringstream<char> Stream; // the macro in the overlay replaces std::stringstream
static unsigned long left(Stream& s) { return s.rdbuf()->in_avail(); }
#else
typedef vk_mem Stream;
static unsigned long left(Stream& s) { return s.d.size() - s.pos; }
#endif
using namespace mpart; typedef Kokkos::HostSpace HS; typedef Kokkos::View<double*, HS> Vec; typedef Kokkos::View<unsigned*, HS> UV;
// rule with two nodes of any position and weight, which are saved with it
struct SerQuad { unsigned d = 1; double t[2], w[2]; SerQuad() {} SerQuad(int) { for (int i = 0; i < 2; ++i) { t[i] = symd("node", i); w[i] = symd("weight", i); } }
  void SetDim(unsigned n) { d = n; } unsigned WorkspaceSize() const { return d; }
  template <class F> void Integrate(double* work, F const& f, double lb, double ub, double* out) const { for (unsigned j = 0; j < d; ++j) out[j] = 0; for (int i = 0; i < 2; ++i) { f(lb + (ub - lb) * t[i], work); for (unsigned j = 0; j < d; ++j) out[j] += (ub - lb) * w[i] * work[j]; } }
  template <class A> void serialize(A& ar) { ar(t[0], t[1], w[0], w[1]); } };
// any basis with a parameter, which is saved with it
struct SerBasis { double s = 0; SerBasis() {} SerBasis(double v) : s(v) {} static double val(unsigned k, double x, int d) { return OpaqueBasis1::val(k, x, d); }
  void EvaluateAll(double* o, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) o[k] = val(k, x + s, 0); }
  void EvaluateDerivatives(double* v, double* d, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { v[k] = val(k, x + s, 0); d[k] = val(k, x + s, 1); } }
  void EvaluateSecondDerivatives(double* v, double* d, double* dd, unsigned m, double x) const { for (unsigned k = 0; k <= m; ++k) { v[k] = val(k, x + s, 0); d[k] = val(k, x + s, 1); dd[k] = val(k, x + s, 2); } }
  template <class A> void serialize(A& ar) { ar(s); } };
namespace mpart { typedef MonotoneComponent<MultivariateExpansionWorker<SerBasis, HS>, OpaquePos, SerQuad, HS> CompA; typedef MonotoneComponent<MultivariateExpansionWorker<SerBasis, HS>, OpaquePos, ClenshawCurtisQuadrature<HS>, HS> CompB; }
CEREAL_REGISTER_TYPE(mpart::CompA) CEREAL_REGISTER_TYPE(mpart::CompB)
static const unsigned MARK = 0x5eed1234u;
template <class T> static void put(Stream& s, T const& x) { cereal::BinaryOutputArchive a(s); unsigned m = MARK; a(x); a(m); }
template <class T> static void get(Stream& s, T& x) { unsigned m = 0; { cereal::BinaryInputArchive a(s); a(x); a(m); } sym_assert(m == MARK && left(s) == 0, "the reader consumes what was written"); }
template <class V> static bool sameShape(V const& a, V const& b) { bool r = a.label() == b.label(); for (unsigned i = 0; i < (unsigned)V::rank; ++i) r = r && a.extent(i) == b.extent(i); return r; }
HARNESS(arrays) { unsigned n = sym_choice("n", 4), m = sym_choice("m", 4); Stream s; { Vec v("values", n); for (unsigned i = 0; i < n; ++i) v(i) = symd("v", i); put(s, v); Vec w("other", m); get(s, w); sym_assert(sameShape(v, w), "shape and label"); for (unsigned i = 0; i < n && i < w.extent(0); ++i) sym_assert_eq(w(i), v(i), "vector element"); if (n) { double o = v(0); w(0) = o + 1; sym_assert_eq(v(0), o, "the copy is independent"); } }
  { Stream t; UV v("ids", n); for (unsigned i = 0; i < n; ++i) v(i) = sym_uint(nm("u", i).c_str(), 0, ~0u); put(t, v); UV w; get(t, w); sym_assert(sameShape(v, w), "shape and label"); for (unsigned i = 0; i < n && i < w.extent(0); ++i) sym_assert(w(i) == v(i), "index element"); }
  { Stream t; Kokkos::View<double**, Kokkos::LayoutLeft, HS> A("left", n, m), B("other", m, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) A(i, j) = symd("A", i, j); put(t, A); get(t, B); sym_assert(sameShape(A, B), "shape and label"); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) sym_assert_eq(B(i, j), A(i, j), "column-major element"); }
  { Stream t; Kokkos::View<double**, Kokkos::LayoutRight, HS> A("right", n, m), B; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) A(i, j) = symd("R", i, j); put(t, A); get(t, B); sym_assert(sameShape(A, B), "shape and label"); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) sym_assert_eq(B(i, j), A(i, j), "row-major element"); } sym_reach("arrays"); }
HARNESS(options) { MapOptions o; o.basisType = (BasisTypes)sym_choice("basis", 3); o.posFuncType = (PosFuncTypes)sym_choice("pos", 2); o.quadType = (QuadTypes)sym_choice("quad", 3); if (sym_choice("lower", 2)) o.basisLB = sym_double("lb"); if (sym_choice("upper", 2)) o.basisUB = sym_double("ub"); o.quadAbsTol = sym_double("atol"); o.quadRelTol = sym_double("rtol"); o.quadMaxSub = sym_uint("maxSub", 0, ~0u); o.quadMinSub = sym_uint("minSub", 0, ~0u); o.quadPts = sym_uint("pts", 0, ~0u); o.contDeriv = sym_choice("cont", 2); o.basisNorm = sym_choice("norm", 2); o.nugget = sym_double("nugget"); Stream s; put(s, o); MapOptions p; get(s, p);
  sym_assert(o.basisType == p.basisType && o.posFuncType == p.posFuncType && o.quadType == p.quadType && o.contDeriv == p.contDeriv && o.basisNorm == p.basisNorm, "kinds"); sym_assert(o.basisLB == p.basisLB, "lower bound"); sym_assert(o.basisUB == p.basisUB, "upper bound"); sym_assert(o.quadAbsTol == p.quadAbsTol, "absolute tolerance"); sym_assert(o.quadRelTol == p.quadRelTol, "relative tolerance"); sym_assert((o.quadMaxSub == p.quadMaxSub) & (o.quadMinSub == p.quadMinSub) & (o.quadPts == p.quadPts), "quadrature sizes"); sym_assert(o.nugget == p.nugget, "nugget"); sym_assert(o == p, "equal options"); sym_reach("options"); }
static FixedMultiIndexSet<HS> someSet(unsigned& d, std::vector<std::vector<unsigned>>& T) { int k = sym_choice("set", 4); d = k == 3 ? 3 : 2; if (k == 0) { T = {{0, 0}, {0, 1}, {1, 0}}; return FixedMultiIndexSet<HS>(2, 1); } if (k == 1) { T = {{2, 1}, {0, 0}, {0, 2}}; UV o("o", 6); unsigned i = 0; for (auto& t : T) for (unsigned x : t) o(i++) = x; return FixedMultiIndexSet<HS>(2, o); } if (k == 2) { T = {{0, 3}, {1, 1}}; UV st("s", 3), di("d", 3), od("o", 3); st(1) = 1; st(2) = 3; di(0) = 1; od(0) = 3; di(1) = 0; di(2) = 1; od(1) = od(2) = 1; return FixedMultiIndexSet<HS>(2, st, di, od); } T = {{1, 0, 2}}; UV o("o", 3); o(0) = 1; o(2) = 2; return FixedMultiIndexSet<HS>(3, o); }
HARNESS(sets) { unsigned d; std::vector<std::vector<unsigned>> T; FixedMultiIndexSet<HS> f; int sym = sym_choice("symbolic", 2), dense = 0; if (!sym) f = someSet(d, T); else { d = 1 + sym_choice("dim", 2); unsigned n = sym_choice("terms", 3); UV o("o", d * n); for (unsigned t = 0; t < n; ++t) { T.push_back({}); for (unsigned k = 0; k < d; ++k) { o(k + d * t) = sym_uint(nm("o", t, k).c_str(), 0, 1u << 30); T[t].push_back(o(k + d * t)); } } f = FixedMultiIndexSet<HS>(d, o); } Stream s; put(s, f); FixedMultiIndexSet<HS> g; if (sym_choice("into", 2)) g = FixedMultiIndexSet<HS>(4, 2); get(s, g);
  sym_assert(g.Length() == d && g.Size() == T.size(), "size and length"); for (unsigned i = 0; i < T.size() && i < g.Size(); ++i) { auto v = g.IndexToMulti(i); int r = v.size() == d; for (unsigned k = 0; k < d && r; ++k) r &= v[k] == T[i][k]; sym_assert(r, "terms"); sym_assert(g.nzStarts(i) == f.nzStarts(i) && g.nzStarts(i + 1) == f.nzStarts(i + 1), "stored ranges"); sym_assert(g.MultiToIndex(T[i]) == f.MultiToIndex(T[i]), "lookup"); } for (unsigned k = 0; k < d; ++k) sym_assert(g.MaxDegrees()(k) == f.MaxDegrees()(k), "maximum degrees"); sym_reach("sets"); }
template <class B> static void basis(B const& b) { Stream s; put(s, b); B c; get(s, c); double x = sym_double("x"), v[4], w[4], d[4], e[4], dd[4], ee[4]; b.EvaluateSecondDerivatives(v, d, dd, 3, x); c.EvaluateSecondDerivatives(w, e, ee, 3, x); for (int k = 0; k < 4; ++k) { sym_assert_eq(v[k], w[k], "basis value"); sym_assert_eq(d[k], e[k], "basis derivative"); sym_assert_eq(dd[k], ee[k], "basis second derivative"); sym_assert_eq(b.Evaluate(k, x), c.Evaluate(k, x), "single basis value"); } }
HARNESS(bases) { bool n = sym_choice("norm", 2); double lb = sym_double("lb"), ub = sym_double("ub"); sym_assume(lb < ub); switch (sym_choice("family", 6)) { case 0: basis(ProbabilistHermite(n)); break; case 1: basis(PhysicistHermite(n)); break; case 2: basis(HermiteFunction()); break; case 3: basis(LinearizedBasis<ProbabilistHermite>(ProbabilistHermite(n), lb, ub)); break; case 4: basis(LinearizedBasis<PhysicistHermite>(PhysicistHermite(n), lb, ub)); break; default: basis(LinearizedBasis<OpaqueBasis1>(OpaqueBasis1(), lb, ub)); } sym_reach("bases"); }
struct Fun { unsigned d; void operator()(double x, double* v) const { for (unsigned j = 0; j < d; ++j) v[j] = uf1(300 + 2 * j, x); } };
template <class Q> static void rule(Q& q, Q& r, unsigned d) { Stream s; put(s, q); get(s, r); sym_assert(q.WorkspaceSize() == r.WorkspaceSize(), "workspace size"); double lb = sym_double("lb"), ub = sym_double("ub"), a[2], b[2]; std::vector<double> w1(q.WorkspaceSize() + 1), w2(q.WorkspaceSize() + 1); Fun f{d}; q.SetDim(d); r.SetDim(d); q.Integrate(w1.data(), f, lb, ub, a); r.Integrate(w2.data(), f, lb, ub, b); for (unsigned j = 0; j < d; ++j) sym_assert_eq(a[j], b[j], "integral"); Q t(r); t.Integrate(w2.data(), f, lb, ub, b); for (unsigned j = 0; j < d; ++j) sym_assert_eq(a[j], b[j], "integral by a copy of what was read"); }
HARNESS(ruleFixed) { unsigned d = 1 + sym_choice("outputs", 2), n = 1 + sym_choice("points", 5); if (sym_choice("own", 2)) { ClenshawCurtisQuadrature<HS> q(n, d), r; rule(q, r, d); double a[2], b[2]; Fun f{d}; q.Integrate(f, -1.0, 2.0, a); r.Integrate(f, -1.0, 2.0, b); for (unsigned j = 0; j < d; ++j) sym_assert_eq(a[j], b[j], "integral with its own workspace"); } else { ClenshawCurtisQuadrature<HS> q(n, d, nullptr), r; rule(q, r, d); } sym_reach("ruleFixed"); }
HARNESS(ruleSimpson) { double at = sym_double("atol"), rt = sym_double("rtol"); sym_assume(at > 0 && rt >= 0); unsigned d = 1 + sym_choice("outputs", 2), mx = 1 + sym_choice("max", 2), mn = sym_choice("min", 2); if (mn >= mx) return; QuadError::Type e = (QuadError::Type)(d == 1 ? 0 : sym_choice("error", 3)); AdaptiveSimpson<HS> q(mx, d, nullptr, at, rt, e, mn), r; rule(q, r, d); sym_reach("ruleSimpson"); }
HARNESS(ruleAdaptive) { double at = sym_double("atol"), rt = sym_double("rtol"); sym_assume(at > 0 && rt >= 0); unsigned d = 1 + sym_choice("outputs", 2), mx = 1 + sym_choice("max", 2), mn = sym_choice("min", 2), lev = 1 + sym_choice("level", 2); if (mn >= mx) return; QuadError::Type e = (QuadError::Type)(d == 1 ? 0 : sym_choice("error", 3)); AdaptiveClenshawCurtis<HS> q(lev, mx, d, nullptr, at, rt, e, mn), r; rule(q, r, d); sym_reach("ruleAdaptive"); }
HARNESS(workers) { unsigned d; std::vector<std::vector<unsigned>> T; auto f = someSet(d, T); typedef MultivariateExpansionWorker<SerBasis, HS> W; W w(f, SerBasis(sym_double("shift"))), r; Stream s; put(s, w); get(s, r); sym_assert(w.CacheSize() == r.CacheSize() && w.InputSize() == r.InputSize() && w.NumCoeffs() == r.NumCoeffs(), "sizes"); Vec c("c", T.size()), x("x", d), g("g", d), h("h", d); for (unsigned i = 0; i < T.size(); ++i) c(i) = symd("c", i); for (unsigned i = 0; i < d; ++i) x(i) = symd("x", i); std::vector<double> a(w.CacheSize()), b(r.CacheSize());
  w.FillCache1(a.data(), x, DerivativeFlags::Input); w.FillCache2(a.data(), x, x(d - 1), DerivativeFlags::Input); r.FillCache1(b.data(), x, DerivativeFlags::Input); r.FillCache2(b.data(), x, x(d - 1), DerivativeFlags::Input); sym_assert_eq(w.Evaluate(a.data(), c), r.Evaluate(b.data(), c), "value"); sym_assert_eq(w.InputDerivative(a.data(), c, g), r.InputDerivative(b.data(), c, h), "value with gradient"); for (unsigned i = 0; i < d; ++i) sym_assert_eq(g(i), h(i), "gradient"); auto m = r.GetMultiIndexSet(); for (unsigned i = 0; i < T.size(); ++i) sym_assert(m.IndexToMulti(i) == T[i], "terms"); sym_reach("workers"); }
typedef std::shared_ptr<ConditionalMapBase<HS>> MP; typedef std::shared_ptr<ParameterizedFunctionBase<HS>> FP;
// a component with arbitrary basis, positive function, rule, parameters, with or without coefficients
static MP part(int id, unsigned d, bool coeffs, int kind) { auto n = [&](const char* b) { return nm(b, id); }; double nug = 0; if (sym_choice(n("hasNugget").c_str(), id ? 1 : 2)) { nug = sym_double(n("nugget").c_str()); sym_assume(nug > 0); } bool cont = sym_choice(n("cont").c_str(), 2); FixedMultiIndexSet<HS> fs(d, 1); MultivariateExpansionWorker<SerBasis, HS> w(fs, SerBasis(symd("shift", id))); MP m; if (kind) m = std::make_shared<CompB>(w, ClenshawCurtisQuadrature<HS>(2 + sym_choice(n("points").c_str(), 2), 1, nullptr), cont, nug); else m = std::make_shared<CompA>(w, SerQuad(1), cont, nug); if (coeffs) { Vec c("c", m->numCoeffs); for (unsigned i = 0; i < m->numCoeffs; ++i) c(i) = symd("c", id, i); m->SetCoeffs(Kokkos::View<const double*, HS>(c)); } return m; }
static void sameMap(ConditionalMapBase<HS>& a, ConditionalMapBase<HS>& b, unsigned N) { sym_assert(a.inputDim == b.inputDim && a.outputDim == b.outputDim && a.numCoeffs == b.numCoeffs, "dimensions"); if (a.inputDim != b.inputDim) return; sym_assert(a.CheckCoefficients() == b.CheckCoefficients(), "coefficients are present or absent as before"); if (!a.CheckCoefficients() || !b.CheckCoefficients()) return; auto ca = a.Coeffs(), cb = b.Coeffs(); for (unsigned i = 0; i < a.numCoeffs; ++i) sym_assert_eq(ca(i), cb(i), "coefficients");
  Kokkos::View<double**, HS> x("x", a.inputDim, N), s("s", a.outputDim, N); for (unsigned j = 0; j < N; ++j) { for (unsigned i = 0; i < a.inputDim; ++i) x(i, j) = symd("x", i, j); for (unsigned i = 0; i < a.outputDim; ++i) s(i, j) = symd("s", i, j); } auto cmp = [&](Kokkos::View<double**, HS> u, Kokkos::View<double**, HS> v, const char* what) { for (unsigned i = 0; i < u.extent(0); ++i) for (unsigned j = 0; j < N; ++j) sym_assert_eq(u(i, j), v(i, j), what); };
  auto conv = [&](StridedMatrix<double, HS> u) { Kokkos::View<double**, HS> r("r", u.extent(0), u.extent(1)); for (unsigned i = 0; i < u.extent(0); ++i) for (unsigned j = 0; j < u.extent(1); ++j) r(i, j) = u(i, j); return r; };
  cmp(conv(a.Evaluate(x)), conv(b.Evaluate(x)), "value"); cmp(conv(a.Gradient(x, s)), conv(b.Gradient(x, s)), "gradient"); cmp(conv(a.CoeffGrad(x, s)), conv(b.CoeffGrad(x, s)), "coefficient gradient"); auto la = a.LogDeterminant(x), lb = b.LogDeterminant(x); for (unsigned j = 0; j < N; ++j) sym_assert_eq(la(j), lb(j), "log-determinant"); }
HARNESS(component) { unsigned d = 1 + sym_choice("dim", 2); bool has = sym_choice("coeffs", 2); MP m = part(0, d, has, sym_choice("kind", 2)); Stream s; MP r; if (sym_choice("how", 2)) { put(s, m); get(s, r); } else { std::static_pointer_cast<ParameterizedFunctionBase<HS>>(m)->Save(s); FP f = ParameterizedFunctionBase<HS>::Load(s); sym_assert(left(s) == 0, "the reader consumes what was written"); r = std::dynamic_pointer_cast<ConditionalMapBase<HS>>(f); sym_assert(!!r, "the loaded function is a map"); } sameMap(*m, *r, 1); sym_reach("component"); }
HARNESS(triangular) { unsigned nb = 1 + sym_choice("blocks", 2), extra = sym_choice("extra", 2); int coeffs = sym_choice("coeffs", 3); // none, set on the whole, set on the parts and moved
  std::vector<MP> b; for (unsigned i = 0; i < nb; ++i) b.push_back(part(i, extra + 1 + i, coeffs == 2, i % 2)); bool nested = nb == 2 && sym_choice("nested", 2); if (nested) { std::vector<MP> in(1, b[0]); b[0] = std::make_shared<TriangularMap<HS>>(in, coeffs == 2); } auto m = std::make_shared<TriangularMap<HS>>(b, coeffs == 2); if (coeffs == 1) { Vec c("c", m->numCoeffs); for (unsigned i = 0; i < m->numCoeffs; ++i) c(i) = symd("t", i); m->SetCoeffs(Kokkos::View<const double*, HS>(c)); } Stream s; std::shared_ptr<ConditionalMapBase<HS>> r; if (sym_choice("how", 2)) { std::shared_ptr<TriangularMap<HS>> t; put(s, m); get(s, t); r = t; } else { MP c = m; put(s, c); get(s, r); } sameMap(*m, *r, 1); sym_reach("triangular"); }
