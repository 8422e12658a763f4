// P12: composed maps over arbitrary layers, every checkpoint limit
#include "omap.h"
#include "MParT/ComposedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/IdentityMap.h"
extern "C" long vk_live;
// coefficient counts of the layers; -1 is the library's identity map
struct Cfg { unsigned d, N, nc = 0, n; int limit; std::vector<int> k; std::vector<unsigned> c0; std::vector<MapPtr> maps; std::shared_ptr<ComposedMap<HS>> T; Vec c; V1 cv; SMat x;
  V1 coeffs(unsigned i) const { V1 v; for (int j = 0; j < k[i]; ++j) v.push_back(cv[c0[i] + j]); return v; }
  V1 layer(unsigned i, V1 const& z) const { if (k[i] < 0) return z; V1 y; for (unsigned r = 0; r < d; ++r) y.push_back(oval(i, r, coeffs(i), z)); return y; }
  V1 val(unsigned p) const { V1 z = col(x, p, d); for (unsigned i = 0; i < n; ++i) z = layer(i, z); return z; }
  double ld(unsigned p) const { V1 z = col(x, p, d); double s = 0; for (unsigned i = 0; i < n; ++i) { if (k[i] >= 0) s += odet(i, coeffs(i), z); z = layer(i, z); } return s; } };
static Cfg setup(bool heavy) { Cfg c; switch (sym_choice("layers", TIER ? 12 : 8)) {
  case 0: c.d = 1; c.k = {2}; break; case 1: c.d = 2; c.k = {1, 2}; break; case 2: c.d = 1; c.k = {1, -1, 2}; break; case 3: c.d = 1; c.k = {1, 0, 1}; break; case 4: c.d = 2; c.k = {-1, 1}; break; case 5: c.d = 1; c.k = {1, 1, 1, 1}; break; case 6: c.d = 1; c.k = {0, 0}; break; case 7: c.d = 1; c.k = {2, -1}; break;
  case 8: c.d = 2; c.k = {2, 0, 1}; break; case 9: c.d = 1; c.k = {1, 1, 0, 1, 1}; break; case 10: c.d = 3; c.k = {1, 1}; break; default: c.d = 1; c.k = {-1, 1, -1, -1, 1}; }
  c.n = c.k.size(); c.N = 1 + sym_choice("points", heavy && !TIER ? 1 : 2); c.limit = sym_choice("limit", c.n + 2); for (unsigned i = 0; i < c.n; ++i) { c.c0.push_back(c.nc); if (c.k[i] > 0) c.nc += c.k[i]; if (c.k[i] < 0) c.maps.push_back(std::make_shared<IdentityMap<HS>>(c.d, c.d)); else c.maps.push_back(std::make_shared<OMap>(i, c.d, c.d, c.k[i])); }
  c.T = std::make_shared<ComposedMap<HS>>(c.maps, false, c.limit); sym_assert(c.T->inputDim == c.d && c.T->outputDim == c.d && c.T->numCoeffs == c.nc, "dimensions"); c.c = symVec("c", c.nc); for (unsigned i = 0; i < c.nc; ++i) c.cv.push_back(c.c(i)); c.T->SetCoeffs(Kokkos::View<const double*, HS>(c.c)); c.x = symMat("x", c.d, c.N, sym_choice("layout", heavy ? 2 : 5)); return c; }
HARNESS(value) { Cfg c = setup(false); SMat y = uninitMat("y", c.d, c.N, sym_choice("lo", 5)); c.T->EvaluateImpl(c.x, y); Vec l("l", c.N); for (unsigned k = 0; k < c.N; ++k) sym_uninit(&l(k), 8); c.T->LogDeterminantImpl(c.x, SVec(l)); SMat z = c.T->Evaluate(CSMat(c.x));
  for (unsigned k = 0; k < c.N; ++k) { V1 e = c.val(k); for (unsigned r = 0; r < c.d; ++r) { sym_assert_eq(y(r, k), e[r], "value"); sym_assert_eq(z(r, k), e[r], "value (returned)"); } sym_assert_eq(l(k), c.ld(k), "log determinant"); } sym_reach("value"); }
HARNESS(gradients) { Cfg c = setup(true); unsigned lo = sym_choice("lo", 3); SMat s = symMat("s", c.d, c.N, lo), g = uninitMat("g", c.d, c.N, lo), h = uninitMat("h", c.nc, c.N, lo); c.T->GradientImpl(c.x, s, g); c.T->CoeffGradImpl(c.x, s, h);
  for (unsigned k = 0; k < c.N; ++k) { V1 e = c.val(k); double f = 0; for (unsigned r = 0; r < c.d; ++r) f += s(r, k) * e[r]; for (unsigned j = 0; j < c.d; ++j) sym_assert_eq(g(j, k), diffx(f, j, k), "input gradient"); for (unsigned j = 0; j < c.nc; ++j) sym_assert_eq(h(j, k), diffc(f, j), "coefficient gradient"); } sym_reach("gradients"); }
HARNESS(logdetgrads) { Cfg c = setup(true); unsigned lo = sym_choice("lo", 3); SMat g = uninitMat("g", c.d, c.N, lo), h = uninitMat("h", c.nc, c.N, lo); c.T->LogDeterminantInputGradImpl(c.x, g); c.T->LogDeterminantCoeffGradImpl(c.x, h);
  for (unsigned k = 0; k < c.N; ++k) { double f = c.ld(k); for (unsigned j = 0; j < c.d; ++j) sym_assert_eq(g(j, k), diffx(f, j, k), "log-determinant input gradient"); for (unsigned j = 0; j < c.nc; ++j) sym_assert_eq(h(j, k), diffc(f, j), "log-determinant coefficient gradient"); } sym_reach("logdetgrads"); }
HARNESS(inverse) { Cfg c = setup(false); unsigned lo = sym_choice("lo", 5); SMat x1 = symMat("z", sym_choice("rows", 2) ? c.d : 0, c.N), r = symMat("r", c.d, c.N, lo), out = uninitMat("out", c.d, c.N, lo); c.T->InverseImpl(x1, r, out);
  for (unsigned k = 0; k < c.N; ++k) { V1 t = col(r, k, c.d); for (unsigned i = c.n; i-- > 0;) if (c.k[i] >= 0) { V1 y; for (unsigned j = 0; j < c.d; ++j) y.push_back(oinv(i, j, c.coeffs(i), V1(), t)); t = y; } for (unsigned j = 0; j < c.d; ++j) sym_assert_eq(out(j, k), t[j], "inverse"); } sym_reach("inverse"); }
HARNESS(affine) { unsigned d = 1 + sym_choice("d", 2); SMat A0 = symMat("A", d, d), A1 = symMat("B", d, d); Vec b0 = symVec("a", d), b1 = symVec("b", d); std::vector<V1> m0(d, V1(d)), m1(d, V1(d)); for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) { m0[i][j] = A0(i, j); m1[i][j] = A1(i, j); } double d0 = det(m0), d1 = det(m1); sym_assume(((d0 > 0) | (d0 < 0)) & ((d1 > 0) | (d1 < 0)));
  std::vector<MapPtr> cs = {std::make_shared<AffineMap<HS>>(A0, b0), std::make_shared<AffineMap<HS>>(A1, b1)}; auto T = std::make_shared<ComposedMap<HS>>(cs); SMat x1 = symMat("x", 0, 1), r = symMat("r", d, 1); SMat y = T->Inverse(CSMat(x1), CSMat(r)), v = T->Evaluate(CSMat(y)); Vec l = T->LogDeterminant(CSMat(y)); for (unsigned i = 0; i < d; ++i) sym_assert_eq(v(i, 0), r(i, 0), "evaluating the inverse recovers the targets"); sym_assert_eq(l(0), std::log(d0 < 0 ? -d0 : d0) + std::log(d1 < 0 ? -d1 : d1), "log determinant of affine layers"); sym_reach("affine"); }
// many cheap layers x -> x + c_i: each layer must be handed its own input whatever the checkpoint limit, and no more than the allowed number of states may be alive
static long peak; static double x0; static const double cs_[24] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608};
struct Shift : ConditionalMapBase<HS> { unsigned i; Shift(unsigned i_) : ConditionalMapBase<HS>(1, 1, 1), i(i_) {} double pre() const { double s = x0; for (unsigned j = 0; j < i; ++j) s += cs_[j]; return s; } void check(CSMat const& p) { sym_assert_eq(p(0, 0), pre(), "every layer is handed its own input"); if (vk_live > peak) peak = vk_live; }
  void EvaluateImpl(CSMat const& p, SMat o) override { check(p); o(0, 0) = p(0, 0) + cs_[i]; } void LogDeterminantImpl(CSMat const& p, SVec o) override { check(p); o(0) = p(0, 0); } void InverseImpl(CSMat const&, CSMat const& r, SMat o) override { o(0, 0) = r(0, 0) - cs_[i]; }
  void GradientImpl(CSMat const& p, CSMat const& s, SMat o) override { check(p); o(0, 0) = s(0, 0) * (i + 2); } void CoeffGradImpl(CSMat const& p, CSMat const& s, SMat o) override { check(p); o(0, 0) = s(0, 0); } void LogDeterminantCoeffGradImpl(CSMat const& p, SMat o) override { check(p); o(0, 0) = i; } void LogDeterminantInputGradImpl(CSMat const& p, SMat o) override { check(p); o(0, 0) = 1.0; } };
HARNESS(checkpoints) { unsigned n = 1 + sym_choice("layers", TIER ? 24 : 14), m = 1 + sym_choice("limit", n + 1), what = sym_choice("call", 4); x0 = sym_double("x"); std::vector<MapPtr> maps; for (unsigned i = 0; i < n; ++i) maps.push_back(std::make_shared<Shift>(i)); Vec c("c", n); for (unsigned i = 0; i < n; ++i) c(i) = 0.0; Mat x("x", 1, 1), s("s", 1, 1), g("g", 1, 1), h("h", n, 1), g1("g1", 1, 1), h1("h1", n, 1); x(0, 0) = x0; s(0, 0) = sym_double("s"); std::vector<long> used;
  for (int round = 0; round < 2; ++round) { auto T = std::make_shared<ComposedMap<HS>>(maps, false, round ? (int)m : 1); T->SetCoeffs(Kokkos::View<const double*, HS>(c)); sym_uninit(g.data(), 8); sym_uninit(h.data(), 8 * n); peak = 0; long before = vk_live; if (what == 0) T->GradientImpl(x, s, g); else if (what == 1) T->CoeffGradImpl(x, s, h); else if (what == 2) T->LogDeterminantCoeffGradImpl(x, h); else T->LogDeterminantInputGradImpl(x, g); used.push_back(peak - before); if (!round) { Kokkos::deep_copy(g1, g); Kokkos::deep_copy(h1, h); } }
  if (what == 0 || what == 3) sym_assert_eq(g(0, 0), g1(0, 0), "the result does not depend on the checkpoint limit"); else for (unsigned i = 0; i < n; ++i) sym_assert_eq(h(i, 0), h1(i, 0), "the result does not depend on the checkpoint limit");
  /* a state already discarded may stay referenced by the log-determinant loops for one more step */ sym_assert(used[1] - used[0] <= 8 * (long)(m - 1 + (what >= 2)), "no more states than allowed are stored"); sym_reach("checkpoints"); }
HARNESS(errors) { unsigned i0 = 1 + sym_choice("in0", 3), o0 = 1 + sym_choice("out0", 3), i1 = 1 + sym_choice("in1", 3), o1 = 1 + sym_choice("out1", 3); bool ok = o0 == i0 && o1 == i1 && i1 == o0; std::vector<MapPtr> cs = {std::make_shared<OMap>(0, i0, o0, 1), std::make_shared<OMap>(1, i1, o1, 1)}; bool t = throws([&] { ComposedMap<HS> T(cs); }); sym_assert(t == !ok, "exactly the incompatible layers are rejected"); sym_reach("errors"); }
