// P14: identity maps; summarised maps over an arbitrary summary function and an arbitrary component
#include "omap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/IdentityMap.h"
HARNESS(identity) { unsigned in = 1 + sym_choice("in", TIER ? 4 : 3), out = 1 + sym_choice("out", in), N = 1 + sym_choice("points", 2), lo = sym_choice("lo", 5), e = in - out; IdentityMap<HS> T(in, out); sym_assert(T.inputDim == in && T.outputDim == out && T.numCoeffs == 0, "dimensions"); SMat x = symMat("x", in, N, sym_choice("layout", 5)), s = symMat("s", out, N, lo), r = symMat("r", out, N, lo), x1 = symMat("z", e, N), y = uninitMat("y", out, N, lo), g = uninitMat("g", in, N, lo), gl = uninitMat("gl", in, N, lo), inv = uninitMat("inv", out, N, lo), h = uninitMat("h", 0, N, lo); Vec l("l", N); for (unsigned k = 0; k < N; ++k) sym_uninit(&l(k), 8);
  T.EvaluateImpl(x, y); T.LogDeterminantImpl(x, SVec(l)); T.GradientImpl(x, s, g); T.InverseImpl(x1, r, inv); T.LogDeterminantInputGradImpl(x, gl); T.CoeffGradImpl(x, s, h); T.LogDeterminantCoeffGradImpl(x, h); SMat yr = T.Evaluate(CSMat(x)), ir = T.Inverse(CSMat(x1), CSMat(r)), hr = T.CoeffGrad(CSMat(x), CSMat(s)); Vec lr = T.LogDeterminant(CSMat(x)); sym_assert(hr.extent(0) == 0 && hr.extent(1) == N && yr.extent(0) == out && ir.extent(0) == out, "shapes");
  for (unsigned k = 0; k < N; ++k) { sym_assert_eq(l(k), 0.0, "log determinant"); sym_assert_eq(lr(k), 0.0, "log determinant (returned)"); for (unsigned i = 0; i < out; ++i) { sym_assert_eq(y(i, k), x(e + i, k), "value"); sym_assert_eq(yr(i, k), x(e + i, k), "value (returned)"); sym_assert_eq(inv(i, k), r(i, k), "inverse"); sym_assert_eq(ir(i, k), r(i, k), "inverse (returned)"); } for (unsigned j = 0; j < in; ++j) { sym_assert_eq(gl(j, k), 0.0, "log-determinant input gradient"); if (j < e) sym_assert_eq(g(j, k), 0.0, "gradient"); else sym_assert_eq(g(j, k), s(j - e, k), "gradient"); } } sym_reach("identity"); }
struct Cfg { unsigned m, r, nc, N, d; std::shared_ptr<SummarizedMap<HS>> T; V1 cv; SMat x;
  V1 sum(V1 const& z) const { V1 y; for (unsigned i = 0; i < r; ++i) y.push_back(oval(0, i, V1(), V1(z.begin(), z.begin() + m))); return y; }
  V1 full(unsigned k) const { V1 z = col(x, k, d), y = sum(z); y.push_back(z[m]); return y; } };
static Cfg setup(unsigned nl) { Cfg c; switch (sym_choice("shape", TIER ? 8 : 5)) { case 0: c.m = 1; c.r = 1; c.nc = 1; break; case 1: c.m = 2; c.r = 1; c.nc = 2; break; case 2: c.m = 1; c.r = 2; c.nc = 2; break; case 3: c.m = 3; c.r = 2; c.nc = 1; break; case 4: c.m = 2; c.r = 2; c.nc = 0; break; case 5: c.m = 2; c.r = 3; c.nc = 3; break; case 6: c.m = 4; c.r = 1; c.nc = 1; break; default: c.m = 3; c.r = 3; c.nc = 2; }
  c.N = 1 + sym_choice("points", 2); c.d = c.m + 1; auto f = std::make_shared<OMap>(0, c.m, c.r, 0); auto g = std::make_shared<OMap>(1, c.r + 1, 1, c.nc); c.T = std::make_shared<SummarizedMap<HS>>(f, g); sym_assert(c.T->inputDim == c.d && c.T->outputDim == 1 && c.T->numCoeffs == c.nc, "dimensions"); Vec v = symVec("c", c.nc); for (unsigned i = 0; i < c.nc; ++i) c.cv.push_back(v(i)); if (sym_choice("wrap", 2)) c.T->WrapCoeffs(v); else c.T->SetCoeffs(Kokkos::View<const double*, HS>(v)); c.x = symMat("x", c.d, c.N, sym_choice("layout", nl)); return c; }
HARNESS(summary) { Cfg c = setup(5); unsigned lo = sym_choice("lo", 5); SMat y = uninitMat("y", 1, c.N, lo), q = uninitMat("q", c.r + 1, c.N, lo); Vec l("l", c.N); for (unsigned k = 0; k < c.N; ++k) sym_uninit(&l(k), 8); c.T->EvaluateImpl(c.x, y); c.T->LogDeterminantImpl(c.x, SVec(l)); c.T->SummarizePts(c.x, q); SMat yr = c.T->Evaluate(CSMat(c.x)); Vec lr = c.T->LogDeterminant(CSMat(c.x));
  for (unsigned k = 0; k < c.N; ++k) { V1 z = c.full(k); for (unsigned i = 0; i <= c.r; ++i) sym_assert_eq(q(i, k), z[i], "summarised points"); sym_assert_eq(y(0, k), oval(1, 0, c.cv, z), "value"); sym_assert_eq(yr(0, k), oval(1, 0, c.cv, z), "value (returned)"); sym_assert_eq(l(k), odet(1, c.cv, z), "log determinant"); sym_assert_eq(lr(k), odet(1, c.cv, z), "log determinant (returned)"); } sym_reach("summary"); }
HARNESS(gradients) { Cfg c = setup(5); unsigned lo = sym_choice("lo", 5); SMat s = symMat("s", 1, c.N, lo), g = uninitMat("g", c.d, c.N, lo), h = uninitMat("h", c.nc, c.N, lo), gl = uninitMat("gl", c.d, c.N, lo), hl = uninitMat("hl", c.nc, c.N, lo); c.T->GradientImpl(c.x, s, g); c.T->CoeffGradImpl(c.x, s, h); c.T->LogDeterminantInputGradImpl(c.x, gl); c.T->LogDeterminantCoeffGradImpl(c.x, hl);
  for (unsigned k = 0; k < c.N; ++k) { V1 z = c.full(k); double f = oval(1, 0, c.cv, z), L = odet(1, c.cv, z); for (unsigned j = 0; j < c.d; ++j) { sym_assert_eq(g(j, k), s(0, k) * diffx(f, j, k), "input gradient"); sym_assert_eq(gl(j, k), diffx(L, j, k), "log-determinant input gradient"); } for (unsigned j = 0; j < c.nc; ++j) { sym_assert_eq(h(j, k), s(0, k) * diffc(f, j), "coefficient gradient"); sym_assert_eq(hl(j, k), diffc(L, j), "log-determinant coefficient gradient"); } } sym_reach("gradients"); }
HARNESS(sumInverse) { Cfg c = setup(1); unsigned lo = sym_choice("lo", 5), extra = sym_choice("extra", 2); SMat x1 = symMat("z", c.m + extra, c.N, lo), r = symMat("r", 1, c.N, lo), o = uninitMat("o", 1, c.N, lo); c.T->InverseImpl(x1, r, o); SMat ir = c.T->Inverse(CSMat(x1), CSMat(r)); for (unsigned k = 0; k < c.N; ++k) { double e = oinv(1, 0, c.cv, c.sum(col(x1, k, c.m)), col(r, k, 1)); sym_assert_eq(o(0, k), e, "inverse"); sym_assert_eq(ir(0, k), e, "inverse (returned)"); } sym_reach("sumInverse"); }
HARNESS(sumErrors) { unsigned m = 1 + sym_choice("m", 2), r = 1 + sym_choice("r", 3), in = 1 + sym_choice("in", 4), out = 1 + sym_choice("out", 2); auto f = std::make_shared<OMap>(0, m, r, 0); auto g = std::make_shared<OMap>(1, in, out, 1); bool t = throws([&] { SummarizedMap<HS> T(f, g); }); sym_assert(t == !(out == 1 && in == r + 1), "exactly the incompatible parts are rejected"); sym_reach("sumErrors"); }
