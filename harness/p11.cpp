// P11: triangular maps over arbitrary blocks
#include "omap.h"
#include "MParT/TriangularMap.h"
#include "MParT/AffineMap.h"
struct Blk { unsigned out, nc; };
struct Cfg { unsigned lead, N, ip = 0, op = 0, nc = 0; std::vector<Blk> b; std::vector<unsigned> in, c0, o0; std::vector<MapPtr> comps; std::shared_ptr<TriangularMap<HS>> T; Vec c; SMat x;
  V1 coeffs(unsigned i) const { V1 v; for (unsigned j = 0; j < b[i].nc; ++j) v.push_back(cv[c0[i] + j]); return v; } V1 cv;
  V1 xin(unsigned i, unsigned k) const { return col(x, k, in[i]); }
  double val(unsigned r, unsigned k) const { for (unsigned i = 0; i < b.size(); ++i) if (r < o0[i] + b[i].out) return oval(i, r - o0[i], coeffs(i), xin(i, k)); return 0; }
  double ld(unsigned k) const { double s = 0; for (unsigned i = 0; i < b.size(); ++i) s += odet(i, coeffs(i), xin(i, k)); return s; } };
static void dims(Cfg& c) { static const int NC = TIER ? 12 : 8; switch (sym_choice("blocks", NC)) {
  case 0: c.lead = 0; c.b = {{1, 2}}; break; case 1: c.lead = 1; c.b = {{1, 1}, {1, 2}}; break; case 2: c.lead = 0; c.b = {{1, 1}, {2, 2}}; break; case 3: c.lead = 2; c.b = {{2, 1}, {1, 1}}; break;
  case 4: c.lead = 0; c.b = {{1, 1}, {1, 0}, {1, 2}}; break; case 5: c.lead = 1; c.b = {{2, 0}, {1, 1}}; break; case 6: c.lead = 1; c.b = {{1, 0}, {1, 0}}; break; case 7: c.lead = 0; c.b = {{2, 3}, {1, 0}, {2, 1}}; break;
  case 8: c.lead = 3; c.b = {{1, 2}}; break; case 9: c.lead = 0; c.b = {{3, 1}, {1, 1}}; break; case 10: c.lead = 1; c.b = {{1, 1}, {1, 2}, {1, 1}, {1, 1}}; break; default: c.lead = 2; c.b = {{1, 1}, {2, 1}, {3, 2}}; } }
static Cfg setup(unsigned maxPts = 2) { Cfg c; dims(c); c.N = 1 + sym_choice("points", maxPts); c.ip = c.lead; for (unsigned i = 0; i < c.b.size(); ++i) { c.ip += c.b[i].out; c.in.push_back(c.ip); c.c0.push_back(c.nc); c.o0.push_back(c.op); c.op += c.b[i].out; c.nc += c.b[i].nc; c.comps.push_back(std::make_shared<OMap>(i, c.ip, c.b[i].out, c.b[i].nc)); }
  c.T = std::make_shared<TriangularMap<HS>>(c.comps); sym_assert(c.T->inputDim == c.ip && c.T->outputDim == c.op && c.T->numCoeffs == c.nc, "dimensions"); c.c = symVec("c", c.nc); for (unsigned i = 0; i < c.nc; ++i) c.cv.push_back(c.c(i)); if (c.nc || sym_choice("setEmpty", 2)) c.T->SetCoeffs(Kokkos::View<const double*, HS>(c.c)); c.x = symMat("x", c.ip, c.N, sym_choice("layout", 5)); return c; }
HARNESS(value) { Cfg c = setup(); SMat y = uninitMat("y", c.op, c.N, sym_choice("lo", 5)); c.T->EvaluateImpl(c.x, y); Vec l("l", c.N); for (unsigned k = 0; k < c.N; ++k) sym_uninit(&l(k), 8); c.T->LogDeterminantImpl(c.x, SVec(l)); SMat z = c.T->Evaluate(CSMat(c.x)); Vec m = c.T->LogDeterminant(CSMat(c.x));
  for (unsigned k = 0; k < c.N; ++k) { for (unsigned r = 0; r < c.op; ++r) { sym_assert_eq(y(r, k), c.val(r, k), "value"); sym_assert_eq(z(r, k), c.val(r, k), "value (returned)"); } sym_assert_eq(l(k), c.ld(k), "log determinant"); sym_assert_eq(m(k), c.ld(k), "log determinant (returned)"); } sym_reach("value"); }
HARNESS(gradients) { Cfg c = setup(TIER ? 2 : 1); unsigned lo = sym_choice("lo", 3); SMat s = symMat("s", c.op, c.N, lo), g = uninitMat("g", c.ip, c.N, lo), h = uninitMat("h", c.nc, c.N, lo); c.T->GradientImpl(c.x, s, g); c.T->CoeffGradImpl(c.x, s, h);
  for (unsigned k = 0; k < c.N; ++k) { double f = 0; for (unsigned r = 0; r < c.op; ++r) f += s(r, k) * c.val(r, k); for (unsigned j = 0; j < c.ip; ++j) sym_assert_eq(g(j, k), diffx(f, j, k), "input gradient"); for (unsigned j = 0; j < c.nc; ++j) sym_assert_eq(h(j, k), diffc(f, j), "coefficient gradient"); } sym_reach("gradients"); }
HARNESS(logdetgrads) { Cfg c = setup(TIER ? 2 : 1); unsigned lo = sym_choice("lo", 3); SMat g = uninitMat("g", c.ip, c.N, lo), h = uninitMat("h", c.nc, c.N, lo); c.T->LogDeterminantInputGradImpl(c.x, g); c.T->LogDeterminantCoeffGradImpl(c.x, h);
  for (unsigned k = 0; k < c.N; ++k) { double f = c.ld(k); for (unsigned j = 0; j < c.ip; ++j) sym_assert_eq(g(j, k), diffx(f, j, k), "log-determinant input gradient"); for (unsigned j = 0; j < c.nc; ++j) sym_assert_eq(h(j, k), diffc(f, j), "log-determinant coefficient gradient"); } sym_reach("logdetgrads"); }
// the inverse solves block after block, each with the inputs found so far
HARNESS(inverse) { Cfg c = setup(); unsigned lo = sym_choice("lo", 5); bool full = sym_choice("rows", 2); unsigned rows = full ? c.ip : c.lead; SMat x1 = layoutMat("x1", rows, c.N, lo), r = symMat("r", c.op, c.N, lo), out = uninitMat("out", c.op, c.N, lo); for (unsigned i = 0; i < rows; ++i) for (unsigned k = 0; k < c.N; ++k) x1(i, k) = (double)c.x(i, k);
  c.T->InverseImpl(x1, r, out); SMat ip = symMat("w", c.ip, c.N, lo); for (unsigned i = 0; i < c.lead; ++i) for (unsigned k = 0; k < c.N; ++k) ip(i, k) = (double)c.x(i, k); c.T->InverseInplace(ip, r); SMat ret = c.T->Inverse(CSMat(x1), CSMat(r));
  for (unsigned k = 0; k < c.N; ++k) { V1 known = col(c.x, k, c.lead); unsigned q = 0; for (unsigned i = 0; i < c.b.size(); ++i) { V1 t; for (unsigned j = 0; j < c.b[i].out; ++j) t.push_back(r(c.o0[i] + j, k)); V1 y; for (unsigned j = 0; j < c.b[i].out; ++j) y.push_back(oinv(i, j, c.coeffs(i), known, t)); for (double v : y) { known.push_back(v); sym_assert_eq(out(q, k), v, "inverse"); sym_assert_eq(ret(q, k), v, "inverse (returned)"); sym_assert_eq(ip(c.lead + q, k), v, "inverse in place"); ++q; } } for (unsigned i = 0; i < c.lead; ++i) sym_assert_eq(ip(i, k), c.x(i, k), "leading inputs are kept"); } sym_reach("inverse"); }
// real affine blocks: evaluating the inverse recovers the targets; the determinants multiply
HARNESS(affine) { unsigned lead = sym_choice("lead", 2); bool two = sym_choice("two", 2); unsigned o1 = two ? 2 : 1; SMat A0 = symMat("A", 1, lead + 1), A1 = symMat("B", o1, lead + 1 + o1); Vec b0 = symVec("a", 1), b1 = symVec("b", o1); double d0 = A0(0, lead); std::vector<V1> m(o1, V1(o1)); for (unsigned i = 0; i < o1; ++i) for (unsigned j = 0; j < o1; ++j) m[i][j] = A1(i, lead + 1 + j); double d1 = det(m); sym_assume(((d0 > 0) | (d0 < 0)) & ((d1 > 0) | (d1 < 0)));
  std::vector<MapPtr> cs; cs.push_back(std::make_shared<AffineMap<HS>>(A0, b0)); cs.push_back(std::make_shared<AffineMap<HS>>(A1, b1)); auto T = std::make_shared<TriangularMap<HS>>(cs); unsigned lo = sym_choice("layout", 3); SMat x1 = symMat("x", lead, 2, lo), r = symMat("r", 1 + o1, 2, lo); SMat y = T->Inverse(CSMat(x1), CSMat(r)); Mat full("full", lead + 1 + o1, 2); for (unsigned k = 0; k < 2; ++k) { for (unsigned i = 0; i < lead; ++i) full(i, k) = (double)x1(i, k); for (unsigned i = 0; i < 1 + o1; ++i) full(lead + i, k) = (double)y(i, k); }
  SMat v = T->Evaluate(full); Vec l = T->LogDeterminant(full); for (unsigned k = 0; k < 2; ++k) { for (unsigned i = 0; i < 1 + o1; ++i) sym_assert_eq(v(i, k), r(i, k), "evaluating the inverse recovers the targets"); sym_assert_eq(l(k), std::log(d0 < 0 ? -d0 : d0) + std::log(d1 < 0 ? -d1 : d1), "log determinant of affine blocks"); } sym_reach("affine"); }
// a triangular map as a block of another one
HARNESS(nested) { std::vector<MapPtr> in = {std::make_shared<OMap>(0, 2, 1, 1), std::make_shared<OMap>(1, 4, 2, 1)}; auto t1 = std::make_shared<TriangularMap<HS>>(in); std::vector<MapPtr> all = {t1, std::make_shared<OMap>(2, 5, 1, 2)}; auto T = std::make_shared<TriangularMap<HS>>(all); sym_assert(T->inputDim == 5 && T->outputDim == 4 && T->numCoeffs == 4, "dimensions"); Vec c = symVec("c", 4); T->SetCoeffs(Kokkos::View<const double*, HS>(c)); SMat x = symMat("x", 5, 1), s = symMat("s", 4, 1); V1 cc[3] = {{c(0)}, {c(1)}, {c(2), c(3)}}; V1 x2 = col(x, 0, 2), x4 = col(x, 0, 4), x5 = col(x, 0, 5); V1 e = {oval(0, 0, cc[0], x2), oval(1, 0, cc[1], x4), oval(1, 1, cc[1], x4), oval(2, 0, cc[2], x5)}; SMat y = T->Evaluate(CSMat(x)); for (unsigned i = 0; i < 4; ++i) sym_assert_eq(y(i, 0), e[i], "value of nested maps");
  double f = 0; for (unsigned i = 0; i < 4; ++i) f += s(i, 0) * e[i]; double l = odet(0, cc[0], x2) + odet(1, cc[1], x4) + odet(2, cc[2], x5); SMat g = T->Gradient(CSMat(x), CSMat(s)), h = T->CoeffGrad(CSMat(x), CSMat(s)), gl = T->LogDeterminantInputGrad(CSMat(x)), hl = T->LogDeterminantCoeffGrad(CSMat(x)); sym_assert_eq(T->LogDeterminant(CSMat(x))(0), l, "log determinant of nested maps"); for (unsigned i = 0; i < 5; ++i) { sym_assert_eq(g(i, 0), diffx(f, i, 0), "gradient of nested maps"); sym_assert_eq(gl(i, 0), diffx(l, i, 0), "log-determinant gradient of nested maps"); } for (unsigned i = 0; i < 4; ++i) { sym_assert_eq(h(i, 0), diffc(f, i), "coefficient gradient of nested maps"); sym_assert_eq(hl(i, 0), diffc(l, i), "log-determinant coefficient gradient of nested maps"); }
  SMat r = symMat("r", 4, 1), x1 = symMat("z", 1, 1); SMat w = T->Inverse(CSMat(x1), CSMat(r)); V1 k = {x1(0, 0)}; double w0 = oinv(0, 0, cc[0], k, {r(0, 0)}); k.push_back(w0); double w1 = oinv(1, 0, cc[1], k, {r(1, 0), r(2, 0)}), w2 = oinv(1, 1, cc[1], k, {r(1, 0), r(2, 0)}); k.push_back(w1); k.push_back(w2); double w3 = oinv(2, 0, cc[2], k, {r(3, 0)}); sym_assert_eq(w(0, 0), w0, "inverse of nested maps"); sym_assert_eq(w(1, 0), w1, "inverse of nested maps"); sym_assert_eq(w(2, 0), w2, "inverse of nested maps"); sym_assert_eq(w(3, 0), w3, "inverse of nested maps"); sym_reach("nested"); }
// incompatible blocks are rejected
HARNESS(errors) { unsigned i0 = 1 + sym_choice("in0", 3), o0 = 1 + sym_choice("out0", 3), i1 = 1 + sym_choice("in1", 5), o1 = 1 + sym_choice("out1", 3); bool ok = o0 <= i0 && o1 <= i1 && i1 == i0 + o1; std::vector<MapPtr> cs = {std::make_shared<OMap>(0, i0, o0, 1), std::make_shared<OMap>(1, i1, o1, 1)}; bool t = throws([&] { TriangularMap<HS> T(cs); }); sym_assert(t == !ok, "exactly the incompatible blocks are rejected"); sym_reach("errors"); }
