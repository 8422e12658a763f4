// P13: affine maps and functions
#include "views.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#define NLAY 5
struct Cfg { unsigned no, ni, N; int kind; SMat A; Vec b; };  // kind 0: A and b, 1: A only, 2: b only
static Cfg setup(bool big, bool square) { Cfg c; int k = sym_choice("shape", (big ? 5 : 4)); c.no = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 1 : k == 3 ? 2 : 3; c.ni = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 3 : 3; c.kind = sym_choice("parts", 3); c.N = 1 + sym_choice("points", 2);
  if (c.kind == 2) { if (c.ni != c.no) sym_stop(); } else c.A = symMat("A", c.no, c.ni, sym_choice("layoutA", 3)); if (c.kind != 1) c.b = symVec("b", c.no); return c; }
static double a(Cfg const& c, unsigned i, unsigned j) { return c.kind == 2 ? (i == j ? 1.0 : 0.0) : c.A(i, j); }
static double off(Cfg const& c, unsigned i) { return c.kind == 1 ? 0.0 : c.b(i); }
template <class T> static std::shared_ptr<T> make(Cfg const& c) { if (c.kind == 0) return std::make_shared<T>(c.A, c.b); if (c.kind == 1) return std::make_shared<T>(c.A); return std::make_shared<T>(SVec(c.b)); }
static double tail(Cfg const& c) { std::vector<std::vector<double>> m(c.no, std::vector<double>(c.no)); for (unsigned i = 0; i < c.no; ++i) for (unsigned j = 0; j < c.no; ++j) m[i][j] = a(c, i, c.ni - c.no + j); return det(m); }
template <class T> static void evalgrad(bool map) { Cfg c = setup(true, false); if (map && c.kind != 2) { double d = tail(c); sym_assume((d > 0) | (d < 0)); } auto m = make<T>(c);
  sym_assert(m->inputDim == c.ni && m->outputDim == c.no && m->numCoeffs == 0, "dimensions");
  // the map keeps its own copy
  std::vector<std::vector<double>> A(c.no, std::vector<double>(c.ni)); std::vector<double> b(c.no); for (unsigned i = 0; i < c.no; ++i) { b[i] = off(c, i); for (unsigned j = 0; j < c.ni; ++j) A[i][j] = a(c, i, j); }
  if (c.kind != 2) c.A(0, 0) = 77.0; if (c.kind != 1) c.b(0) = 78.0;
  int lay = sym_choice("layout", NLAY); SMat x = symMat("x", c.ni, c.N, lay), s = symMat("s", c.no, c.N, lay), y = uninitMat("y", c.no, c.N, lay), g = uninitMat("g", c.ni, c.N, lay);
  m->EvaluateImpl(x, y); m->GradientImpl(x, s, g);
  for (unsigned k = 0; k < c.N; ++k) { for (unsigned i = 0; i < c.no; ++i) { double r = b[i]; for (unsigned j = 0; j < c.ni; ++j) r += A[i][j] * x(j, k); sym_assert_eq(y(i, k), r, "value"); }
    for (unsigned j = 0; j < c.ni; ++j) { double r = 0; for (unsigned i = 0; i < c.no; ++i) r += A[i][j] * s(i, k); sym_assert_eq(g(j, k), r, "input gradient"); } }
  SMat cg = m->CoeffGrad(CSMat(x), CSMat(s)); sym_assert(cg.extent(0) == 0 && cg.extent(1) == c.N, "coefficient gradient is empty"); sym_reach("affine"); }
HARNESS(map) { evalgrad<AffineMap<HS>>(true); }
HARNESS(function) { evalgrad<AffineFunction<HS>>(false); }
HARNESS(inverse) { Cfg c = setup(TIER, false); if (c.kind != 2) { double d = tail(c); sym_assume((d > 0) | (d < 0)); } auto m = make<AffineMap<HS>>(c);
  int lay = sym_choice("layout", NLAY); unsigned lead = c.ni - c.no; bool full = sym_choice("rows", 2); SMat x1 = symMat("x", full ? c.ni : lead, c.N, lay), r = symMat("r", c.no, c.N, lay), r0 = layoutMat("r0", c.no, c.N, 0), out = uninitMat("out", c.no, c.N, lay); Kokkos::deep_copy(r0, r); m->InverseImpl(x1, r, out);
  for (unsigned k = 0; k < c.N; ++k) for (unsigned i = 0; i < c.no; ++i) { double v = off(c, i); for (unsigned j = 0; j < lead; ++j) v += a(c, i, j) * x1(j, k); for (unsigned j = 0; j < c.no; ++j) v += a(c, i, lead + j) * out(j, k); sym_assert_eq(v, r(i, k), "inverse solves the system"); sym_assert_eq(r(i, k), r0(i, k), "the targets are not modified"); } sym_reach("inverse"); }
HARNESS(logdet) { Cfg c = setup(true, false); double d = c.kind == 2 ? 1.0 : tail(c); sym_assume((d > 0) | (d < 0)); auto m = make<AffineMap<HS>>(c); SMat x = symMat("x", c.ni, c.N); Vec l("l", c.N); for (unsigned k = 0; k < c.N; ++k) sym_uninit(&l(k), 8); m->LogDeterminantImpl(x, SVec(l));
  double ad = d < 0 ? -d : d; for (unsigned k = 0; k < c.N; ++k) sym_assert_eq(l(k), std::log(ad), "log determinant");
  SMat g = uninitMat("g", c.ni, c.N, sym_choice("layout", 3)); m->LogDeterminantInputGradImpl(x, g); for (unsigned k = 0; k < c.N; ++k) for (unsigned j = 0; j < c.ni; ++j) sym_assert_eq(g(j, k), 0.0, "log-determinant gradient is zero");
  SMat h = m->LogDeterminantInputGrad(CSMat(x)), hc = m->LogDeterminantCoeffGrad(CSMat(x)); sym_assert(hc.extent(0) == 0 && hc.extent(1) == c.N, "log-determinant coefficient gradient is empty"); for (unsigned k = 0; k < c.N; ++k) for (unsigned j = 0; j < c.ni; ++j) sym_assert_eq(h(j, k), 0.0, "log-determinant gradient is zero (returned)"); sym_reach("logdet"); }
// the Eigen entry points allocate their result without initialising it
HARNESS(eigen) { Cfg c = setup(false, true); if (c.kind != 2) { double d = tail(c); sym_assume((d > 0) | (d < 0)); } auto m = make<AffineMap<HS>>(c); auto f = make<AffineFunction<HS>>(c); Eigen::RowMatrixXd x(c.ni, c.N), s(c.no, c.N); for (unsigned k = 0; k < c.N; ++k) { for (unsigned i = 0; i < c.ni; ++i) x(i, k) = symd("x", i, k); for (unsigned i = 0; i < c.no; ++i) s(i, k) = symd("s", i, k); }
  Eigen::RowMatrixXd y = m->Evaluate(x), g = m->Gradient(x, s), y2 = f->Evaluate(x), g2 = f->Gradient(x, s);
  for (unsigned k = 0; k < c.N; ++k) { for (unsigned i = 0; i < c.no; ++i) { double r = off(c, i); for (unsigned j = 0; j < c.ni; ++j) r += a(c, i, j) * x(j, k); sym_assert_eq(y(i, k), r, "value"); sym_assert_eq(y2(i, k), r, "function value"); }
    for (unsigned j = 0; j < c.ni; ++j) { double r = 0; for (unsigned i = 0; i < c.no; ++i) r += a(c, i, j) * s(i, k); sym_assert_eq(g(j, k), r, "gradient"); sym_assert_eq(g2(j, k), r, "function gradient"); } } sym_reach("eigen"); }
