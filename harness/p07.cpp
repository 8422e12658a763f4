// P07: gradients of a monotone component
#include "mono.h"
static void junk(Mat m, const char* n) { if (sym_choice("junk", 2)) { for (unsigned j = 0; j < m.extent(1); ++j) for (unsigned i = 0; i < m.extent(0); ++i) m(i, j) = symd(n, i, j); } else sym_uninit(m.data(), 8ul * m.extent(0) * m.extent(1)); }
HARNESS(coeff_jacobian) { Setup s(1 + sym_choice("npts", 2)); auto m = make(s, true); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x; Vec e = uninitv("e", s.N); Mat J("J", s.n, s.N); junk(J, "junk"); m->CoeffJacobian(xs, cs, e, J);
  for (unsigned j = 0; j < s.N; ++j) { double v = s.value(j); for (unsigned i = 0; i < s.n; ++i) sym_assert_eq(J(i, j), sym_diff(v, nm("c", i).c_str()), "coefficient Jacobian is exact"); } sym_reach("coeff"); }
HARNESS(input_jacobian) { Setup s(1 + sym_choice("npts", 2)); auto m = make(s, true); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x; Vec e = uninitv("e", s.N); Mat J("J", dim, s.N); junk(J, "junk"); m->InputJacobian(xs, cs, e, J);
  for (unsigned j = 0; j < s.N; ++j) { double v = s.value(j); for (unsigned i = 0; i < dim; ++i) sym_assert_eq(J(i, j), sym_diff(v, nm("x", i, j).c_str()), "input Jacobian is exact"); } sym_reach("input"); }
HARNESS(sensitivity) { Setup s(2); auto m = make(s, sym_choice("cont", 2)); Mat se("s", 1, s.N); for (unsigned j = 0; j < s.N; ++j) se(0, j) = symd("s", 0, j); Mat g("g", dim, s.N), cg("cg", s.n, s.N); junk(g, "junk"); junk(cg, "junkc");
  m->GradientImpl(s.x, se, g); m->CoeffGradImpl(s.x, se, cg); Mat G = m->Gradient(s.x, se), CG = m->CoeffGrad(s.x, se);
  for (unsigned j = 0; j < s.N; ++j) { double v = se(0, j) * s.value(j); for (unsigned i = 0; i < dim; ++i) { double r = sym_diff(v, nm("x", i, j).c_str()); sym_assert_eq(g(i, j), r, "input gradient is exact"); sym_assert_eq(G(i, j), r, "input gradient (public entry)"); }
    for (unsigned i = 0; i < s.n; ++i) { double r = sym_diff(v, nm("c", i).c_str()); sym_assert_eq(cg(i, j), r, "coefficient gradient is exact"); sym_assert_eq(CG(i, j), r, "coefficient gradient (public entry)"); } } sym_reach("sensitivity"); }
HARNESS(logdet_continuous) { Setup s(1 + sym_choice("npts", 2)); auto m = make(s, true); StridedMatrix<const double, HS> xs = s.x; StridedVector<const double, HS> cs = s.cv; Mat g("g", s.n, s.N), h("h", dim, s.N); junk(g, "junk"); junk(h, "junkh"); m->LogDeterminantCoeffGradImpl(xs, g); m->LogDeterminantInputGradImpl(xs, h);
  for (unsigned j = 0; j < s.N; ++j) { double l = std::log(s.slope(j, s.x(dim - 1, j))); for (unsigned i = 0; i < s.n; ++i) sym_assert_eq(g(i, j), sym_diff(l, nm("c", i).c_str()), "log-determinant coefficient gradient is exact");
    for (unsigned i = 0; i < dim; ++i) sym_assert_eq(h(i, j), sym_diff(l, nm("x", i, j).c_str()), "log-determinant input gradient is exact"); } sym_reach("logdet"); }
HARNESS(logdet_discrete) { Setup s(1); auto m = make(s, false); StridedMatrix<const double, HS> xs = s.x; double d = s.dslope(0); sym_assume(d > 0); Mat g("g", s.n, 1); junk(g, "junk"); m->LogDeterminantCoeffGradImpl(xs, g);
  for (unsigned i = 0; i < s.n; ++i) sym_assert_eq(g(i, 0), sym_diff(std::log(d), nm("c", i).c_str()), "log-determinant coefficient gradient is exact (discrete)");
  Mat G = m->LogDeterminantCoeffGrad(s.x); for (unsigned i = 0; i < s.n; ++i) sym_assert_eq(G(i, 0), g(i, 0), "log-determinant coefficient gradient (public entry)");
  Mat h("h", dim, 1); sym_assert(throws([&]() { m->LogDeterminantInputGradImpl(xs, h); }), "unavailable discrete input gradient is an error"); sym_reach("logdet discrete"); }
HARNESS(mixed) { Setup s(1); auto m = make(s, true); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x; double c = s.slope(0, s.x(dim - 1, 0)), d = s.dslope(0); sym_assert_eq(d, sym_diff(s.value(0), nm("x", dim - 1, 0).c_str()), "slope formula");
  Mat J("J", s.n, 1), K("K", s.n, 1), H("H", dim, 1); junk(J, "junk"); junk(K, "junkk"); junk(H, "junkh"); m->ContinuousMixedJacobian(xs, cs, J); m->DiscreteMixedJacobian(xs, cs, K); m->ContinuousMixedInputJacobian(xs, cs, H);
  for (unsigned i = 0; i < s.n; ++i) { sym_assert_eq(J(i, 0), sym_diff(c, nm("c", i).c_str()), "mixed Jacobian is exact"); sym_assert_eq(K(i, 0), sym_diff(d, nm("c", i).c_str()), "discrete mixed Jacobian is exact"); } for (unsigned i = 0; i < dim; ++i) sym_assert_eq(H(i, 0), sym_diff(c, nm("x", i, 0).c_str()), "mixed input Jacobian is exact"); sym_reach("mixed"); }
// wrong shapes are rejected
HARNESS(shapes) { Setup s(2); auto m = make(s, true); unsigned a = sym_choice("which", 4); Mat se("s", a == 0 ? 2 : 1, a == 1 ? 3 : 2), g("g", a == 2 ? dim + 1 : dim, a == 3 ? 1 : 2), cg("cg", a == 2 ? s.n + 1 : s.n, a == 3 ? 1 : 2);
  sym_assert(throws([&]() { m->GradientImpl(s.x, se, g); }), "Gradient rejects wrong shapes"); sym_assert(throws([&]() { m->CoeffGradImpl(s.x, se, cg); }), "CoeffGrad rejects wrong shapes"); sym_reach("shapes"); }
