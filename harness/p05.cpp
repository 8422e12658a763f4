// P05: value of a monotone component
#include "mono.h"
HARNESS(value) { Setup s(1 + sym_choice("npts", 2)); auto m = make(s, sym_choice("cont", 2)); Mat o = uninit("o", 1, s.N);
  sym_assert(m->inputDim == dim && m->outputDim == 1 && m->numCoeffs == s.n, "dimensions");
  m->EvaluateImpl(s.x, o); Mat y = m->Evaluate(s.x);
  for (unsigned j = 0; j < s.N; ++j) { double v = s.value(j); sym_assert_eq(o(0, j), v, "value is offset plus integral of the slope"); sym_assert_eq(y(0, j), v, "value through the public entry"); } sym_reach("value"); }
// the value every Jacobian routine returns alongside its derivative is the same value
HARNESS(companions) { Setup s(1); auto m = make(s, true); double v = s.value(0); StridedVector<const double, HS> cs = s.cv; StridedMatrix<const double, HS> xs = s.x;
  { Vec e = uninitv("e", 1), d = uninitv("d", 1); m->DiscreteDerivative(xs, cs, e, d); sym_assert_eq(e(0), v, "value from DiscreteDerivative"); }
  { Vec e = uninitv("e", 1); Mat J = uninit("J", s.n, 1); m->CoeffJacobian(xs, cs, e, J); sym_assert_eq(e(0), v, "value from CoeffJacobian"); }
  { Vec e = uninitv("e", 1); Mat J = uninit("J", dim, 1); m->InputJacobian(xs, cs, e, J); sym_assert_eq(e(0), v, "value from InputJacobian"); } sym_reach("companions"); }
HARNESS(at_zero) { Setup s(1); s.x(dim - 1, 0) = 0.0; auto m = make(s, true); Mat o = uninit("o", 1, 1); m->EvaluateImpl(s.x, o); sym_assert_eq(o(0, 0), expn<OB>(s.c, s.pt(0), 0.0, 0), "value at zero is the offset"); sym_reach("zero"); }
// with the library's own rules: fixed rule, and adaptive rules (their own accepted answer for the integrand)
template <class Q> static void lib(Q q, Setup& s) { MonotoneComponent<Exp_, OpaquePos, Q, HS> m(Exp_(fixedOf()), q, true, s.eps, s.cv); Mat y = m.Evaluate(s.x);
  for (unsigned j = 0; j < s.N; ++j) { double xl = s.x(dim - 1, j), r; sym_uninit(&r, 8); q.SetDim(1); Vec w = uninitv("w", q.WorkspaceSize() + 1); q.Integrate(w.data(), [&](double t, double* o) { *o = xl * s.slope(j, t * xl); }, 0.0, 1.0, &r);
    sym_assert_eq(y(0, j), expn<OB>(s.c, s.pt(j), 0.0, 0) + r, "value with the library's quadrature"); } sym_reach("library quadrature"); }
HARNESS(library_cc) { Setup s(2); lib(ClenshawCurtisQuadrature<HS>(1 + sym_choice("points", TIER ? 5 : 3), 1, nullptr), s); }
HARNESS(library_cc_owned) { Setup s(1); lib(ClenshawCurtisQuadrature<HS>(3, 8), s); }
HARNESS(library_simpson) { Setup s(1); unsigned m = 1 + sym_choice("sub", 2); lib(AdaptiveSimpson<HS>(m, 1, nullptr, 1e-3, 1e-3, QuadError::First, 0), s); }
HARNESS(library_acc) { Setup s(1); unsigned m = 1 + sym_choice("sub", 2); lib(AdaptiveClenshawCurtis<HS>(1, m, 1, nullptr, 1e-3, 1e-3, QuadError::First, 0), s); }
