// P04: positive bijectors
#include "harness.h"
#include "MParT/PositiveBijectors.h"
using namespace mpart;
template <class F, class R> static void bij(R ref) {
  double x = sym_double("x"); double y = F::Evaluate(x), d = F::Derivative(x), dd = F::SecondDerivative(x);
  sym_assert_eq(y, ref(x), "defined value");
  sym_assert(y > 0, "strictly positive"); sym_assert(d > 0, "derivative strictly positive");
  sym_assert_eq(d, sym_diff(y, "x"), "derivative exact"); sym_assert_eq(dd, sym_diff(d, "x"), "second derivative exact");
  sym_assert_eq(F::Inverse(y), x, "Inverse undoes Evaluate"); sym_reach("forward");
}
template <class F> static void back() { double y = sym_double("y"); sym_assume(y > 0); sym_assert_eq(F::Evaluate(F::Inverse(y)), y, "Evaluate undoes Inverse"); sym_reach("backward"); }
template <class F> static void mono() { double a = sym_double("a"), b = sym_double("b"); sym_assume(a < b); sym_assert(F::Evaluate(a) < F::Evaluate(b), "strictly increasing"); sym_reach("mono"); }
HARNESS(softplus) { bij<SoftPlus>([](double x) { return std::log(1.0 + std::exp(x)); }); }
HARNESS(exp) { bij<Exp>([](double x) { return std::exp(x); }); }
HARNESS(softplus_inverse) { back<SoftPlus>(); }
HARNESS(exp_inverse) { back<Exp>(); }
HARNESS(softplus_monotone) { mono<SoftPlus>(); }
HARNESS(exp_monotone) { mono<Exp>(); }
// far from zero the value must neither overflow nor vanish in double arithmetic (each point executed concretely)
HARNESS(extremes) { const double xs[] = {-700, -300, -80, -50, -38, -37, -36, -20, -1e-12, 0, 1e-12, 1, 36, 37, 38, 50, 300, 700};
  int k = sym_int("point", 0, 17); 
  for (int i = 0; i < 18; ++i) if (k == i) { double x = xs[i];
    sym_assert(SoftPlus::Derivative(x) > 0, "softplus derivative positive in floating point"); sym_assert(std::isfinite(SoftPlus::Evaluate(x)), "softplus finite"); sym_assert(std::isfinite(SoftPlus::SecondDerivative(x)) && SoftPlus::SecondDerivative(x) >= 0, "softplus second derivative finite");
    sym_assert(std::isfinite(Exp::Evaluate(x)) && Exp::Evaluate(x) > 0, "exp positive and finite"); sym_assert_close(Exp::Inverse(Exp::Evaluate(x)), x, 1e-9 * (1 + std::fabs(x)), "exp inverse in floating point");
    double y = std::log1p(std::exp(-std::fabs(x))) + (x > 0 ? x : 0); // the value log(1+e^x) itself
    sym_assert_close(SoftPlus::Inverse(y), x, 1e-9 * (1 + std::fabs(x)), "softplus inverse in floating point");
    sym_assert_close(SoftPlus::Evaluate(x), y, 1e-9 * (1 + y), "softplus value in floating point");
    sym_assert(SoftPlus::Evaluate(x) > 0, "softplus positive in floating point"); sym_reach("extremes"); } }
