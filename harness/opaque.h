// Stand-ins for user-supplied functions: opaque symbols with opaque exact derivatives.
#pragma once
#include "harness.h"
// one-dimensional basis: order k at x is the opaque function number base+2k
template <int base> struct OpaqueBasisT {
  void EvaluateAll(double* out, unsigned int maxOrder, double x) const { for (unsigned k = 0; k <= maxOrder; ++k) out[k] = uf1(base + 2 * k, x, 0); }
  void EvaluateDerivatives(double* v, double* d, unsigned int maxOrder, double x) const { for (unsigned k = 0; k <= maxOrder; ++k) { v[k] = uf1(base + 2 * k, x, 0); d[k] = uf1(base + 2 * k, x, 1); } }
  void EvaluateDerivatives(double* d, unsigned int maxOrder, double x) const { for (unsigned k = 0; k <= maxOrder; ++k) d[k] = uf1(base + 2 * k, x, 1); }
  void EvaluateSecondDerivatives(double* v, double* d, double* dd, unsigned int maxOrder, double x) const { for (unsigned k = 0; k <= maxOrder; ++k) { v[k] = uf1(base + 2 * k, x, 0); d[k] = uf1(base + 2 * k, x, 1); dd[k] = uf1(base + 2 * k, x, 2); } }
  double Evaluate(unsigned k, double x) const { return uf1(base + 2 * k, x, 0); }
  double Derivative(unsigned k, double x) const { return uf1(base + 2 * k, x, 1); }
  double SecondDerivative(unsigned k, double x) const { return uf1(base + 2 * k, x, 2); }
  template <class A> void serialize(A&) {}
};
using OpaqueBasis = OpaqueBasisT<100>;
// as the real bases: order zero is the constant 1
struct OpaqueBasis1 : OpaqueBasisT<100> {
  static double val(unsigned k, double x, int d) { return k == 0 ? (d == 0 ? 1.0 : 0.0) : uf1(100 + 2 * k, x, d); }
  void EvaluateAll(double* out, unsigned int m, double x) const { for (unsigned k = 0; k <= m; ++k) out[k] = val(k, x, 0); }
  void EvaluateDerivatives(double* v, double* d, unsigned int m, double x) const { for (unsigned k = 0; k <= m; ++k) { v[k] = val(k, x, 0); d[k] = val(k, x, 1); } }
  void EvaluateSecondDerivatives(double* v, double* d, double* dd, unsigned int m, double x) const { for (unsigned k = 0; k <= m; ++k) { v[k] = val(k, x, 0); d[k] = val(k, x, 1); dd[k] = val(k, x, 2); } }
  template <class A> void serialize(A&) {}
};
// strictly positive function with strictly positive derivative
struct OpaquePos {
  static double Evaluate(double x) { return uf1(51, x, 0); }
  static double Derivative(double x) { return uf1(51, x, 1); }
  static double SecondDerivative(double x) { return uf1(51, x, 2); }
  static double Inverse(double x) { return uf1(60, x, 0); }
};
