// Opaque maps: every output, the log determinant and the inverse are arbitrary smooth functions of (coefficients, inputs) with exact derivatives.
#pragma once
#include "views.h"
#include "MParT/ConditionalMapBase.h"
typedef std::vector<double> V1;
static double ouf(int fid, V1 const& c, V1 const& x, int d = -1) { V1 a(c); a.insert(a.end(), x.begin(), x.end()); if (a.empty()) a.push_back(0.0); std::vector<int> der(a.size(), 0); if (d >= 0) der[d] = 1; return sym_uf(fid, a.size(), a.data(), der.data()); }
// output i, log determinant, i-th component of the inverse of opaque map number `id`
static double oval(int id, unsigned i, V1 const& c, V1 const& x, int d = -1) { return ouf(1000 * (id + 1) + 2 * i, c, x, d); }
static double odet(int id, V1 const& c, V1 const& x, int d = -1) { return ouf(1000 * (id + 1) + 500, c, x, d); }
static double oinv(int id, unsigned i, V1 const& c, V1 const& lead, V1 const& r) { V1 a(lead); a.insert(a.end(), r.begin(), r.end()); return ouf(1000 * (id + 1) + 600 + 2 * i, c, a); }
template <class M> static V1 col(M const& m, unsigned k, unsigned n) { V1 v(n); for (unsigned i = 0; i < n; ++i) v[i] = m(i, k); return v; }
struct OMap : ConditionalMapBase<HS> { int id; bool strict = true;
  OMap(int id_, unsigned in, unsigned out, unsigned nc) : ConditionalMapBase<HS>(in, out, nc), id(id_) {}
  V1 cf() const { V1 c(numCoeffs); for (unsigned i = 0; i < numCoeffs; ++i) c[i] = this->savedCoeffs(i); return c; }
  template <class P> void in(P const& p, const char* what) const { sym_assert(p.extent(0) == inputDim, what); }
  void EvaluateImpl(CSMat const& p, SMat o) override { in(p, "a part is evaluated at as many inputs as it declares"); sym_assert(o.extent(0) == outputDim && o.extent(1) == p.extent(1), "a part writes as many outputs as it declares"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) { V1 x = col(p, k, inputDim); V1 y; for (unsigned i = 0; i < outputDim; ++i) y.push_back(oval(id, i, c, x)); for (unsigned i = 0; i < outputDim; ++i) o(i, k) = y[i]; } }
  void LogDeterminantImpl(CSMat const& p, SVec o) override { in(p, "a part is evaluated at as many inputs as it declares"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) o(k) = odet(id, c, col(p, k, inputDim)); }
  void InverseImpl(CSMat const& x1, CSMat const& r, SMat o) override { unsigned lead = inputDim - outputDim; sym_assert(x1.extent(0) >= lead && r.extent(0) == outputDim, "a part is inverted with its leading inputs"); V1 c = cf(); for (unsigned k = 0; k < r.extent(1); ++k) { V1 l = lead ? col(x1, k, lead) : V1(), t = col(r, k, outputDim); V1 y; for (unsigned i = 0; i < outputDim; ++i) y.push_back(oinv(id, i, c, l, t)); for (unsigned i = 0; i < outputDim; ++i) o(i, k) = y[i]; } }
  void GradientImpl(CSMat const& p, CSMat const& s, SMat o) override { in(p, "a part is evaluated at as many inputs as it declares"); sym_assert(s.extent(0) == outputDim && o.extent(0) == inputDim, "gradient shapes of a part"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) { V1 x = col(p, k, inputDim), t = col(s, k, outputDim); for (unsigned j = 0; j < inputDim; ++j) { double g = 0; for (unsigned i = 0; i < outputDim; ++i) g += t[i] * oval(id, i, c, x, c.size() + j); o(j, k) = g; } } }
  void CoeffGradImpl(CSMat const& p, CSMat const& s, SMat o) override { in(p, "a part is evaluated at as many inputs as it declares"); sym_assert(s.extent(0) == outputDim && o.extent(0) == numCoeffs, "coefficient gradient shapes of a part"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) { V1 x = col(p, k, inputDim), t = col(s, k, outputDim); for (unsigned j = 0; j < numCoeffs; ++j) { double g = 0; for (unsigned i = 0; i < outputDim; ++i) g += t[i] * oval(id, i, c, x, j); o(j, k) = g; } } }
  void LogDeterminantCoeffGradImpl(CSMat const& p, SMat o) override { in(p, "a part is evaluated at as many inputs as it declares"); sym_assert(o.extent(0) == numCoeffs, "coefficient gradient shapes of a part"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) { V1 x = col(p, k, inputDim); for (unsigned j = 0; j < numCoeffs; ++j) o(j, k) = odet(id, c, x, j); } }
  void LogDeterminantInputGradImpl(CSMat const& p, SMat o) override { in(p, "a part is evaluated at as many inputs as it declares"); sym_assert(o.extent(0) == inputDim, "gradient shapes of a part"); V1 c = cf(); for (unsigned k = 0; k < p.extent(1); ++k) { V1 x = col(p, k, inputDim); for (unsigned j = 0; j < inputDim; ++j) o(j, k) = odet(id, c, x, c.size() + j); } } };
typedef std::shared_ptr<ConditionalMapBase<HS>> MapPtr;
static double diffx(double f, unsigned i, unsigned k) { return sym_diff(f, nm("x", i, k).c_str()); }
static double diffc(double f, unsigned i) { return sym_diff(f, nm("c", i).c_str()); }
