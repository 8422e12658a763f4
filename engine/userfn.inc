// Concrete stand-in for opaque function symbols, used for witness search and native replay.
// f_fid(a) = A*exp(sum w_k a_k) + B*sin(sum v_k a_k + phi) ; all mixed partials are closed form and
// positive user functions (fid % 2 == 1) drop the oscillating term, so every derivative is positive.
#include <cmath>
static inline double uf_h(unsigned a, unsigned b) {
  unsigned x = a * 2654435761u ^ (b * 40503u + 0x9e3779b9u); x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16;
  return (x % 1000) / 1000.0;
}
static inline double uf_value(int fid, int n, const double* args, const int* der) {
  double e = 0, s = 0.3 + uf_h(fid, 77), pe = 1, ps = 1; int m = 0;
  for (int k = 0; k < n; k++) {
    double w = 0.2 + 0.5 * uf_h(fid, 2 * k + 1), v = 0.4 + 0.7 * uf_h(fid, 2 * k + 2);
    double x = args[k];
    e += w * x; s += v * x;
    for (int d = 0; d < der[k]; d++) { pe *= w; ps *= v; m++; }
  }
  if (e > 30) e = 30 + std::tanh(e - 30); // keep finite far out
  double A = 0.5 + uf_h(fid, 5), B = (fid & 1) ? 0.0 : 0.3 + uf_h(fid, 9);
  return A * pe * std::exp(e) + B * ps * std::sin(s + m * 1.5707963267948966);
}
