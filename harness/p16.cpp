// P16: multi-indices against the integer vectors they stand for
#include "harness.h"
#include <Eigen/Core>
#include "MParT/MultiIndices/MultiIndex.h"
#include "MParT/MultiIndices/MultiIndexNeighborhood.h"
using namespace mpart;
typedef std::vector<unsigned> VU;
static const unsigned B = 1u << 28;
static VU symV(const char* n, unsigned len, unsigned B_ = B) { VU v; for (unsigned i = 0; i < len; ++i) v.push_back(sym_uint(nm(n, i).c_str(), 0, B_)); return v; }
static unsigned mx(unsigned a, unsigned b) { return a * (a > b) + b * !(a > b); }
// everything readable from the multi-index agrees with the vector
static void agree(MultiIndex const& m, VU const& v, const char* w) { unsigned s = 0, x = 0, nz = 0; VU d = m.Vector(); sym_assert(m.Length() == v.size() && d.size() == v.size(), "length"); for (unsigned i = 0; i < v.size(); ++i) { s += v[i]; x = mx(x, v[i]); nz += v[i] != 0; sym_assert(m.Get(i) == v[i], w); sym_assert(d[i] == v[i], "dense form"); } sym_assert(m.Sum() == s, "sum"); sym_assert(m.Max() == x, "maximum"); sym_assert(m.NumNz() == nz, "number of nonzeros"); }
static int same(VU const& a, VU const& b) { if (a.size() != b.size()) return 0; int r = 1; for (unsigned i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
// the documented order: length, sum, maximum, then lexicographic
static int less(VU const& a, VU const& b) { if (a.size() != b.size()) return a.size() < b.size(); unsigned sa = 0, sb = 0, xa = 0, xb = 0; int lt = 0, eq = 1; for (unsigned i = 0; i < a.size(); ++i) { sa += a[i]; sb += b[i]; xa = mx(xa, a[i]); xb = mx(xb, b[i]); lt |= eq & (a[i] < b[i]); eq &= a[i] == b[i]; } return (sa < sb) | ((sa == sb) & ((xa < xb) | ((xa == xb) & lt))); }
static unsigned len() { return 1 + sym_choice("length", TIER ? 5 : 4); }
HARNESS(build) { unsigned n = len(); VU v = symV("v", n); switch (sym_choice("from", 6)) { case 0: agree(MultiIndex(v), v, "entries (vector)"); break; case 1: agree(MultiIndex(v.data(), n), v, "entries (pointer)"); break; case 2: { Eigen::VectorXi e(n); for (unsigned i = 0; i < n; ++i) e(i) = v[i]; agree(MultiIndex(e), v, "entries (Eigen)"); break; } case 3: { Eigen::Matrix<unsigned, 1, Eigen::Dynamic> e(n); for (unsigned i = 0; i < n; ++i) e(i) = v[i]; agree(MultiIndex(e), v, "entries (Eigen row)"); break; } case 4: { unsigned c = v[0]; agree(MultiIndex(n, c), VU(n, c), "entries (constant)"); break; } default: if (n == 1) agree(MultiIndex{std::initializer_list<unsigned>{v[0]}}, v, "entries (list)"); else if (n == 2) agree(MultiIndex{v[0], v[1]}, v, "entries (list)"); else { VU w(v.begin(), v.begin() + 3); agree(MultiIndex{v[0], v[1], v[2]}, w, "entries (list)"); } } sym_reach("build"); }
HARNESS(assign) { unsigned n = len(), L = (TIER ? 4 : 3) - (n > (TIER ? 4 : 3)); VU v = symV("v", n); MultiIndex m = sym_choice("zero", 2) ? MultiIndex(n) : MultiIndex(v); if (!m.NumNz()) v.assign(n, 0); MultiIndex keep = m; VU v0 = v; for (unsigned t = 0; t < L; ++t) { unsigned i = sym_choice(("pos" + std::to_string(t)).c_str(), n); unsigned x = sym_uint(nm("x", t).c_str(), 0, B); bool r = m.Set(i, x); sym_assert(r == (v[i] != 0), "Set reports whether the entry was nonzero"); v[i] = x; agree(m, v, "entries after assignments"); MultiIndex f(v); sym_assert((m == f) & !(m != f) & !(m < f) & !(f < m) & (m <= f) & (m >= f), "equal to the multi-index built directly"); } agree(keep, v0, "a copy is independent"); sym_reach("assign"); }
HARNESS(order) { unsigned n = 1 + sym_choice("length", 3), k = 1 + sym_choice("length2", 3); VU a = symV("a", n, 1 << 12), b = symV("b", k, 1 << 12); MultiIndex A(a), B_(b); bool lt = A < B_, gt = A > B_, le = A <= B_, ge = A >= B_, eq = A == B_, ne = A != B_; int e = same(a, b), l = less(a, b), g = less(b, a); sym_assert(eq == e & ne == !e, "equality is equality of the vectors"); sym_assert(lt == l, "smaller"); sym_assert(gt == g, "larger"); sym_assert(le == !g, "smaller or equal"); sym_assert(ge == !l, "larger or equal"); sym_assert(l + g + e == 1, "exactly one of smaller, larger, equal"); sym_reach("order"); }
HARNESS(transitive) { unsigned n = 1 + sym_choice("length", TIER ? 3 : 2); MultiIndex A(symV("a", n)), B_(symV("b", n)), C(symV("c", n)); sym_assert(!(A < A) & (A == A), "irreflexive"); if (A < B_) if (B_ < C) sym_assert(A < C, "transitive"); if (A == B_) if (B_ < C) sym_assert(A < C, "equal indices are interchangeable"); sym_reach("transitive"); }
HARNESS(bounds) { unsigned n = 1 + sym_choice("length", 3); VU v = symV("v", n); MultiIndex m(v); unsigned far = sym_choice("far", 4), i = far == 0 ? sym_uint("i", n, 9) : far == 1 ? 10u : far == 2 ? 0x7fffffffu : 0xffffffffu; bool g = throws([&] { m.Get(i); }), s = throws([&] { m.Set(i, 1 + sym_choice("val", 2)); }), z = throws([&] { m.Set(i, 0); }); sym_assert(g, "reading an out-of-range position is an error"); sym_assert(s && z, "writing an out-of-range position is an error"); agree(m, v, "a rejected write changes nothing"); sym_reach("bounds"); }
HARNESS(bounded) { unsigned n = 1 + sym_choice("length", 3), k = 1 + sym_choice("length2", 3); VU a = symV("a", n), b = symV("b", k); MultiIndex A(a), B_(b); if (n > k) sym_assert(throws([&] { A.AnyBounded(B_); }), "a shorter bound is an error"); else { int any = 0; for (unsigned i = 0; i < n; ++i) any |= a[i] >= b[i]; sym_assert(A.AnyBounded(B_) == any, "reaches the bound in some entry"); } sym_reach("bounded"); }
HARNESS(neighbours) { unsigned n = 1 + sym_choice("length", 3); VU v = symV("v", n, 1 << 10), w = symV("w", n, 1 << 10); MultiIndex m(v), q(w); DefaultNeighborhood nb; auto f = nb.ForwardNeighbors(m), b = nb.BackwardNeighbors(m); unsigned nz = 0; sym_assert(f.size() == n, "one forward neighbour per position"); for (unsigned i = 0; i < n; ++i) { VU u = v; u[i]++; agree(f[i], u, "forward neighbour"); if (v[i]) { u[i] -= 2; sym_assert(nz < b.size(), "a backward neighbour per nonzero entry"); agree(b[nz++], u, "backward neighbour"); } } sym_assert(b.size() == nz, "a backward neighbour per nonzero entry");
  int fw = 0, bw = 0; for (unsigned i = 0; i < n; ++i) { VU u = v; u[i]++; fw |= same(u, w); VU t = w; t[i]++; bw |= same(t, v); } sym_assert(nb.IsForward(m, q) == fw, "forward relation"); sym_assert(nb.IsBackward(m, q) == bw, "backward relation"); sym_reach("neighbours"); }
