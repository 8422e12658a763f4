// P18: fixed multi-index sets in every construction against the list of terms they stand for.
#include "harness.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "opaque.h"
using namespace mpart; typedef std::vector<unsigned> VU; typedef FixedMultiIndexSet<Kokkos::HostSpace> F; typedef Kokkos::View<unsigned*, Kokkos::HostSpace> UV;
static unsigned mx(unsigned a, unsigned b) { return a * (a > b) + b * !(a > b); }
static int same(VU const& a, VU const& b) { int r = 1; for (unsigned i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static UV uv(VU const& v) { UV r("u", v.size()); for (unsigned i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
// what every fixed set must answer, given its terms in order; q is any multi-index
static void agree(F const& f, unsigned d, std::vector<VU> const& T, VU const& q) { unsigned n = T.size(); sym_assert((f.Size() == n) & (f.Length() == d), "size and length");
  VU top(d, 0); for (auto& t : T) for (unsigned k = 0; k < d; ++k) top[k] = mx(top[k], t[k]); auto md = f.MaxDegrees(); sym_assert(md.extent(0) == d, "one maximum degree per input"); int ok = 1; for (unsigned k = 0; k < d; ++k) ok &= md(k) == top[k]; sym_assert(ok, "maximum degrees");
  for (unsigned i = 0; i < n; ++i) { VU v = f.IndexToMulti(i); sym_assert(v.size() == d && same(v, T[i]), "term at its position"); VU w(d, 0); int in = f.nzStarts(i + 1) <= f.nzOrders.extent(0) && f.nzStarts(i) <= f.nzStarts(i + 1); sym_assert(in, "stored ranges"); if (in) { for (unsigned j = f.nzStarts(i); j < f.nzStarts(i + 1); ++j) w[f.nzDims(j)] = f.nzOrders(j); sym_assert(same(w, T[i]), "stored arrays describe the term"); } }
  int r = f.MultiToIndex(q), any = 0; for (auto& t : T) any |= same(t, q); sym_assert((r >= 0) == any, "absent terms are reported as absent"); if (r >= 0) sym_assert((unsigned)r < n && same(T[r], q), "position of a member"); }
static void find(F const& f, std::vector<VU> const& T) { for (unsigned i = 0; i < T.size(); ++i) { int r = f.MultiToIndex(T[i]); int before = 0; for (unsigned j = 0; j < i; ++j) before |= same(T[j], T[i]); sym_assert((r >= 0 && (unsigned)r < T.size()) && ((unsigned)r == i || before), "members are found"); } }
static std::vector<VU> symTerms(unsigned d, unsigned n, unsigned hi) { std::vector<VU> T; for (unsigned i = 0; i < n; ++i) { VU v; for (unsigned k = 0; k < d; ++k) v.push_back(sym_uint(nm("o", i, k).c_str(), 0, hi)); T.push_back(v); } return T; }
static VU query(unsigned d, unsigned hi) { VU q; for (unsigned k = 0; k < d; ++k) q.push_back(sym_uint(nm("q", k).c_str(), 0, hi)); return q; }
static const unsigned BIG = 1u << 30;
HARNESS(dense) { unsigned d = 1 + sym_choice("dim", 3), n = sym_choice("terms", d == 3 && !TIER ? 3 : 4); auto T = symTerms(d, n, BIG); VU o; for (auto& t : T) for (unsigned x : t) o.push_back(x); F f(d, uv(o)); agree(f, d, T, query(d, BIG)); find(f, T); sym_reach("dense"); }
// compressed arrays: every pattern of nonzero entries, stored with ascending or descending inputs
static F compress(unsigned d, std::vector<VU> const& T, bool desc) { VU st, di, od; for (auto& t : T) { st.push_back(di.size()); for (unsigned k = 0; k < d; ++k) { unsigned kk = desc ? d - 1 - k : k; if (t[kk]) { di.push_back(kk); od.push_back(t[kk]); } } } st.push_back(di.size()); return F(d, uv(st), uv(di), uv(od)); }
HARNESS(compressed) { unsigned d = 1 + sym_choice("dim", 3), n = sym_choice("terms", d == 3 ? (TIER ? 3 : 2) : (TIER ? 4 : 3)); auto T = symTerms(d, n, BIG); F f = compress(d, T, sym_choice("descending", 2)); agree(f, d, T, query(d, BIG)); find(f, T); sym_reach("compressed"); }
static unsigned binom(unsigned n, unsigned k) { unsigned r = 1; for (unsigned i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
HARNESS(totalOrder) { unsigned d = 1 + sym_choice("dim", TIER ? 5 : 4), o = sym_choice("order", (d < 3 ? 6 : 4) + (TIER ? 2 : 0)); F f(d, o); sym_assert(f.Size() == binom(d + o, d), "size of the total order"); std::vector<VU> T; for (unsigned i = 0; i < f.Size(); ++i) { VU v = f.IndexToMulti(i); unsigned s = 0; for (unsigned x : v) s += x; sym_assert(s <= o, "order of a term"); for (auto& t : T) sym_assert(!same(t, v), "terms are distinct"); T.push_back(v); } VU q = query(d, 1 << 20); unsigned s = 0; for (unsigned x : q) s += x; int in = 0; for (auto& t : T) in |= same(t, q); sym_assert(in == (s <= o), "terms of the total order"); agree(f, d, T, q); find(f, T); sym_reach("totalOrder"); }
// flexible sets, compressed or not, and back
HARNESS(flexible) { unsigned d = 1 + sym_choice("dim", 3), n = 1 + sym_choice("terms", d == 3 && !TIER ? 2 : 3); bool comp = sym_choice("compress", 2); MultiIndexSet S(d); std::vector<VU> T; for (unsigned i = 0; i < n; ++i) { VU v; for (unsigned k = 0; k < d; ++k) v.push_back((unsigned)sym_concretize(sym_uint(nm("o", i, k).c_str(), 0, TIER ? 2 : d == 3 ? 1 : 2))); S += MultiIndex(v); } for (unsigned i = 0; i < S.Size(); ++i) T.push_back(S.IndexToMulti(i).Vector());
  F f = S.Fix(comp); agree(f, d, T, query(d, 100)); find(f, T); MultiIndexSet R(d); for (unsigned i = 0; i < f.Size(); ++i) R += MultiIndex(f.IndexToMulti(i)); sym_assert(R.Size() == S.Size(), "same number of terms after a round trip"); for (unsigned i = 0; i < R.Size() && i < S.Size(); ++i) sym_assert(R.IndexToMulti(i) == S.IndexToMulti(i), "same terms after a round trip"); sym_reach("flexible"); }
HARNESS(bigFlexible) { unsigned d = 1 + sym_choice("dim", 2), k = sym_choice("spot", d); bool comp = sym_choice("compress", 2); VU v(d, 0); v[k] = 1 + sym_choice("order", 3); MultiIndexSet S = MultiIndexSet::CreateTotalOrder(d, 2); S += MultiIndex(v); std::vector<VU> T; for (unsigned i = 0; i < S.Size(); ++i) T.push_back(S.IndexToMulti(i).Vector()); F f = S.Fix(comp); agree(f, d, T, query(d, 100)); find(f, T); F g = f; F h = f.ToDevice<Kokkos::HostSpace>(); agree(g, d, T, query(d, 100)); agree(h, d, T, query(d, 100)); sym_reach("bigFlexible"); }
// an expansion gives the same value for the dense and the compressed form of a set (evaluated with an arbitrary basis)
HARNESS(evaluate) { unsigned d = 1 + sym_choice("dim", 2), n = 1 + sym_choice("terms", 2); std::vector<VU> T; for (unsigned i = 0; i < n; ++i) { VU v; for (unsigned k = 0; k < d; ++k) v.push_back(sym_choice(nm("o", i, k).c_str(), 3)); T.push_back(v); } VU o; for (auto& t : T) for (unsigned x : t) o.push_back(x); F a(d, uv(o)), b = compress(d, T, false);
  typedef OpaqueBasis1 B; MultivariateExpansionWorker<B, Kokkos::HostSpace> wa(a), wb(b); Kokkos::View<double*, Kokkos::HostSpace> x("x", d), c("c", n); for (unsigned i = 0; i < d; ++i) x(i) = symd("x", i); for (unsigned i = 0; i < n; ++i) c(i) = symd("c", i); std::vector<double> ca(wa.CacheSize()), cb(wb.CacheSize()); double va, vb, ref = 0;
  wa.FillCache1(ca.data(), x, DerivativeFlags::None); wa.FillCache2(ca.data(), x, x(d - 1), DerivativeFlags::None); wb.FillCache1(cb.data(), x, DerivativeFlags::None); wb.FillCache2(cb.data(), x, x(d - 1), DerivativeFlags::None); va = wa.Evaluate(ca.data(), c); vb = wb.Evaluate(cb.data(), c); for (unsigned i = 0; i < n; ++i) { double p = c(i); for (unsigned k = 0; k < d; ++k) if (T[i][k]) p *= OpaqueBasis1::val(T[i][k], x(k), 0); ref += p; } sym_assert_eq(va, ref, "dense set"); sym_assert_eq(vb, ref, "compressed set"); sym_reach("evaluate"); }
