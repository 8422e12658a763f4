// P17: multi-index sets against their set-theoretic model. The model is a list of member vectors; all its queries are branch-free expressions, so one path of the library is compared for every value on it.
#include "harness.h"
#include <Eigen/Core>
#include "MParT/MultiIndices/MultiIndexSet.h"
using namespace mpart; namespace ML = mpart::MultiIndexLimiter;
typedef std::vector<unsigned> VU;
static unsigned mx(unsigned a, unsigned b) { return a * (a > b) + b * !(a > b); }
static int same(VU const& a, VU const& b) { int r = 1; for (unsigned i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static VU plus(VU v, unsigned i) { v[i] += 1; return v; }
static VU minus(VU v, unsigned i) { v[i] -= 1; return v; }
struct Lim { int k; unsigned p, q; std::vector<unsigned> deg; // own definition of the limiters
  int ok(VU const& v) const { unsigned s = 0; for (unsigned x : v) s += x; int dim = 1; for (unsigned i = 0; i < v.size(); ++i) if (i < q || i >= q + 1) dim &= v[i] == 0; int md = 1; for (unsigned i = 0; i < v.size(); ++i) md &= v[i] <= (i == 0 ? p : q); switch (k) { case 0: return 1; case 1: return s <= p; case 2: return dim; case 3: return md; case 4: return (s <= p) & md; default: return (s <= p) | dim; } }
  MultiIndexSet::LimiterType lib(unsigned d) const { std::vector<unsigned> m(d, q); m[0] = p; switch (k) { case 0: return ML::None(); case 1: return ML::TotalOrder(p); case 2: return ML::Dimension(q, 1); case 3: return ML::MaxDegree(m); case 4: return ML::And(ML::TotalOrder(p), ML::MaxDegree(m)); default: return ML::Or(ML::TotalOrder(p), ML::Dimension(q, 1)); } } };
struct Model { unsigned d; Lim lim; std::vector<VU> m;
  int has(VU const& v) const { int r = 0; for (auto& u : m) r |= same(u, v); return r; }
  int allBack(VU const& v) const { int r = 1; for (unsigned i = 0; i < d; ++i) r &= (v[i] == 0) | has(minus(v, i)); return r; }
  int anyBack(VU const& v) const { int r = 0; for (unsigned i = 0; i < d; ++i) r |= (v[i] != 0) & has(minus(v, i)); return r; }
  int admissible(VU const& v) const { return lim.ok(v) & (has(v) | allBack(v)); }
  int fresh(VU const& v) const { return lim.ok(v) & !has(v) & allBack(v); } // could be activated by an expansion
  int expandable(VU const& v) const { int r = 0; for (unsigned i = 0; i < d; ++i) r |= fresh(plus(v, i)); return r; }
  unsigned numForward(VU const& v) const { unsigned r = 0; for (unsigned i = 0; i < d; ++i) r += lim.ok(plus(v, i)); return r; }
  unsigned activeForward(VU const& v) const { unsigned r = 0; for (unsigned i = 0; i < d; ++i) r += has(plus(v, i)); return r; } };
static int inList(std::vector<MultiIndex> const& l, VU const& v) { int r = 0; for (auto& m : l) r |= same(m.Vector(), v); return r; }
static int count(std::vector<unsigned> const& l, unsigned v) { int r = 0; for (unsigned x : l) r += x == v; return r; }
// positions, members, limiter, maxima
static void agree(MultiIndexSet const& S, Model const& M) { unsigned n = S.Size(); sym_assert(n == M.m.size(), "size is the number of members"); VU top(M.d, 0); for (auto& v : M.m) for (unsigned i = 0; i < M.d; ++i) top[i] = mx(top[i], v[i]); VU t = S.MaxOrders(); for (unsigned i = 0; i < M.d; ++i) sym_assert(t[i] == top[i], "maximum orders");
  for (unsigned i = 0; i < n; ++i) { MultiIndex mi = S.IndexToMulti(i); VU v = mi.Vector(); sym_assert(v.size() == M.d && M.has(v), "every listed multi-index is a member"); sym_assert(S.MultiToIndex(mi) == (int)i, "positions and lookups are inverse"); sym_assert(M.lim.ok(v), "members satisfy the limiter"); sym_assert((S[i] == mi) & (S.at(i) == mi), "element access"); for (unsigned j = 0; j < i; ++j) sym_assert(!same(v, S.IndexToMulti(j).Vector()), "members are distinct"); } }
static void queries(MultiIndexSet& S, Model const& M, bool probe) { unsigned n = S.Size(); VU q; for (unsigned i = 0; i < M.d; ++i) q.push_back(sym_uint(nm("q", i).c_str(), 0, 15)); int nz = 0; for (unsigned x : q) nz |= x != 0;
  { auto l = S.Margin(), r = S.ReducedMargin(); sym_assert((inList(l, q) == (M.lim.ok(q) & !M.has(q) & M.anyBack(q))) & (!nz | (inList(r, q) == M.fresh(q))), "margin and reduced margin"); for (unsigned i = 0; i < l.size(); ++i) for (unsigned j = 0; j < i; ++j) sym_assert(!(l[i] == l[j]), "margin elements are distinct"); for (unsigned i = 0; i < r.size(); ++i) for (unsigned j = 0; j < i; ++j) sym_assert(!(r[i] == r[j]), "reduced margin elements are distinct"); }
  { auto f = S.Frontier(), s = S.StrictFrontier(); for (unsigned i = 0; i < n; ++i) { VU v = S.IndexToMulti(i).Vector(); int e = M.expandable(v); sym_assert(S.IsExpandable(i) == e, "expandable"); sym_assert(count(f, i) == e, "frontier"); sym_assert(count(s, i) == (e & (M.activeForward(v) == 0)), "strict frontier"); } sym_assert(f.size() <= n && s.size() <= f.size(), "frontier size"); }
  for (unsigned i = 0; i < n; ++i) { MultiIndex mi = S.IndexToMulti(i); VU v = mi.Vector(); sym_assert(S.NumForward(i) == M.numForward(v), "number of forward neighbours"); sym_assert(S.NumActiveForward(i) == M.activeForward(v), "number of active forward neighbours"); auto a = S.AdmissibleForwardNeighbors(i); unsigned na = 0; for (unsigned k = 0; k < M.d; ++k) { VU u = plus(v, k); int e = M.admissible(u); na += e; sym_assert(inList(a, u) == e, "admissible forward neighbours"); } sym_assert(a.size() == na, "number of admissible forward neighbours"); }
  for (unsigned i = 0; i < n; ++i) { MultiIndex mi = S.IndexToMulti(i); VU v = mi.Vector(); for (int w = 0; w < 2; ++w) { auto b = w ? S.BackwardNeighbors(mi) : S.BackwardNeighbors(i); unsigned nb = 0; for (unsigned k = 0; k < M.d; ++k) nb += (v[k] != 0) & M.has(minus(v, k)); sym_assert(b.size() == nb, "number of backward neighbours"); for (unsigned x : b) { sym_assert(x < n, "backward neighbours are members"); if (x < n) { VU u = S.IndexToMulti(x).Vector(); int is = 0; for (unsigned k = 0; k < M.d; ++k) is |= (v[k] != 0) & same(u, minus(v, k)); sym_assert(is, "backward neighbours"); } } } }
  { auto B = S.FilterBounded(MultiIndex(VU(M.d, 2))); sym_assert(B.size() == n, "one filter entry per member"); for (unsigned i = 0; i < n; ++i) { VU v = S.IndexToMulti(i).Vector(); int any = 0; for (unsigned x : v) any |= x >= 2; sym_assert(B[i] == any, "members reaching the bound"); } }
  if (!probe) return; MultiIndex Q(q); sym_assert(S.IsActive(Q) == M.has(q), "activity"); sym_assert((S.MultiToIndex(Q) >= 0) == M.has(q), "lookup of a non-member is -1"); if (nz) sym_assert(S.IsAdmissible(Q) == M.admissible(q), "admissibility"); }
static VU symM(const char* n, int t, unsigned d, unsigned ord) { VU v; for (unsigned i = 0; i < d; ++i) v.push_back((unsigned)sym_concretize(sym_uint(nm(n, t, i).c_str(), 0, ord))); return v; } // split into all values: the solver is kept for the probe q, which stands for every multi-index
static Lim limiter(const char* n, unsigned kinds) { Lim l; l.k = sym_choice(n, kinds); l.p = 2; l.q = 1; return l; }
static Model start(MultiIndexSet& S, unsigned d, Lim l) { Model M{d, l, {}}; return M; }
static void addModel(Model& M, VU const& v) { if (!M.has(v) & M.lim.ok(v)) M.m.push_back(v); }
// members newly reported by an expansion are exactly the model's new members, each once, and they come after the old ones
static void news(MultiIndexSet const& S, std::vector<unsigned> const& r, unsigned n0, std::vector<VU> const& add, Model& M) { for (auto& v : add) if (!M.has(v)) M.m.push_back(v); unsigned n1 = M.m.size(); sym_assert(S.Size() == n1, "an expansion adds exactly what was asked for"); sym_assert(r.size() == n1 - n0, "an expansion reports each new member once"); for (unsigned i = n0; i < n1; ++i) sym_assert(count(r, i) == 1, "an expansion reports the new members"); }
static void closure(Model const& M, VU const& v, std::vector<VU>& out) { for (auto& u : out) if (same(u, v)) return; if (M.has(v)) return; out.push_back(v); for (unsigned i = 0; i < M.d; ++i) if (v[i]) { VU u = minus(v, i); if (M.lim.ok(u)) closure(M, u, out); } }
static void step(MultiIndexSet& S, Model& M, int t, unsigned ord, unsigned op) { unsigned d = M.d, n0 = S.Size();
  switch (op) {
  case 0: { VU v = symM("a", t, d, ord); int h = M.has(v), ok = M.lim.ok(v); int r = S.AddActive(MultiIndex(v)); sym_assert((r >= 0) == (h | ok), "adding is refused exactly by the limiter"); addModel(M, v); if (r >= 0) sym_assert((unsigned)r < S.Size() && same(S.IndexToMulti(r).Vector(), v), "adding returns the position"); break; }
  case 1: { if (!n0) break; unsigned i = sym_choice(nm("i", t).c_str(), n0 > 3 ? 3 : n0); if (n0 > 3 && i == 2) i = n0 - 1; VU v = S.IndexToMulti(i).Vector(); std::vector<VU> add; for (unsigned k = 0; k < d; ++k) if (M.fresh(plus(v, k))) add.push_back(plus(v, k)); auto r = S.Expand(i); news(S, r, n0, add, M); break; }
  case 2: { std::vector<VU> add; for (auto& v : M.m) for (unsigned k = 0; k < d; ++k) { VU u = plus(v, k); if (M.fresh(u)) { bool dup = false; for (auto& w : add) if (same(w, u)) dup = true; if (!dup) add.push_back(u); } } auto r = S.Expand(); news(S, r, n0, add, M); break; }
  case 3: { VU v = symM("f", t, d, ord); sym_assume(M.lim.ok(v)); std::vector<VU> add; closure(M, v, add); auto r = S.ForciblyActivate(MultiIndex(v)); news(S, r, n0, add, M); break; }
  case 4: { if (!n0) break; unsigned i = sym_choice(nm("i", t).c_str(), n0 > 2 ? 2 : n0); if (n0 > 2 && i == 1) i = n0 - 1; VU v = S.IndexToMulti(i).Vector(); std::vector<VU> add; for (unsigned k = 0; k < d; ++k) if (M.lim.ok(plus(v, k))) closure(M, plus(v, k), add); auto r = S.ForciblyExpand(i); news(S, r, n0, add, M); break; }
  case 5: { MultiIndexSet R(d); VU v = symM("u", t, d, ord), w = plus(v, 0); R += MultiIndex(v); R += MultiIndex(w); unsigned how = sym_choice(nm("how", t).c_str(), 2); addModel(M, v); addModel(M, w); if (how) { sym_assert(S.Union(R) == M.m.size() - n0, "union reports the number of new members"); } else { MultiIndexSet T = S + R; S = T; } break; }
  default: { Lim l = limiter(nm("lim", t).c_str(), 6); int ok = 1; for (auto& v : M.m) ok &= l.ok(v); bool th = throws([&] { S.SetLimiter(l.lib(d)); }); sym_assert(th == !ok, "a limiter is accepted exactly if the members satisfy it"); if (!th) M.lim = l; } } }
static void history(unsigned d, unsigned ord, unsigned L, int base, int lims, std::vector<unsigned> ops, bool probe) { Lim l = limiter("limiter", lims); MultiIndexSet S(d, l.lib(d)); Model M{d, l, {}}; if (base == 1) { MultiIndexSet T = MultiIndexSet::CreateTotalOrder(d, 1, l.lib(d)); S = T; VU z(d, 0); addModel(M, z); for (unsigned i = d; i-- > 0;) addModel(M, plus(z, i)); } if (base == 2) { S += MultiIndex(VU(d, 0)); addModel(M, VU(d, 0)); } for (unsigned t = 0; t < L; ++t) step(S, M, t, ord, ops[sym_choice(nm("op", t).c_str(), ops.size())]); agree(S, M); queries(S, M, probe); }
HARNESS(grow) { history(2, 2, 2, TIER ? sym_choice("base", 3) : 1, TIER ? 5 : 4, {0, 1, 2, 3, 4, 5}, false); sym_reach("grow"); }
HARNESS(probe) { history(2, 2, 1, 1 - sym_choice("base", TIER ? 2 : 1), TIER ? 5 : 3, {0, 1, 2, 3, 4, 5}, true); sym_reach("probe"); }
HARNESS(expansions) { history(2, 3, TIER ? 5 : 4, 2 - sym_choice("base", TIER ? 2 : 1), 5, {1, 2, 4}, false); sym_reach("expansions"); }
HARNESS(space) { history(3, TIER ? 2 : 1, TIER ? 2 : 1, sym_choice("base", 3), 5, {0, 1, 2, 3, 4}, false); sym_reach("space"); }
HARNESS(line) { history(1, 4, 3, sym_choice("base", TIER ? 2 : 1), 2, {0, 1, 2, 3, 4}, false); sym_reach("line"); }
HARNESS(relimit) { history(2, 2, TIER ? 3 : 2, sym_choice("base", TIER ? 3 : 2), 6, {0, 6}, false); sym_reach("relimit"); }
HARNESS(relimitGrow) { unsigned d = 2; Lim l0 = limiter("limiter", 6), l1 = limiter("next", 6); MultiIndexSet S(d, l0.lib(d)); Model M{d, l0, {}}; VU v = symM("a", 0, d, 2); S += MultiIndex(v); addModel(M, v); int ok = 1; for (auto& u : M.m) ok &= l1.ok(u); if (!ok) return; S.SetLimiter(l1.lib(d)); M.lim = l1; step(S, M, 1, 2, (int[]){0, 2, 4}[sym_choice("op", 3)]); agree(S, M); queries(S, M, TIER); sym_reach("relimitGrow"); }
// families and limiters: membership of every multi-index
HARNESS(families) { unsigned d = 1 + sym_choice("dim", 3), o = sym_choice("order", TIER ? 4 : 3); bool tp = sym_choice("tensor", 2); Lim l = limiter("limiter", 6); MultiIndexSet S = tp ? MultiIndexSet::CreateTensorProduct(d, o, l.lib(d)) : MultiIndexSet::CreateTotalOrder(d, o, l.lib(d)); VU q; unsigned s = 0, x = 0; for (unsigned i = 0; i < d; ++i) { q.push_back(sym_uint(nm("q", i).c_str(), 0, 1000)); s += q[i]; x = mx(x, q[i]); } int in = 0; for (unsigned i = 0; i < S.Size(); ++i) { VU v = S.IndexToMulti(i).Vector(); in |= same(v, q); for (unsigned j = 0; j < i; ++j) sym_assert(!same(v, S.IndexToMulti(j).Vector()), "members are distinct"); sym_assert(S.MultiToIndex(S.IndexToMulti(i)) == (int)i, "positions and lookups are inverse"); } sym_assert(in == (l.ok(q) & (tp ? x <= o : s <= o)), "members of the family"); sym_reach("families"); }
HARNESS(limiters) { unsigned d = 1 + sym_choice("dim", 3); Lim l = limiter("limiter", 6); l.p = sym_choice("p", 4); l.q = sym_choice("q", 3); if (l.k == 2 || l.k == 5) sym_assume(l.q <= d); VU v; for (unsigned i = 0; i < d; ++i) v.push_back(sym_uint(nm("v", i).c_str(), 0, 1000)); MultiIndex m(v); sym_assert(l.lib(d)(m) == l.ok(v), "limiter"); ML::Xor x(ML::TotalOrder(l.p), l.lib(d)); unsigned s = 0; for (unsigned y : v) s += y; sym_assert(x(m) == ((s <= l.p) ^ l.ok(v)), "exclusive or"); std::vector<unsigned> deg(d + 1, 1000); ML::MaxDegree w(deg); sym_assert(!w(m), "degrees of another length"); sym_reach("limiters"); }
HARNESS(anisotropic) { unsigned d = 1 + sym_choice("dim", 2); std::vector<double> w; VU v; double pr = 1; int ok = 1; for (unsigned i = 0; i < d; ++i) { w.push_back(symd("w", i)); ok &= (w[i] >= 0) & (w[i] <= 1); v.push_back(sym_choice(nm("v", i).c_str(), 4)); } double e = sym_double("eps"); ok &= (e > 0) & (e < 1); for (unsigned i = 0; i < d; ++i) for (unsigned k = 0; k < v[i]; ++k) pr *= w[i]; std::shared_ptr<ML::Anisotropic> L; bool th = throws([&] { L = std::make_shared<ML::Anisotropic>(w, e); }); sym_assert(th == !ok, "weights and threshold are validated"); if (!th) { sym_assert((*L)(MultiIndex(v)) == (pr >= e), "anisotropic limiter"); v.push_back(0); sym_assert(!(*L)(MultiIndex(v)), "another length"); } sym_reach("anisotropic"); }
HARNESS(matrix) { unsigned d = 1 + sym_choice("dim", 2), n = sym_choice("rows", 3); Eigen::MatrixXi A(n, d); Model M{d, limiter("limiter", 1), {}}; for (unsigned i = 0; i < n; ++i) { VU v = symM("a", i, d, 2); for (unsigned j = 0; j < d; ++j) A(i, j) = v[j]; addModel(M, v); } MultiIndexSet S(A); agree(S, M); MultiIndexSet T(d + 1); sym_assert(throws([&] { T = S; }), "assignment needs equal lengths"); sym_assert(T.Size() == 0 && T.Length() == d + 1, "a rejected assignment changes nothing"); sym_assert(throws([&] { S.Expand(n); }), "expanding a non-member is an error"); sym_reach("matrix"); }
