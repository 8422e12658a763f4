#include "poly.h"
#include <sstream>
#include <cmath>
std::vector<Atom> g_atoms;
static std::map<std::tuple<int,E,int,std::vector<int>>, int> atomIdx;
static std::vector<const Poly*> polys;
struct PCmp { bool operator()(const Poly* a, const Poly* b) const {
  if (a->size() != b->size()) return a->size() < b->size();
  auto i = a->begin(), j = b->begin();
  for (; i != a->end(); ++i, ++j) { if (!(i->first == j->first)) return i->first < j->first; int c = cmp(i->second, j->second); if (c) return c < 0; }
  return false; } };
static std::map<const Poly*, int, PCmp> polyIdx;
const Poly& polyAt(int id) { return *polys[id]; }
int internPoly(const Poly& p) { auto it = polyIdx.find(&p); if (it != polyIdx.end()) return it->second;
  auto q = new Poly(p); polys.push_back(q); return polyIdx[q] = (int)polys.size() - 1; }
static int atom(AtomKind k, E e, int sym, std::vector<int> args) {
  auto key = std::make_tuple((int)k, e, sym, args); auto it = atomIdx.find(key); if (it != atomIdx.end()) return it->second;
  g_atoms.push_back({k, e, sym, args}); return atomIdx[key] = (int)g_atoms.size() - 1; }
mpq_class qOf(double d) { if (!std::isfinite(d)) throw TooBig(); mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
static Poly pConst(const mpq_class& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
static void addTo(Poly& p, const Mono& m, const mpq_class& c) { if (c == 0) return; auto it = p.find(m); if (it == p.end()) p[m] = c; else { it->second += c; if (it->second == 0) p.erase(it); } }
Poly pAdd(const Poly& a, const Poly& b, const mpq_class& s) { Poly r = a; for (auto& t : b) addTo(r, t.first, t.second * s); if (r.size() > 20000) throw TooBig(); return r; }
Poly expPoly(const Poly& p);
static bool isConst(const Poly& p, mpq_class& c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first == Mono()) { c = p.begin()->second; return true; } return false; }
// multiply monomials; result may be a polynomial (sqrt powers)
static void mulMono(const Mono& a, const Mono& b, const mpq_class& c, Poly& out) {
  Mono m; mpq_class cc = c;
  if (a.ex < 0) m.ex = b.ex; else if (b.ex < 0) m.ex = a.ex; else { Poly s = pAdd(polyAt(a.ex), polyAt(b.ex), 1); m.ex = s.empty() ? -1 : internPoly(s); }
  std::vector<std::pair<int,int>> sq;
  size_t i = 0, j = 0;
  while (i < a.f.size() || j < b.f.size()) {
    std::pair<int,int> t;
    if (j >= b.f.size() || (i < a.f.size() && a.f[i].first < b.f[j].first)) t = a.f[i++];
    else if (i >= a.f.size() || b.f[j].first < a.f[i].first) t = b.f[j++];
    else { t = {a.f[i].first, a.f[i].second + b.f[j].second}; i++; j++; }
    if (!t.second) continue;
    if (g_atoms[t.first].kind == A_SQRT && (t.second > 1 || t.second < 0)) { sq.push_back(t); continue; }
    m.f.push_back(t);
  }
  if (sq.empty()) { addTo(out, m, cc); return; }
  Poly r; r[m] = cc;
  for (auto& t : sq) { int n = t.second; int rem = ((n % 2) + 2) % 2; int h = (n - rem) / 2;
    if (rem) { Mono s; s.f = {{t.first, 1}}; Poly sp; sp[s] = 1; r = pMul(r, sp); }
    const Poly& base = polyAt(g_atoms[t.first].args[0]);
    if (h > 0) for (int k = 0; k < h; k++) r = pMul(r, base);
    else { extern Poly pInv(const Poly&); Poly iv = pInv(base); for (int k = 0; k < -h; k++) r = pMul(r, iv); } }
  for (auto& t : r) addTo(out, t.first, t.second);
}
Poly pMul(const Poly& a, const Poly& b) {
  if (a.size() * b.size() > 60000) throw TooBig();
  Poly r; for (auto& x : a) for (auto& y : b) mulMono(x.first, y.first, x.second * y.second, r);
  return r;
}
static int expCmp(int x, int y) { // translation-invariant total order on exponential arguments
  if (x == y) return 0; Poly z; const Poly& px = x < 0 ? z : polyAt(x); const Poly& py = y < 0 ? z : polyAt(y);
  Poly d = pAdd(px, py, -1); if (d.empty()) return 0; return sgn(d.rbegin()->second); }
// p = c * mono * q with q canonical (primitive, lowest exponential factored out)
static void factorOut(const Poly& p, mpq_class& c, Mono& m, Poly& q) {
  m = Mono(); int ex = p.begin()->first.ex; for (auto& t : p) if (expCmp(t.first.ex, ex) < 0) ex = t.first.ex;
  std::map<int,int> mn; bool first = true;
  for (auto& t : p) { std::map<int,int> cur(t.first.f.begin(), t.first.f.end());
    if (first) { mn = cur; first = false; }
    else { for (auto it = mn.begin(); it != mn.end();) { auto f = cur.find(it->first); int v = f == cur.end() ? 0 : f->second; it->second = std::min(it->second, v); ++it; }
      for (auto& f : cur) if (!mn.count(f.first) && f.second < 0) mn[f.first] = f.second; } }
  m.ex = ex; for (auto& t : mn) if (t.second) m.f.push_back(t);
  Mono inv; if (ex >= 0) inv.ex = internPoly(pAdd(Poly(), polyAt(ex), -1)); for (auto& t : m.f) inv.f.push_back({t.first, -t.second});
  Poly ip; ip[inv] = 1; 
  bool sq = false; for (auto& t : m.f) if (g_atoms[t.first].kind == A_SQRT || g_atoms[t.first].kind == A_INV) sq = true;
  if (sq) { m.f.clear(); Mono i2; i2.ex = inv.ex; ip.clear(); ip[i2] = 1; }
  q = pMul(p, ip); c = q.rbegin()->second; for (auto& t : q) t.second /= c;
}
Poly pInv(const Poly& p) {
  if (p.empty()) throw TooBig();
  mpq_class c; Mono m; Poly q; factorOut(p, c, m, q);
  Mono inv; if (m.ex >= 0) inv.ex = internPoly(pAdd(Poly(), polyAt(m.ex), -1)); 
  for (auto& t : m.f) inv.f.push_back({t.first, -t.second});
  Poly r; r[inv] = 1 / c; mpq_class cc;
  if (isConst(q, cc)) return r;
  Mono im; bool mono1 = q.size() == 1;
  if (mono1) { // single monomial containing sqrt/inv atoms
    const Mono& qm = q.begin()->first; Poly acc = r; 
    if (qm.ex >= 0) { Poly e1 = pAdd(Poly(), polyAt(qm.ex), -1); Mono x; x.ex = internPoly(e1); Poly xp; xp[x] = 1; acc = pMul(acc, xp); }
    for (auto& t : qm.f) { 
      if (g_atoms[t.first].kind == A_INV && t.second > 0) { for (int k = 0; k < t.second; k++) acc = pMul(acc, polyAt(g_atoms[t.first].args[0])); }
      else { Mono x; x.f = {{t.first, -t.second}}; Poly xp; Poly one = pConst(1); mulMono(Mono(), x, 1, xp); acc = pMul(acc, xp); } }
    return acc; }
  im.f = {{atom(A_INV, nullptr, 0, {internPoly(q)}), 1}}; Poly ip; ip[im] = 1; return pMul(r, ip);
}
static Poly powInt(const Poly& p, long n) { Poly r = pConst(1); if (n < 0) { Poly i = pInv(p); for (long k = 0; k < -n; k++) r = pMul(r, i); } else for (long k = 0; k < n; k++) r = pMul(r, p); return r; }
Poly expPoly(const Poly& p) {
  Poly arg; Poly pre = pConst(1);
  for (auto& t : p) {
    if (t.first == Mono()) { pre = pMul(pre, pConst(qOf(std::exp(t.second.get_d())))); continue; }
    if (t.first.ex < 0 && t.first.f.size() == 1 && t.first.f[0].second == 1 && g_atoms[t.first.f[0].first].kind == A_LOG && t.second.get_den() == 1 && abs(t.second) <= 8) {
      pre = pMul(pre, powInt(polyAt(g_atoms[t.first.f[0].first].args[0]), t.second.get_num().get_si())); continue; }
    arg[t.first] = t.second; }
  if (arg.empty()) return pre;
  Mono m; m.ex = internPoly(arg); Poly r; r[m] = 1; return pMul(r, pre);
}
static Poly atomP(AtomKind k, E e, int sym, std::vector<int> args) { Mono m; m.f = {{atom(k, e, sym, args), 1}}; Poly p; p[m] = 1; return p; }
static Poly logPoly(const Poly& p) {
  if (p.empty()) throw TooBig();
  mpq_class c; Mono m; Poly q; factorOut(p, c, m, q); Poly r;
  if (m.ex >= 0) r = polyAt(m.ex);
  Mono m2; m2.f = m.f; Poly mp; mp[m2] = 1; Poly rest = pMul(q, mp);
  if (c > 0) r = pAdd(r, pConst(qOf(std::log(c.get_d()))), 1); else { for (auto& t : rest) t.second *= c; }
  mpq_class cc; if (isConst(rest, cc) && cc > 0) return pAdd(r, pConst(qOf(std::log(cc.get_d()))), 1);
  return pAdd(r, atomP(A_LOG, nullptr, 0, {internPoly(rest)}), 1);
}
static Poly sqrtPoly(const Poly& p) {
  mpq_class cc; if (isConst(p, cc)) return pConst(qOf(std::sqrt(cc.get_d())));
  mpq_class c; Mono m; Poly q; factorOut(p, c, m, q); Poly r = pConst(1); Poly rest = q;
  if (m.ex >= 0) { Poly h; h = pAdd(Poly(), polyAt(m.ex), mpq_class(1, 2)); r = pMul(r, expPoly(h)); }
  Mono m2; m2.f = m.f; Poly mp; mp[m2] = 1; rest = pMul(rest, mp);
  if (c > 0) r = pMul(r, pConst(qOf(std::sqrt(c.get_d())))); else for (auto& t : rest) t.second *= c;
  if (isConst(rest, cc)) return pMul(r, pConst(qOf(std::sqrt(cc.get_d()))));
  return pMul(r, atomP(A_SQRT, nullptr, 0, {internPoly(rest)}));
}
static std::unordered_map<E, int> memo;
int polyOf(E e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Poly r; auto P = [&](int i) -> const Poly& { return polyAt(polyOf(e->a[i])); };
  switch (e->k) {
    case K::CReal: r = pConst(qOf(realOf(e))); break;
    case K::RAdd: r = pAdd(P(0), P(1), 1); break; case K::RSub: r = pAdd(P(0), P(1), -1); break; case K::RNeg: r = pAdd(Poly(), P(0), -1); break;
    case K::RMul: r = pMul(P(0), P(1)); break;
    case K::RDiv: r = pMul(P(0), pInv(P(1))); break;
    case K::Fn: { auto& f = g_fns[e->c];
      if (f.builtin == F_EXP) r = expPoly(P(0)); else if (f.builtin == F_LOG) r = logPoly(P(0)); else if (f.builtin == F_SQRT) r = sqrtPoly(P(0));
      else { std::vector<int> args; for (auto x : e->a) args.push_back(polyOf(x));
        int sign = 1;
        if ((f.builtin == F_SIN || f.builtin == F_COS || f.builtin == F_ERF)) { const Poly& a0 = polyAt(args[0]); if (!a0.empty() && a0.rbegin()->second < 0) { args[0] = internPoly(pAdd(Poly(), a0, -1)); if (f.builtin != F_COS) sign = -1; } }
        r = atomP(A_FN, nullptr, (int)e->c, args); if (sign < 0) r = pAdd(Poly(), r, -1); }
      break; }
    case K::Var: r = atomP(A_VAR, e, 0, {}); break;
    default: r = atomP(A_OTHER, e, 0, {});
  }
  int id = internPoly(r); memo[e] = id; return id;
}
void clearDenoms(Poly& a, Poly& b, std::vector<int>& den) {
  for (int iter = 0; iter < 60; iter++) {
    int best = -1, mx = 0;
    for (auto* p : {&a, &b}) for (auto& t : *p) for (auto& f : t.first.f) { bool neg = f.second < 0, inv = g_atoms[f.first].kind == A_INV && f.second > 0; if ((neg || inv) && f.first > best) best = f.first; }
    if (best < 0) return;
    bool inv = g_atoms[best].kind == A_INV;
    for (auto* p : {&a, &b}) for (auto& t : *p) for (auto& f : t.first.f) if (f.first == best) mx = std::max(mx, inv ? f.second : -f.second);
    den.push_back(best);
    std::vector<Poly> pw; pw.push_back(pConst(1)); Poly base; if (inv) base = polyAt(g_atoms[best].args[0]); else { Mono m; m.f = {{best, 1}}; base[m] = 1; }
    for (int k = 1; k <= mx; k++) pw.push_back(pMul(pw.back(), base));
    for (auto* p : {&a, &b}) { Poly r;
      for (auto& t : *p) { Mono m; m.ex = t.first.ex; int k = 0; for (auto& f : t.first.f) if (f.first == best) k = inv ? f.second : -f.second; else m.f.push_back(f);
        Poly s; s[m] = t.second;
        if (!inv && k < 0) { // positive power stays, multiplied by base^mx
          Mono m3 = t.first; Poly s3; s3[m3] = t.second; s = pMul(s3, pw[mx]); } else s = pMul(s, pw[mx - k]);
        r = pAdd(r, s, 1); }
      *p = r; }
  }
  throw TooBig();
}
std::string pStr(const Poly& p) {
  std::ostringstream o; bool f = true; int n = 0;
  for (auto& t : p) { if (!f) o << " + "; f = false; if (++n > 12) { o << "...(" << p.size() << ")"; break; } o << t.second.get_d();
    if (t.first.ex >= 0) o << "*exp(" << pStr(polyAt(t.first.ex)) << ")";
    for (auto& x : t.first.f) { auto& a = g_atoms[x.first]; o << "*"; if (a.kind == A_VAR || a.kind == A_OTHER) o << toStr(a.e, 3); else { o << (a.kind == A_INV ? "inv" : a.kind == A_SQRT ? "sqrt" : a.kind == A_LOG ? "log" : "fn" + std::to_string(a.sym)) << "("; for (int q : a.args) o << pStr(polyAt(q)) << ","; o << ")"; } if (x.second != 1) o << "^" << x.second; } }
  if (f) o << "0"; return o.str();
}
