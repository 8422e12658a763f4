#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <random>
#include <cmath>
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <iostream>
Stats* G; std::map<int, VarDom> g_dom; long g_rl_branch = 400000, g_rl_assert = 6000000; int g_heavy_s = 20;
static z3::context* Cx() { static z3::context* c = new z3::context(); return c; }
static bool dbg() { static int d = getenv("SYMDBG") ? 1 : 0; return d; }

struct Lower {
  z3::context& c; std::map<int, z3::expr> vars; std::unordered_map<E, int> memoIx; std::vector<z3::expr> memoV; std::vector<z3::expr> ax;
  std::map<int, z3::expr> atomV; bool axioms; bool hasBV = false;
  struct EG { mpq_class g; bool sep = false; std::map<std::string, int> own; int v = -1, w = -1; };
  std::map<int, std::set<std::string>> groups; std::map<int, std::pair<mpq_class, std::pair<int,int>>> gv; // base -> (g, (v,w))
  std::vector<z3::expr> pool; std::set<int> seenP; std::set<int> atomsSeen;
  Lower(z3::context& c, bool ax) : c(c), axioms(ax) {}
  z3::expr q(const mpq_class& x) { return c.real_val(x.get_str().c_str()); }
  z3::expr var(int v) { auto it = vars.find(v); if (it != vars.end()) return it->second; auto& I = g_vars[v]; std::string n = "v" + std::to_string(v);
    z3::expr e = I.s == S::Real ? c.real_const(n.c_str()) : I.s == S::Bool ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), I.w); if (I.s != S::Real) hasBV = true; vars.emplace(v, e); return e; }
  // ---- polynomials
  void gather(int pid) { if (!seenP.insert(pid).second) return; 
    for (auto& t : polyAt(pid)) { if (t.first.ex >= 0) { Poly b = polyAt(t.first.ex); mpq_class lc = b.rbegin()->second; for (auto& x : b) x.second /= lc; int bi = internPoly(b); groups[bi].insert(lc.get_str()); if (axioms) gather(bi); }
      for (auto& f : t.first.f) { auto& a = g_atoms[f.first]; if (!atomsSeen.insert(f.first).second) continue;
        if (a.kind == A_INV || a.kind == A_SQRT || (a.kind == A_LOG && axioms)) gather(a.args[0]); 
        if (a.kind == A_FN && axioms) for (int x : a.args) gather(x); } } }
  void buildGroups() {
    for (auto& g : groups) { if (gv.count(g.first)) continue; mpz_class num = 0, den = 1; 
      for (auto& s : g.second) { mpq_class x(s); mpz_class n = abs(x.get_num()); num = num == 0 ? n : gcd(num, n); mpz_class d = x.get_den(); den = lcm(den, d); }
      // gcd of rationals a_i/b_i: gcd over common denominator
      mpz_class gg = 0; for (auto& s : g.second) { mpq_class x(s); x = abs(x * mpq_class(den)); gg = gg == 0 ? x.get_num() : gcd(gg, x.get_num()); }
      mpq_class gq(gg, den); gq.canonicalize(); 
      int v = pool.size(); pool.push_back(c.real_const(("exp" + std::to_string(g.first)).c_str())); ax.push_back(pool[v] > 0);
      int w = pool.size(); pool.push_back(c.real_const(("iexp" + std::to_string(g.first)).c_str()));
      bool neg = false; for (auto& s : g.second) if (sgn(mpq_class(s)) < 0) neg = true;
      if (neg) { ax.push_back(pool[w] > 0); ax.push_back(pool[v] * pool[w] == 1); }
      gv[g.first] = {gq, {v, w}};
    } }
  z3::expr power(z3::expr b, int n) { z3::expr r = b; for (int i = 1; i < n; i++) r = r * b; return r; }
  z3::expr expOf(int pid) { Poly b = polyAt(pid); mpq_class lc = b.rbegin()->second; for (auto& x : b) x.second /= lc; int bi = internPoly(b);
    if (!gv.count(bi)) { groups[bi].insert(lc.get_str()); buildGroups(); }
    auto& g = gv[bi]; mpq_class k = lc / g.first; 
    if (k.get_den() != 1 || abs(k) > 24) { z3::expr v = c.real_const(("expx" + std::to_string(pid)).c_str()); ax.push_back(v > 0); return v; }
    int n = k.get_num().get_si(); return n > 0 ? power(pool[g.second.first], n) : power(pool[g.second.second], -n); }
  z3::expr atomE(int a) {
    auto it = atomV.find(a); if (it != atomV.end()) return it->second; Atom at = g_atoms[a];
    z3::expr r = at.kind == A_VAR ? var((int)at.e->c) : c.real_const(("a" + std::to_string(a)).c_str());
    if (at.kind == A_OTHER) r = structural(at.e);
    atomV.emplace(a, r);
    switch (at.kind) {
      case A_INV: ax.push_back(r * poly(at.args[0]) == 1); break;
      case A_SQRT: { z3::expr p = poly(at.args[0]); ax.push_back(r >= 0); ax.push_back(r * r == p); ax.push_back(p >= 0); break; }
      case A_LOG: if (axioms) { z3::expr p = poly(at.args[0]); ax.push_back(p > 0); ax.push_back(r <= p - 1); ax.push_back((p > 1) == (r > 0)); ax.push_back((p < 1) == (r < 0)); } break;
      case A_FN: { auto& f = g_fns[at.sym]; int tot = 0; for (int d : f.der) tot += d;
        if (f.builtin == F_USER && (f.fid & 1)) { if (tot <= 1) ax.push_back(r > 0); }
        if (f.builtin == F_SIN || f.builtin == F_COS) { ax.push_back(r >= -1); ax.push_back(r <= 1); }
        if (f.builtin == F_ERF) { ax.push_back(r > -1); ax.push_back(r < 1); if (axioms) { z3::expr p = poly(at.args[0]); ax.push_back((p > 0) == (r > 0)); ax.push_back((p < 0) == (r < 0)); } }
        if (f.builtin == F_FLOOR && axioms) { z3::expr p = poly(at.args[0]); z3::expr n = c.int_const(("fl" + std::to_string(a)).c_str()); ax.push_back(r == z3::to_real(n)); ax.push_back(r <= p); ax.push_back(p < r + 1); }
        break; }
      default: break; }
    return r; }
  z3::expr poly(int pid) { const Poly& p = polyAt(pid); if (p.empty()) return c.real_val(0); z3::expr s(c); bool first = true;
    for (auto& t : p) { z3::expr m(c); bool have = false; auto mulIn = [&](z3::expr e) { m = have ? m * e : e; have = true; };
      if (t.first.ex >= 0) mulIn(expOf(t.first.ex));
      for (auto& f : t.first.f) { z3::expr a = atomE(f.first); 
        if (f.second > 0) mulIn(power(a, f.second)); else { // negative power of a variable atom
          std::string n = "rec" + std::to_string(f.first); z3::expr rv = c.real_const(n.c_str()); ax.push_back(rv * a == 1); mulIn(power(rv, -f.second)); } }
      z3::expr term = have ? (t.second == 1 ? m : q(t.second) * m) : q(t.second); s = first ? term : s + term; first = false; }
    return s; }
  void finishAxioms() { if (!axioms) return; size_t n0 = 0;
    std::vector<std::pair<z3::expr, z3::expr>> ex;
    std::vector<int> bases; for (auto& g : gv) bases.push_back(g.first);
    if (bases.size() <= 10) { for (int b : bases) { z3::expr a = q(gv[b].first) * poly(b); z3::expr v = pool[gv[b].second.first]; ax.push_back((a > 0) == (v > 1)); ax.push_back((a < 0) == (v < 1)); ax.push_back(v >= 1 + a); ex.push_back({a, v}); }
      if (ex.size() <= 6) for (size_t i = 0; i < ex.size(); i++) for (size_t j = i + 1; j < ex.size(); j++) { ax.push_back((ex[i].first < ex[j].first) == (ex[i].second < ex[j].second)); ax.push_back((ex[i].first == ex[j].first) == (ex[i].second == ex[j].second)); } }
    std::map<int, std::vector<int>> bySym; std::vector<int> logs; std::vector<int> keys; for (auto& a : atomV) keys.push_back(a.first);
    for (int a : keys) { if (g_atoms[a].kind == A_FN) bySym[g_atoms[a].sym].push_back(a); if (g_atoms[a].kind == A_LOG) logs.push_back(a); }
    if (logs.size() <= 6) for (size_t i = 0; i < logs.size(); i++) for (size_t j = i + 1; j < logs.size(); j++) { z3::expr p = poly(g_atoms[logs[i]].args[0]), r = poly(g_atoms[logs[j]].args[0]); ax.push_back((p < r) == (atomE(logs[i]) < atomE(logs[j]))); ax.push_back((p == r) == (atomE(logs[i]) == atomE(logs[j]))); }
    if (logs.size() * ex.size() <= 24) for (int l : logs) for (auto& x : ex) { z3::expr p = poly(g_atoms[l].args[0]), L = atomE(l); ax.push_back((L < x.first) == (p < x.second)); ax.push_back((L == x.first) == (p == x.second)); }
    for (auto& s : bySym) if (s.second.size() <= 8) for (size_t i = 0; i < s.second.size(); i++) for (size_t j = i + 1; j < s.second.size(); j++) {
      auto &A = g_atoms[s.second[i]], &B = g_atoms[s.second[j]]; if (A.args.size() != B.args.size()) continue; z3::expr_vector ev(c);
      std::vector<int> aa = A.args, bb = B.args; z3::expr cond = c.bool_val(true);
      for (size_t k = 0; k < aa.size(); k++) cond = cond && poly(aa[k]) == poly(bb[k]);
      ax.push_back(z3::implies(cond, atomE(s.second[i]) == atomE(s.second[j]))); }
    (void)n0; }
  // ---- expressions
  z3::expr real(E e) { if (!(e->flags & 4)) { int p = polyOf(e); gather(p); buildGroups(); return poly(p); } return structural(e); }
  z3::expr structural(E e) {
    auto it = memoIx.find(e); if (it != memoIx.end()) return memoV[it->second];
    z3::expr r = structural0(e); memoIx[e] = memoV.size(); memoV.push_back(r); return r; }
  z3::expr structural0(E e) {
    auto X = [&](int i) { return e->a[i]->s == S::Real ? real(e->a[i]) : structural(e->a[i]); };
    auto B = [&](int i) { return structural(e->a[i]); };
    switch (e->k) {
      case K::CBool: return c.bool_val((bool)e->c); case K::CBV: return c.bv_val((uint64_t)e->c, e->w); case K::CReal: return q(qOf(realOf(e)));
      case K::Var: return var((int)e->c);
      case K::Not: return !B(0); case K::And: return B(0) && B(1); case K::Or: return B(0) || B(1); case K::XorB: return B(0) != B(1); case K::EqBool: return B(0) == B(1); case K::EqBV: return B(0) == B(1);
      case K::Ult: return z3::ult(B(0), B(1)); case K::Ule: return z3::ule(B(0), B(1)); case K::Slt: return z3::slt(B(0), B(1)); case K::Sle: return z3::sle(B(0), B(1));
      case K::RLt: case K::RLe: case K::REq: {
        if (!(e->flags & 4)) { int p = internPoly(pAdd(polyAt(polyOf(e->a[0])), polyAt(polyOf(e->a[1])), -1)); gather(p); buildGroups(); z3::expr d = poly(p); return e->k == K::RLt ? d < 0 : e->k == K::RLe ? d <= 0 : d == 0; }
        return e->k == K::RLt ? X(0) < X(1) : e->k == K::RLe ? X(0) <= X(1) : X(0) == X(1); }
      case K::Add: return B(0) + B(1); case K::Sub: return B(0) - B(1); case K::Mul: return B(0) * B(1); case K::UDiv: return z3::udiv(B(0), B(1)); case K::SDiv: return B(0) / B(1);
      case K::URem: return z3::urem(B(0), B(1)); case K::SRem: return z3::srem(B(0), B(1)); case K::BAnd: return B(0) & B(1); case K::BOr: return B(0) | B(1); case K::BXor: return B(0) ^ B(1);
      case K::Shl: return z3::shl(B(0), B(1)); case K::LShr: return z3::lshr(B(0), B(1)); case K::AShr: return z3::ashr(B(0), B(1));
      case K::Concat: return z3::concat(B(0), B(1)); case K::Extract: return B(0).extract((unsigned)(e->c + e->w - 1), (unsigned)e->c); case K::ZExt: return z3::zext(B(0), e->w - e->a[0]->w); case K::SExt: return z3::sext(B(0), e->w - e->a[0]->w);
      case K::Ite: return z3::ite(structural(e->a[0]), X(1), X(2));
      case K::RAdd: return X(0) + X(1); case K::RSub: return X(0) - X(1); case K::RMul: return X(0) * X(1); case K::RDiv: { z3::expr d = X(1); z3::expr r = c.real_const(("div" + std::to_string(e->id)).c_str()); ax.push_back(r * d == X(0)); return r; } case K::RNeg: return -X(0);
      case K::Fn: { z3::expr r = c.real_const(("fn" + std::to_string(e->id)).c_str()); int b = g_fns[e->c].builtin; if (b == F_EXP) ax.push_back(r > 0); if (b == F_SQRT) { ax.push_back(r >= 0); ax.push_back(r * r == X(0)); } if (b == F_USER && (g_fns[e->c].fid & 1)) ax.push_back(r > 0); return r; }
      case K::U2R: hasBV = true; return z3::to_real(z3::bv2int(B(0), false)); case K::S2R: hasBV = true; return z3::to_real(z3::bv2int(B(0), true));
      case K::R2Bits: hasBV = true; return c.bv_const(("bits" + std::to_string(e->id)).c_str(), 64);
    }
    throw TooBig(); }
};

static double numOf(const z3::expr& v) {
  if (v.is_numeral()) { std::string s = v.get_decimal_string(20); if (!s.empty() && s.back() == '?') s.pop_back(); return atof(s.c_str()); }
  if (v.is_algebraic()) { std::string s = v.get_decimal_string(20); if (!s.empty() && s.back() == '?') s.pop_back(); return atof(s.c_str()); }
  return 0; }
static void readModel(z3::model m, Lower& L, Assign& as) {
  for (auto& v : L.vars) { auto& I = g_vars[v.first];
    try { z3::expr x = m.eval(v.second, true); if (I.s == S::Real) as.r[v.first] = numOf(x); else if (I.s == S::Bool) as.b[v.first] = x.is_true(); else as.b[v.first] = x.get_numeral_uint64(); } catch (z3::exception&) {} } }

static z3::check_result runZ3(Lower& L, const z3::expr_vector& fs, long rl, Assign* as, bool nlsat) {
  auto t0 = std::chrono::steady_clock::now(); z3::check_result r = z3::unknown;
  try {
    z3::solver s = nlsat ? (z3::tactic(L.c, "simplify") & z3::tactic(L.c, "purify-arith") & z3::tactic(L.c, "elim-term-ite") & z3::tactic(L.c, "solve-eqs") & z3::tactic(L.c, "tseitin-cnf") & z3::tactic(L.c, "nlsat")).mk_solver() : z3::solver(L.c);
    z3::params p(L.c); if (rl) p.set("rlimit", (unsigned)rl); s.set(p);
    for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]); for (auto& a : L.ax) s.add(a);
    if (dbg() && getenv("SYMDBG")[0] == '3') std::cerr << s << "\n"; r = s.check(); if (r == z3::sat && as) readModel(s.get_model(), L, *as);
  } catch (z3::exception& e) { if (dbg()) std::cerr << "z3: " << e.msg() << "\n"; r = z3::unknown; }
  long us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  __sync_fetch_and_add(&G->solver_us, us); __sync_fetch_and_add(&G->queries, 1); if (r == z3::unsat) __sync_fetch_and_add(&G->unsat, 1); else if (r == z3::sat) __sync_fetch_and_add(&G->sat, 1); else __sync_fetch_and_add(&G->unknown, 1);
  return r;
}
// run in a forked child that is killed after `secs`
static z3::check_result runForked(Lower& L, const z3::expr_vector& fs, int secs, Assign* as, bool nlsat) {
  int fd[2]; if (pipe(fd)) return z3::unknown; pid_t p = fork();
  if (p == 0) { close(fd[0]); signal(SIGALRM, SIG_DFL); alarm(secs); Assign a; int r = runZ3(L, fs, 0, &a, nlsat); 
    std::string o((char*)&r, 4); int n = a.r.size(); o.append((char*)&n, 4); for (auto& x : a.r) { int k = x.first; o.append((char*)&k, 4); o.append((char*)&x.second, 8); } n = a.b.size(); o.append((char*)&n, 4); for (auto& x : a.b) { int k = x.first; o.append((char*)&k, 4); o.append((char*)&x.second, 8); }
    (void)!write(fd[1], o.data(), o.size()); _exit(0); }
  close(fd[1]); std::string in; char buf[65536]; ssize_t n; auto t0 = std::chrono::steady_clock::now(); while ((n = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, n); close(fd[0]); int st; waitpid(p, &st, 0);
  if (in.size() < 4) { long us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); __sync_fetch_and_add(&G->solver_us, us); __sync_fetch_and_add(&G->queries, 1); __sync_fetch_and_add(&G->unknown, 1); return z3::unknown; }
  const char* q = in.data(); int r; memcpy(&r, q, 4); q += 4; if (as && r == z3::sat) { int m; memcpy(&m, q, 4); q += 4; while (m--) { int k; double d; memcpy(&k, q, 4); memcpy(&d, q + 4, 8); q += 12; as->r[k] = d; } memcpy(&m, q, 4); q += 4; while (m--) { int k; uint64_t d; memcpy(&k, q, 4); memcpy(&d, q + 4, 8); q += 12; as->b[k] = d; } }
  return (z3::check_result)r;
}

static const std::set<int>& varsOf(E e) { static std::unordered_map<E, std::set<int>> m; auto it = m.find(e); if (it != m.end()) return it->second; std::set<int> s; collectVars(e, s); return m[e] = s; }
static std::vector<E> slice(const std::set<int>& seed, const std::vector<E>& pc) {
  std::set<int> v = seed; std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { auto& s = varsOf(pc[i]); bool hit = false; for (int x : s) if (v.count(x)) { hit = true; break; } if (hit) { in[i] = 1; v.insert(s.begin(), s.end()); ch = true; } } }
  std::vector<E> r; for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]); return r; }
static void domAxioms(Lower& L, const std::set<int>& vs, z3::expr_vector& fs) { for (int v : vs) { auto it = g_dom.find(v); if (it != g_dom.end() && it->second.has) { fs.push_back(L.var(v) >= L.q(qOf(it->second.lo))); fs.push_back(L.var(v) <= L.q(qOf(it->second.hi))); } } }
static std::vector<Assign> cache;
static bool evalAll(const std::vector<E>& es, const Assign& a) { Evaluator ev(a); for (E e : es) { if (!ev.bv(e)) return false; } return !ev.bad; }
static bool domOK(const Assign& a, const std::set<int>& vs) { for (int v : vs) { auto it = g_dom.find(v); if (it != g_dom.end()) { auto x = a.r.find(v); double d = x == a.r.end() ? 0 : x->second; if (d < it->second.lo || d > it->second.hi) return false; } } return true; }

// sign constraint a comparison puts on its (monic) normal-form difference: bits 1 negative, 2 zero, 4 positive
static std::pair<int,int> signOf(E c) {
  static std::unordered_map<E, std::pair<int,int>> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
  std::pair<int,int> r(-1, 7); E e = c; bool neg = false; while (e->k == K::Not) { e = e->a[0]; neg = !neg; }
  if ((e->k == K::RLt || e->k == K::RLe || e->k == K::REq) && !(e->flags & 4)) try {
    Poly d = pAdd(polyAt(polyOf(e->a[0])), polyAt(polyOf(e->a[1])), -1); int m = e->k == K::RLt ? 1 : e->k == K::RLe ? 3 : 2;
    if (!d.empty() && d.size() < 4000) { mpq_class lc = d.rbegin()->second; for (auto& t : d) t.second /= lc; if (sgn(lc) < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); if (neg) m = 7 & ~m; r = {internPoly(d), m}; } } catch (TooBig&) {}
  return memo[c] = r; }
// 0: c contradicts pc, 1: implied, -1: no syntactic answer
static int quick(E c, const std::vector<E>& pc) { auto s = signOf(c); if (s.first < 0) return -1; int m = 7; for (E e : pc) { auto t = signOf(e); if (t.first == s.first) m &= t.second; } if (!(m & s.second)) return 0; if (!(m & ~s.second)) return 1; return -1; }

int feasible(E c, const std::vector<E>& pc) {
  if (isC(c)) return (int)c->c;
  { int qk = quick(c, pc); if (qk >= 0) return qk; }
  std::vector<E> sl = slice(varsOf(c), pc); std::set<int> vs = varsOf(c); for (E e : sl) vs.insert(varsOf(e).begin(), varsOf(e).end());
  std::vector<E> all = sl; all.push_back(c);
  for (int i = (int)cache.size() - 1; i >= 0; i--) if (domOK(cache[i], vs) && evalAll(all, cache[i])) { bool have = true; for (int v : vs) if (!cache[i].r.count(v) && !cache[i].b.count(v)) { have = false; break; } if (have) return 1; }
  try { Lower L(*Cx(), true); z3::expr_vector fs(*Cx()); for (E e : all) fs.push_back(L.structural(e)); domAxioms(L, vs, fs); L.finishAxioms(); Assign a;
    auto r = runZ3(L, fs, g_rl_branch, &a, false); if (r == z3::unsat) return 0;
    if (r == z3::sat) { cache.push_back(a); if (cache.size() > 24) cache.erase(cache.begin()); }
  } catch (TooBig&) {}
  return 1;
}
static std::mt19937_64 rng(12345);
static double rnd(int v, bool wild) { auto it = g_dom.find(v); double u = (rng() >> 11) * (1.0 / 9007199254740992.0);
  if (it != g_dom.end() && it->second.has) { int z = rng() % 8; if (z == 0) return it->second.lo; if (z == 1) return it->second.hi; return it->second.lo + u * (it->second.hi - it->second.lo); }
  static const double grid[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 0.25, 1.5, -1.5, 5, -7}; int z = rng() % 10; if (z < 2) return grid[rng() % 14]; if (wild && z == 2) return (u - 0.5) * 40; return (u - 0.5) * 5; }
static bool violates(E cond, E a, E b, const Assign& as) { Evaluator ev(as);
  if (cond) { uint64_t r = ev.bv(cond); return !ev.bad && !r; }
  double x = ev.real(a), y = ev.real(b); return !ev.bad && std::fabs(x - y) > 1e-6 * (1 + std::fabs(x) + std::fabs(y)); }
static bool search(E cond, E a, E b, const std::vector<E>& pc, const std::set<int>& vs, Assign& out, const Assign* seed, int tries) {
  for (int t = 0; t < tries; t++) { Assign as; if (seed) as = *seed;
    if (!seed && !cache.empty() && t % 3 == 1) as = cache[rng() % cache.size()];
    for (int v : vs) { auto& I = g_vars[v]; bool have = as.r.count(v) || as.b.count(v);
      if (I.s == S::Real) { if (!have) as.r[v] = rnd(v, t % 4 == 3); else if (seed && t > 0) { int m = rng() % 4; if (m == 0) as.r[v] += (rnd(v, false)) * 0.01; else if (m == 1) as.r[v] = rnd(v, false); } else if (!seed && rng() % 2) as.r[v] = rnd(v, false); }
      else if (!have) as.b[v] = maskw(rng() % 4 ? rng() % 8 : rng(), I.w); }
    if (!domOK(as, vs)) continue; if (!evalAll(pc, as)) continue; if (violates(cond, a, b, as)) { out = as; return true; } }
  return false; }
bool model(const std::vector<E>& pc, Assign& out) {
  std::set<int> vs; for (E e : pc) vs.insert(varsOf(e).begin(), varsOf(e).end());
  E F = mkBool(false); if (search(F, nullptr, nullptr, pc, vs, out, nullptr, 60)) return true;
  try { Lower L(*Cx(), true); z3::expr_vector fs(*Cx()); for (E e : pc) fs.push_back(L.structural(e)); domAxioms(L, vs, fs); L.finishAxioms(); Assign a;
    auto r = runForked(L, fs, 10, &a, false); if (r == z3::sat) { if (search(F, nullptr, nullptr, pc, vs, out, &a, 200)) return true; } } catch (TooBig&) {}
  return search(F, nullptr, nullptr, pc, vs, out, nullptr, 1000); }
uint64_t pickValue(E bv, const std::vector<E>& pc, bool& ok) {
  ok = false; std::vector<E> sl = slice(varsOf(bv), pc);
  try { Lower L(*Cx(), true); z3::expr_vector fs(*Cx()); for (E e : sl) fs.push_back(L.structural(e)); z3::expr t = L.structural(bv); L.finishAxioms();
    auto t0 = std::chrono::steady_clock::now(); z3::solver s(*Cx()); z3::params p(*Cx()); p.set("rlimit", 4000000u); s.set(p); for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]); for (auto& a : L.ax) s.add(a);
    auto r = s.check(); __sync_fetch_and_add(&G->solver_us, (long)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count()); __sync_fetch_and_add(&G->queries, 1);
    if (r == z3::sat) __sync_fetch_and_add(&G->sat, 1); else if (r == z3::unsat) __sync_fetch_and_add(&G->unsat, 1); else __sync_fetch_and_add(&G->unknown, 1);
    if (r != z3::sat) return 0; ok = true; return s.get_model().eval(t, true).get_numeral_uint64();
  } catch (TooBig&) { return 0; } catch (z3::exception&) { ok = false; return 0; } }

// ---- deciding an assertion
static E subst(E e, const std::map<E, bool>& asg, std::unordered_map<E, E>& memo) {
  if (e->a.empty()) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r;
  auto S1 = [&](int i) { return subst(e->a[i], asg, memo); };
  if (e->k == K::Ite && e->s == S::Real) { E c = S1(0); bool known = isC(c), val = known && c->c; if (!known) { auto f = asg.find(c); if (f != asg.end()) { known = true; val = f->second; } else { auto g = asg.find(mkNot(c)); if (g != asg.end()) { known = true; val = !g->second; } } }
    if (known) r = val ? S1(1) : S1(2); else r = mkIte(c, S1(1), S1(2)); return memo[e] = r; }
  std::vector<E> a; bool same = true; for (size_t i = 0; i < e->a.size(); i++) { a.push_back(S1(i)); same &= a[i] == e->a[i]; }
  if (same) r = e; else switch (e->k) {
    case K::Not: r = mkNot(a[0]); break; case K::And: r = mkAnd(a[0], a[1]); break; case K::Or: r = mkOr(a[0], a[1]); break; case K::RLt: r = mkRLt(a[0], a[1]); break; case K::RLe: r = mkRLe(a[0], a[1]); break; case K::REq: r = mkEq(a[0], a[1]); break;
    case K::RAdd: r = mkRAdd(a[0], a[1]); break; case K::RSub: r = mkRSub(a[0], a[1]); break; case K::RMul: r = mkRMul(a[0], a[1]); break; case K::RDiv: r = mkRDiv(a[0], a[1]); break; case K::RNeg: r = mkRNeg(a[0]); break;
    case K::Fn: r = mkFn((int)e->c, a); break; default: r = mk(e->k, e->s, e->w, e->c, a); }
  return memo[e] = r; }
static E findIte(E e, std::set<E>& seen) { if (!(e->flags & 4)) return nullptr; if (!seen.insert(e).second) return nullptr; for (E x : e->a) { E r = findIte(x, seen); if (r) return r; } if (e->k == K::Ite && e->s == S::Real) return e->a[0]; return nullptr; }
struct Prover {
  E cond, a, b; std::vector<E> sl, pc; std::set<int> vs; int leaves = 0; std::string note; bool undecided = false;
  std::map<E, bool> asg; std::vector<E> conds;
  bool trySat(Assign& m, Assign& w) { return search(cond, a, b, pc, vs, w, &m, 40); }
  Res leaf(Assign& w) {
    std::unordered_map<E, E> memo; E c2 = cond ? subst(cond, asg, memo) : nullptr, a2 = cond ? nullptr : subst(a, asg, memo), b2 = cond ? nullptr : subst(b, asg, memo);
    if (c2 && isC(c2) && c2->c) { __sync_fetch_and_add(&G->trivial, 1); return HOLDS; }
    if (conds.empty()) { if (c2 ? quick(c2, sl) == 1 : false) { __sync_fetch_and_add(&G->trivial, 1); return HOLDS; } }
    try {
      int dp = -1;
      if (!c2) { Poly pa = polyAt(polyOf(a2)), pb = polyAt(polyOf(b2)); std::vector<int> den; 
        try { Poly qa = pa, qb = pb; clearDenoms(qa, qb, den); pa = qa; pb = qb; } catch (TooBig&) {}
        mpq_class mx = 0; for (auto* p : {&pa, &pb}) for (auto& t : *p) if (abs(t.second) > mx) mx = abs(t.second);
        Poly d = pAdd(pa, pb, -1); mpq_class thr = mx * mpq_class(1l, 100000000000l); Poly d2; for (auto& t : d) if (abs(t.second) > thr) d2.insert(t);
        if (dbg()) { std::cerr << "EQ diff " << pStr(d2) << "\n"; if (getenv("SYMDBG")[0] == '2') std::cerr << "  A " << pStr(pa) << "\n  B " << pStr(pb) << "\n"; }
        dp = internPoly(d2); 
        Lower L(*Cx(), false); z3::expr_vector fs(*Cx()); L.gather(dp); L.buildGroups(); fs.push_back(L.poly(dp) != 0);
        if (d2.empty() || d2.size() < 60) { auto r = runZ3(L, fs, d2.empty() ? 0 : g_rl_branch, nullptr, false); if (r == z3::unsat) return HOLDS; }
        // d contains integer multiples of logarithms: a == b iff exp(a - b) == 1
        bool lg = false; for (auto& t : d2) if (t.first.ex < 0 && t.first.f.size() == 1 && g_atoms[t.first.f[0].first].kind == A_LOG) lg = true;
        if (lg) try { Poly one; one[Mono()] = 1; Poly E1 = expPoly(d2), E2 = one; std::vector<int> dn; clearDenoms(E1, E2, dn); mpq_class m2 = 0; for (auto* p : {&E1, &E2}) for (auto& t : *p) if (abs(t.second) > m2) m2 = abs(t.second);
          Poly dd = pAdd(E1, E2, -1), d3; mpq_class th2 = m2 * mpq_class(1l, 100000000000l); for (auto& t : dd) if (abs(t.second) > th2) d3.insert(t); if (dbg()) std::cerr << "EXP diff " << pStr(d3) << "\n"; 
          Lower L2(*Cx(), false); z3::expr_vector f2(*Cx()); int ip = internPoly(d3); L2.gather(ip); L2.buildGroups(); f2.push_back(L2.poly(ip) != 0); if (runZ3(L2, f2, g_rl_branch, nullptr, false) == z3::unsat) return HOLDS; } catch (TooBig&) {} }
      for (int stage = 0; stage < 3; stage++) {
        Lower L(*Cx(), true); z3::expr_vector fs(*Cx());
        if (c2) fs.push_back(!L.structural(c2)); else { L.gather(dp); L.buildGroups(); fs.push_back(L.poly(dp) != 0); }
        for (E e : sl) { E x = subst(e, asg, memo); fs.push_back(L.structural(x)); } for (E e : conds) fs.push_back(L.structural(e));
        domAxioms(L, vs, fs); L.finishAxioms(); Assign m; z3::check_result r;
        if (stage == 0) r = runZ3(L, fs, g_rl_assert / 4, &m, false);
        else if (stage == 1) { if (L.hasBV) r = runForked(L, fs, g_heavy_s, &m, false); else r = runForked(L, fs, g_heavy_s, &m, true); }
        else { if (L.hasBV) break; r = runForked(L, fs, g_heavy_s, &m, false); }
        if (dbg()) std::cerr << "stage " << stage << " " << r << "\n";
        if (r == z3::unsat) return HOLDS;
        if (r == z3::sat && trySat(m, w)) return VIOLATED;
        if (stage == 0 && search(cond, a, b, pc, vs, w, nullptr, 300)) return VIOLATED;
        if (r == z3::sat && stage >= 1) break;
      }
    } catch (TooBig&) { note = "expression too large for the normal form"; if (search(cond, a, b, pc, vs, w, nullptr, 300)) return VIOLATED; }
    catch (z3::exception& e) { note = e.msg(); }
    return UNDECIDED; }
  Res rec(Assign& w) {
    std::unordered_map<E, E> memo; std::set<E> seen; E c = nullptr;
    if (cond) { E x = subst(cond, asg, memo); c = findIte(x, seen); } else { E x = subst(a, asg, memo), y = subst(b, asg, memo); c = findIte(x, seen); if (!c) c = findIte(y, seen); }
    if (!c) { if (++leaves > 400) { note = "too many conditional cases"; return UNDECIDED; } return leaf(w); }
    Res out = HOLDS;
    for (int v = 1; v >= 0; v--) { E cc = v ? c : mkNot(c); std::vector<E> q = sl; q.insert(q.end(), conds.begin(), conds.end()); if (!feasible(cc, q)) continue;
      asg[c] = v; conds.push_back(cc); Res r = rec(w); conds.pop_back(); asg.erase(c); if (r == VIOLATED) return r; if (r == UNDECIDED) out = UNDECIDED; }
    return out; }
};
Verdict prove(E cond, E a, E b, const std::vector<E>& pc) {
  Verdict v; if (cond && isC(cond) && cond->c) { v.r = HOLDS; return v; }
  Prover p; p.cond = cond; p.a = a; p.b = b; p.pc = pc; std::set<int> seed; if (cond) seed = varsOf(cond); else { seed = varsOf(a); seed.insert(varsOf(b).begin(), varsOf(b).end()); }
  p.sl = slice(seed, pc); p.vs = seed; for (E e : pc) p.vs.insert(varsOf(e).begin(), varsOf(e).end());
  v.r = p.rec(v.w); v.note = p.note; return v; }
