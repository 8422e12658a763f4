// Symbolic executor for LLVM IR: concrete memory with symbolic overlays, doubles as exact reals, forking at symbolic branches.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cstring>
#include <cmath>
#include <chrono>
#include <iostream>
#include <sstream>
#include <iomanip>
using namespace llvm;
typedef ::S Sort;
struct Val { uint64_t c = 0; E e = nullptr; std::vector<Val>* agg = nullptr; };
static inline Val C(uint64_t c) { Val v; v.c = c; return v; }
static inline Val Dv(double d) { Val v; memcpy(&v.c, &d, 8); return v; }
static inline double dbl(const Val& v) { double d; memcpy(&d, &v.c, 8); return d; }
static Val SE(E e) { Val v; if (isC(e)) { v.c = e->c; return v; } v.e = e; return v; }

static Module* M; static const DataLayout* DL;
static std::vector<E> PC; static std::vector<std::pair<std::string,std::string>> choices;
struct Input { std::string key; int var; char kind; };  // kind r/i/b
static std::vector<Input> inputs; static std::map<std::string,int> nameCount; static std::map<std::string,E> inputVar;
static std::string entryName; static int outFd = 1; static double deadline = 0; static sem_t* tokens; static bool ownToken = false; static std::vector<pid_t> kids;
static uint8_t* covered; static long localInsts = 0; static long maxPaths = 1000000; static std::set<std::string> reachSeen;
static bool trace = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void reap(bool block) { for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG); if (r == kids[i]) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) __sync_fetch_and_add(&G->incomplete, 1); kids.erase(kids.begin() + i); } else i++; } }
[[noreturn]] static void endPath() { __sync_fetch_and_add(&G->insts, localInsts); if (ownToken) sem_post(tokens); reap(true); _exit(0); }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static void out(const std::string& s) { std::string t = s + "\n"; (void)!write(outFd, t.data(), t.size()); }

// ---------------------------------------------------------------- memory
static const uint64_t BASE = 0x10000;
struct Cell { E e; int sz; };
struct Shadow { int epoch; int wr; int rd; };
struct Obj { uint64_t size; uint8_t* d; uint8_t* init; std::map<uint32_t, Cell> sym; char kind; bool ro = false; int epoch = 0, iter = -1; const char* name; std::unordered_map<uint32_t, Shadow>* sh = nullptr; uint32_t poison = 0; };
static std::vector<Obj*> objs(16, nullptr);
static int parEpoch = 0, curIter = -1; static std::set<uint32_t> exemptObjs;
static uint64_t newObj(uint64_t size, char kind, bool init, const char* name) {
  if (size > (1ull << 31)) size = 1ull << 31; // the caller checks sizes
  Obj* o = new Obj(); o->size = size; o->d = (uint8_t*)calloc(size ? size : 1, 1); o->init = (uint8_t*)malloc(size ? size : 1); memset(o->init, init ? 1 : 0, size); o->kind = kind; o->name = name; o->epoch = parEpoch; o->iter = curIter;
  objs.push_back(o); return ((uint64_t)(objs.size() - 1) << 32) + BASE; }
static void delObj(uint32_t id) { Obj* o = objs[id]; if (!o) return; free(o->d); free(o->init); delete o->sh; delete o; objs[id] = nullptr; }
static std::string curLoc();
static void violation(const std::string& kind, const std::string& msg, Assign* w = nullptr, bool fatal = true);
[[noreturn]] static void unsupported(const std::string& m) { out("{\"kind\":\"unsupported\",\"entry\":\"" + entryName + "\",\"msg\":\"" + jesc(m) + "\",\"loc\":\"" + jesc(curLoc()) + "\"}"); __sync_fetch_and_add(&G->incomplete, 1); endPath(); }
static Obj* resolve(uint64_t addr, uint64_t size, bool write, uint32_t& off, const char* what) {
  uint64_t id = addr >> 32; int64_t o = (int64_t)(addr & 0xffffffffull) - (int64_t)BASE;
  if (id < 16 || id >= objs.size()) { violation("memory", std::string(what) + (addr == 0 || id == 0 ? ": null or invalid pointer" : ": wild pointer")); endPath(); }
  Obj* ob = objs[id];
  if (!ob) { violation("memory", std::string(what) + ": use after free or after scope"); endPath(); }
  if (o < 0 || (uint64_t)o + size > ob->size || (uint64_t)o < ob->poison) { std::ostringstream s; s << what << ": out of bounds, offset " << o - (int64_t)ob->poison << " size " << size << " in object of " << ob->size - ob->poison << " bytes (" << ob->name << ")"; violation("memory", s.str()); endPath(); }
  if (write && ob->ro) { violation("memory", std::string(what) + ": write to read-only memory"); endPath(); }
  off = (uint32_t)o; return ob; }
static bool atomicOp = false;
static void race(Obj* o, uint64_t id, uint32_t off, uint32_t size, bool wr) {
  if (curIter < 0 || atomicOp) return; if (o->epoch == parEpoch && o->iter == curIter) return; if (o->kind == 's' && o->epoch == parEpoch) return; if (exemptObjs.count(id)) return;
  if (!o->sh) { if (o->ro) return; o->sh = new std::unordered_map<uint32_t, Shadow>(); }
  for (uint32_t g = off & ~3u; g < off + size; g += 4) { Shadow& s = (*o->sh)[g]; if (s.epoch != parEpoch) s = {parEpoch, -1, -1};
    if (wr) { if ((s.wr >= 0 && s.wr != curIter) || (s.rd >= 0 && s.rd != curIter) || s.rd == -2) { std::ostringstream m; m << "data race: iteration " << curIter << " writes what iteration " << (s.wr >= 0 ? s.wr : s.rd) << (s.wr >= 0 ? " wrote" : " read") << " (object " << o->name << " offset " << off << ")"; violation("race", m.str()); endPath(); } s.wr = curIter; }
    else { if (s.wr >= 0 && s.wr != curIter) { std::ostringstream m; m << "data race: iteration " << curIter << " reads what iteration " << s.wr << " wrote (object " << o->name << " offset " << off << ")"; violation("race", m.str()); endPath(); } s.rd = s.rd == -1 || s.rd == curIter ? curIter : -2; } } }
static bool overl(Obj* o, uint32_t off, uint32_t size) { if (o->sym.empty()) return false; auto it = o->sym.lower_bound(off); if (it != o->sym.end() && it->first < off + size) return true; if (it != o->sym.begin()) { --it; if (it->first + it->second.sz > off) return true; } return false; }
static E cellBV(const Cell& c) { return c.e->s == Sort::Real ? mkR2Bits(c.e) : c.e; }
static long uninitN = 0;
static E byteAt(Obj* o, uint32_t off) {
  auto it = o->sym.upper_bound(off); if (it != o->sym.begin()) { --it; if (it->first + it->second.sz > off) return mkExtract(cellBV(it->second), 8 * (off - it->first), 8); }
  if (!o->init[off]) { uninitN++; return mkVar("uninit", Sort::BV, 8, true); }
  return mkBV(o->d[off], 8); }
static void splitCells(Obj* o, uint32_t off, uint32_t size) { // remove symbolic cells overlapping [off,off+size), keeping outside bytes
  auto it = o->sym.upper_bound(off); if (it != o->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > off) it = p; }
  while (it != o->sym.end() && it->first < off + size) { uint32_t s = it->first; Cell c = it->second; it = o->sym.erase(it);
    if (s >= off && s + c.sz <= off + size) continue; E bv = cellBV(c);
    for (int k = 0; k < c.sz; k++) { uint32_t a = s + k; if (a >= off && a < off + size) continue; E b = mkExtract(bv, 8 * k, 8); if (isC(b)) { o->d[a] = b->c; o->init[a] = 1; } else o->sym[a] = {b, 1}; }
    it = o->sym.lower_bound(off); } }
static Val loadRaw(Obj* o, uint32_t off, int sz, bool isReal, int w) {
  bool ov = overl(o, off, sz);
  if (!ov) { bool ini = true; for (int i = 0; i < sz; i++) if (!o->init[off + i]) { ini = false; break; }
    if (ini) { uint64_t v = 0; memcpy(&v, o->d + off, sz); if (w == 1) v &= 1; return C(v); }
    if (isReal) { uninitN++; return SE(mkVar("uninit", Sort::Real, 64, true)); } }
  else { auto it = o->sym.find(off); if (it != o->sym.end() && it->second.sz == sz) { E e = it->second.e; if (isReal) { if (e->s == Sort::Real) return SE(e); if (e->k == K::R2Bits) return SE(e->a[0]); if (e->flags & 1) return SE(mkVar("uninit", Sort::Real, 64, true)); unsupported("bits reinterpreted as a real"); }
      E b = e->s == Sort::Real ? mkR2Bits(e) : e; if (w < 8 * sz) b = mkExtract(b, 0, w); if (w == 1) b = mkEq(b, mkBV(1, 1)); return SE(b); } }
  E b = byteAt(o, off); for (int i = 1; i < sz; i++) b = mkConcat(byteAt(o, off + i), b);
  if (isReal) { if (b->k == K::R2Bits) return SE(b->a[0]); if (isC(b)) return C(b->c); if (b->flags & 1) return SE(mkVar("uninit", Sort::Real, 64, true)); unsupported("bits reinterpreted as a real"); }
  if (w < 8 * sz) b = mkExtract(b, 0, w); if (w == 1) b = mkEq(b, mkBV(1, 1)); return SE(b); }
static void storeRaw(Obj* o, uint32_t off, int sz, const Val& v) {
  if (overl(o, off, sz)) splitCells(o, off, sz);
  if (!v.e) { memcpy(o->d + off, &v.c, sz); memset(o->init + off, 1, sz); return; }
  E e = v.e; if (e->s == Sort::Bool) e = mkZExt(e, 8 * sz); else if (e->s == Sort::BV && e->w < 8 * sz) e = mkZExt(e, 8 * sz);
  if (e->k == K::R2Bits) e = e->a[0];
  if (e->k == K::Var && g_vars[e->c].uninit && 0) { memset(o->init + off, 0, sz); return; }
  memset(o->init + off, 1, sz); o->sym[off] = {e, sz}; }
static void copyBytes(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return; uint32_t so, to; Obj* s = resolve(src, n, false, so, "copy source"); Obj* t = resolve(dst, n, true, to, "copy destination"); race(s, src >> 32, so, n, false); race(t, dst >> 32, to, n, true);
  if (s == t && so == to) return;
  std::vector<std::pair<uint32_t, Cell>> cs; bool partial = false;
  if (overl(s, so, n)) { auto it = s->sym.upper_bound(so); if (it != s->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > so) it = p; }
    for (; it != s->sym.end() && it->first < so + n; ++it) { uint32_t a = it->first; Cell c = it->second; if (a >= so && a + c.sz <= so + n) cs.push_back({a - so, c}); else { partial = true; for (int k = 0; k < c.sz; k++) if (a + k >= so && a + k < so + n) cs.push_back({a + k - so, {mkExtract(cellBV(c), 8 * k, 8), 1}}); } } }
  (void)partial; std::vector<uint8_t> db(s->d + so, s->d + so + n), ib(s->init + so, s->init + so + n);
  if (overl(t, to, n)) splitCells(t, to, n);
  memcpy(t->d + to, db.data(), n); memcpy(t->init + to, ib.data(), n);
  for (auto& c : cs) { if (isC(c.second.e)) { memcpy(t->d + to + c.first, &c.second.e->c, c.second.sz); memset(t->init + to + c.first, 1, c.second.sz); } else { t->sym[to + c.first] = c.second; memset(t->init + to + c.first, 1, c.second.sz); } } }

// ---------------------------------------------------------------- forking
static void checkStop() { if (G->stop || now() > deadline) { G->stop = 1; __sync_fetch_and_add(&G->incomplete, 1); endPath(); } }
// returns 0 in the parent, 1 in the child
static int forkDepth = 0;
static int forkProc() {
  if (forkDepth > 250) { static bool once = false; if (!once) out("{\"kind\":\"unsupported\",\"entry\":\"" + entryName + "\",\"msg\":\"more than 250 nested undecided branches\"}"); once = true; __sync_fetch_and_add(&G->incomplete, 1); endPath(); }
  checkStop(); reap(false); __sync_fetch_and_add(&G->forks, 1);
  bool tok = sem_trywait(tokens) == 0; pid_t p = fork();
  if (p < 0) { if (tok) sem_post(tokens); unsupported("fork failed"); }
  if (p == 0) { ++forkDepth; kids.clear(); localInsts = 0; ownToken = tok; __sync_fetch_and_add(&G->paths, 1); if (G->paths > maxPaths) { G->stop = 1; } return 1; }
  if (tok) { kids.push_back(p); return 0; }
  int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) __sync_fetch_and_add(&G->incomplete, 1); checkStop(); return 0; }
static bool branch(E c) {
  if (isC(c)) return c->c; if (c->flags & 1) { violation("uninit", "control flow depends on uninitialised memory"); endPath(); }
  int t = feasible(c, PC); E nc = mkNot(c); int f = t ? feasible(nc, PC) : 1;
  if (t && !f) return true; if (!t) { if (feasible(nc, PC)) return false; endPath(); }
  if (forkProc() == 0) { PC.push_back(c); return true; } PC.push_back(nc); return false; }
// an index that is a choice between constants: branch on the conditions of the choice instead of asking for its values
static E chooseIte(E e, E cond, bool v, std::unordered_map<E, E>& memo) {
  if (isC(e) || e->k == K::Var) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r = e;
  auto R = [&](int i) { return chooseIte(e->a[i], cond, v, memo); };
  switch (e->k) { case K::Ite: r = e->a[0] == cond ? R(v ? 1 : 2) : mkIte(e->a[0], R(1), R(2)); break;
    case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem: case K::BAnd: case K::BOr: case K::BXor: case K::Shl: case K::LShr: case K::AShr: r = mkBin(e->k, R(0), R(1)); break;
    case K::Concat: r = mkConcat(R(0), R(1)); break; case K::Extract: r = mkExtract(R(0), e->c, e->w); break; case K::ZExt: r = mkZExt(R(0), e->w); break; case K::SExt: r = mkSExt(R(0), e->w); break; default: break; }
  return memo[e] = r; }
static E iteCond(E e, int depth, int& fuel) { if (isC(e) || e->k == K::Var || depth > 60 || --fuel < 0) return nullptr; if (e->s != Sort::BV) return nullptr;
  if (e->k == K::Ite) { for (int i = 1; i < 3; i++) if (E c = iteCond(e->a[i], depth + 1, fuel)) return c; return e->a[0]; }
  switch (e->k) { case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem: case K::BAnd: case K::BOr: case K::BXor: case K::Shl: case K::LShr: case K::AShr: case K::Concat: case K::Extract: case K::ZExt: case K::SExt: for (E x : e->a) if (E c = iteCond(x, depth + 1, fuel)) return c; break; default: break; }
  return nullptr; }
static uint64_t concretize(E e) {
  if (isC(e)) return e->c; if (e->s == Sort::Bool) return branch(e);
  for (int k = 0; k < 64 && !isC(e); k++) { int fuel = 4000; E c = iteCond(e, 0, fuel); if (!c) break; bool v = branch(c); std::unordered_map<E, E> memo; e = chooseIte(e, c, v, memo); }
  if (isC(e)) return e->c;
  if (e->flags & 1) { violation("uninit", "address or size depends on uninitialised memory"); endPath(); }
  for (int i = 0; i < 300; i++) { bool ok; uint64_t v = pickValue(e, PC, ok); if (!ok) { if (i == 0) unsupported("cannot enumerate a symbolic address or size"); endPath(); }
    E c = mkEq(e, mkBV(v, e->w)); if (isC(c) && c->c) return v; if (!feasible(mkNot(c), PC)) { return v; }
    if (forkProc() == 1) { PC.push_back(c); return v; } PC.push_back(mkNot(c)); }
  unsupported("too many values for a symbolic address or size"); }
static uint64_t cv(const Val& v) { return v.e ? concretize(v.e) : v.c; }

// ---------------------------------------------------------------- reports
static double defVal(const std::string& k) { unsigned h = 2166136261u; for (char c : k) h = (h ^ (unsigned char)c) * 16777619u; return ((h >> 8) & 1 ? -1 : 1) * (0.125 + ((h >> 9) % 97) / 128.0); }
static std::string valsJson(Assign& as) {
  std::ostringstream o; o << "{"; bool f = true;
  for (auto& i : inputs) { if (!f) o << ","; f = false; o << "\"" << jesc(i.key) << "\":\"";
    if (i.kind == 'r') { double d = as.r.count(i.var) ? as.r[i.var] : (g_dom.count(i.var) ? std::min(std::max(0.5, g_dom[i.var].lo), g_dom[i.var].hi) : defVal(i.key)); char b[64]; snprintf(b, sizeof b, "%a", d); o << b; }
    else { uint64_t x = as.b.count(i.var) ? as.b[i.var] : 0; o << (long long)(i.kind == 'b' ? (int64_t)(x & 1) : sext64(x, 64 == g_vars[i.var].w ? 64 : g_vars[i.var].w)); } o << "\""; }
  for (auto& c : choices) { if (!f) o << ","; f = false; o << "\"" << jesc(c.first) << "\":\"" << c.second << "\""; }
  o << "}"; return o.str(); }
static void violation(const std::string& kind, const std::string& msg, Assign* w, bool fatal) {
  Assign as; bool have = true; if (w) as = *w; else have = model(PC, as);
  // fill variables that do not occur in the witness
  __sync_fetch_and_add(have ? &G->viol : &G->inconc, 1);
  out(std::string("{\"kind\":\"") + (have ? "candidate" : "inconclusive") + "\",\"entry\":\"" + entryName + "\",\"what\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(curLoc()) + "\",\"vals\":" + valsJson(as) + "}"); 
  if (G->viol > 40) G->stop = 1; }
static void doAssert(E cond, E a, E b, const std::string& msg) {
  __sync_fetch_and_add(&G->asserts, 1);
  E any = cond ? cond : nullptr; unsigned fl = any ? any->flags : (a->flags | b->flags);
  if (fl & 1) { violation("uninit", msg + " [value depends on uninitialised memory or a non-finite operation]", nullptr, false); return; }
  if (!cond) { double x = NAN, y = NAN; if (isC(a)) x = realOf(a); if (isC(b)) y = realOf(b);
    if ((isC(a) && !std::isfinite(x)) || (isC(b) && !std::isfinite(y))) { bool same = isC(a) && isC(b) && ((std::isnan(x) && std::isnan(y)) || x == y); if (same) { __sync_fetch_and_add(&G->held, 1); return; } violation("assert", msg + " [non-finite value]", nullptr, false); return; }
    if (isC(a) && isC(b)) { bool ok = std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)); __sync_fetch_and_add(&G->trivial, 1); if (ok) { __sync_fetch_and_add(&G->held, 1); return; } std::ostringstream s; s << msg << " [" << x << " vs " << y << "]"; violation("assert", s.str(), nullptr, false); return; } }
  else if (isC(cond)) { __sync_fetch_and_add(&G->trivial, 1); if (cond->c) { __sync_fetch_and_add(&G->held, 1); return; } violation("assert", msg, nullptr, false); return; }
  if (!cond && a == b) { __sync_fetch_and_add(&G->trivial, 1); __sync_fetch_and_add(&G->held, 1); return; } // the very same term: equal for every value
  Verdict v = prove(cond, a, b, PC);
  if (v.r == HOLDS) { __sync_fetch_and_add(&G->held, 1); return; }
  if (v.r == VIOLATED) { violation("assert", msg, &v.w, false); return; }
  __sync_fetch_and_add(&G->inconc, 1); out("{\"kind\":\"inconclusive\",\"entry\":\"" + entryName + "\",\"msg\":\"" + jesc(msg) + "\",\"note\":\"" + jesc(v.note) + "\",\"loc\":\"" + jesc(curLoc()) + "\",\"vals\":{}}"); checkStop(); }

// ---------------------------------------------------------------- functions
struct Opn { int slot; int k; };
struct DI { Instruction* I; unsigned op; int dst; std::vector<Opn> ops; Type* ty; int w; // w: int width
  int64_t goff = 0; std::vector<std::pair<Opn, int64_t>> gidx; int callee = -1; struct FnInfo* target = nullptr; int s0 = -1, s1 = -1; unsigned pred = 0; uint64_t sz = 0; char cls = 0; int cw = 0; };
struct Blk { std::vector<DI> ins; std::vector<DI> phis; std::vector<std::vector<int>> phiPred; std::map<int,int> predIx; };
struct FnInfo { Function* F; std::vector<Blk> blks; int nslots = 0; std::unordered_map<const Value*, int> slot; std::vector<Val> consts; int ix; bool decoded = false; };
static std::unordered_map<Function*, FnInfo*> fns; static std::vector<Function*> fnByIx; static std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
static std::unordered_map<const Constant*, uint64_t> dummy;
static std::unordered_map<Function*, uint64_t> faddr; static std::unordered_map<uint64_t, Function*> fAt;
struct Frame { FnInfo* f; int bb, ip, prev; std::vector<Val> r; std::vector<uint32_t> al; DI* call; uint64_t va = 0; std::vector<Val> vargs; };
static std::vector<Frame*> stk;
static std::string curLoc() {
  std::ostringstream o; int n = 0;
  for (int i = (int)stk.size() - 1; i >= 0 && n < 6; i--, n++) { Frame* f = stk[i]; std::string nm = demangle(f->f->F->getName().str()); if (nm.size() > 120) nm = nm.substr(0, 120); 
    unsigned ln = 0; std::string file; if (f->ip < (int)f->f->blks[f->bb].ins.size()) { const DebugLoc& d = f->f->blks[f->bb].ins[f->ip].I->getDebugLoc(); if (d) { ln = d.getLine(); file = d->getFilename().str(); size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1); } }
    if (n) o << " <- "; o << nm; if (ln) o << "@" << file << ":" << ln; }
  return o.str(); }
static int intw(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static bool isReal(Type* t) { return t->isDoubleTy() || t->isX86_FP80Ty(); }
static Val constVal(const Constant* c);
static Val undefOf(Type* t, bool freeze = false) {
  if (auto st = dyn_cast<StructType>(t)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(undefOf(st->getElementType(i), freeze)); return v; }
  if (auto at = dyn_cast<ArrayType>(t)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(undefOf(at->getElementType(), freeze)); return v; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < vt->getNumElements(); i++) v.agg->push_back(undefOf(vt->getElementType(), freeze)); return v; }
  if (freeze || !(t->isDoubleTy() || t->isIntegerTy())) return C(0);
  if (t->isDoubleTy()) return SE(mkVar("undef", Sort::Real, 64, true)); int w = t->getIntegerBitWidth(); if (w > 64) return C(0); return w == 1 ? SE(mkVar("undef", Sort::Bool, 1, true)) : SE(mkVar("undef", Sort::BV, w, true)); }
static uint64_t fnAddr(Function* f) { if (f->isDeclaration() && f->hasExternalWeakLinkage()) return 0; auto it = faddr.find(f); if (it != faddr.end()) return it->second; uint64_t a = (1ull << 32) + 16 * (faddr.size() + 1); faddr[f] = a; fAt[a] = f; return a; }
static Val constVal(const Constant* c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return C(ci->getValue().trunc(64).getZExtValue()); return C(ci->getZExtValue()); }
  if (auto cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isDoubleTy()) return Dv(cf->getValueAPF().convertToDouble()); if (cf->getType()->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); uint32_t u; memcpy(&u, &f, 4); return C(u); } APFloat a = cf->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Dv(a.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return C(0);
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (auto f = dyn_cast<Function>(c)) return C(fnAddr(const_cast<Function*>(f)));
  if (auto g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("global"); return C(it->second); }
  if (auto ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto ag = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < ag->getNumOperands(); i++) v.agg->push_back(constVal(ag->getOperand(i))); return v; }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if (isa<ConstantAggregateZero>(c)) { Type* t = c->getType(); Val v; v.agg = new std::vector<Val>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(Constant::getNullValue(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()))); return v; }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) unsupported("gep constant"); return C(constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return C(maskw(constVal(ce->getOperand(0)).c, intw(ce->getType())));
      case Instruction::Add: return C(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c); case Instruction::Sub: return C(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; return C(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); }
      case Instruction::Select: return constVal(ce->getOperand(0)).c ? constVal(ce->getOperand(1)) : constVal(ce->getOperand(2));
      default: unsupported("constant expression " + std::string(ce->getOpcodeName())); } }
  if (isa<ConstantTokenNone>(c)) return C(0);
  unsupported("constant kind"); }
static Val loadTy(Type* t, uint64_t addr);
static void storeTy(Type* t, uint64_t addr, const Val& v, bool checkRo = true);

enum { X_UNKNOWN = 0, X_IGN, X_RET0, X_ARG0 };
static std::vector<std::string> extNames; static std::unordered_map<std::string, int> extIx;
static int extId(const std::string& n) { auto it = extIx.find(n); if (it != extIx.end()) return it->second; extNames.push_back(n); return extIx[n] = (int)extNames.size() - 1; }
static FnInfo* info(Function* F) {
  auto it = fns.find(F); FnInfo* fi; if (it == fns.end()) { fi = new FnInfo(); fi->F = F; fns[F] = fi; fi->ix = fnByIx.size(); fnByIx.push_back(F); } else fi = it->second;
  if (fi->decoded) return fi; fi->decoded = true;
  for (auto& a : F->args()) fi->slot[&a] = fi->nslots++;
  std::unordered_map<const BasicBlock*, int> bbix; int nb = 0; for (auto& b : *F) bbix[&b] = nb++;
  for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++;
  fi->blks.resize(nb); std::unordered_map<const Value*, int> cix;
  auto opn = [&](Value* v) -> Opn { if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {-1, 0}; auto s = fi->slot.find(v); if (s != fi->slot.end()) return {s->second, 0};
    auto c = cix.find(v); if (c != cix.end()) return {-1, c->second}; 
    if (isa<UndefValue>(v) && !v->getType()->isAggregateType()) { fi->consts.push_back(undefOf(v->getType())); } else fi->consts.push_back(constVal(cast<Constant>(v))); int k = fi->consts.size() - 1; cix[v] = k; return {-1, k}; };
  fi->consts.push_back(C(0));
  for (auto& b : *F) { Blk& B = fi->blks[bbix[&b]]; int np = 0; for (auto p : predecessors(&b)) if (!B.predIx.count(bbix[p])) B.predIx[bbix[p]] = np++;
    for (auto& i : b) { 
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      if (auto ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) { if (!isa<InvokeInst>(&i) && (i.getType()->isVoidTy())) continue; } }
      DI d; d.I = &i; d.op = i.getOpcode(); d.ty = i.getType(); d.w = intw(d.ty); d.dst = i.getType()->isVoidTy() ? -1 : fi->slot[&i];
      if (auto ph = dyn_cast<PHINode>(&i)) { d.ops.resize(np, {-1, 0}); for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) d.ops[B.predIx[bbix[ph->getIncomingBlock(k)]]] = opn(ph->getIncomingValue(k)); B.phis.push_back(d); continue; }
      if (auto g = dyn_cast<GetElementPtrInst>(&i)) { d.ops.push_back(opn(g->getPointerOperand())); for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) { Value* ix = gt.getOperand();
          if (auto st = gt.getStructTypeOrNull()) d.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t s = DL->getTypeAllocSize(gt.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(ix)) d.goff += ci->getSExtValue() * s; else { d.gidx.push_back({opn(ix), s}); d.cw = intw(ix->getType()); } } } }
      else if (auto cb = dyn_cast<CallBase>(&i)) { for (auto& a : cb->args()) d.ops.push_back(opn(a)); d.ops.push_back(cb->isInlineAsm() ? Opn{-1, 0} : opn(cb->getCalledOperand()));
        if (auto cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { if (cf->isDeclaration()) d.callee = extId(cf->getName().str()); else { auto f2 = fns.find(cf); if (f2 == fns.end()) { FnInfo* x = new FnInfo(); x->F = cf; x->ix = fnByIx.size(); fnByIx.push_back(cf); fns[cf] = x; d.target = x; } else d.target = f2->second; } }
        else if (auto ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) { if (auto cf = dyn_cast<Function>(ga->getAliaseeObject())) { auto f2 = fns.find(cf); if (f2 == fns.end()) { FnInfo* x = new FnInfo(); x->F = cf; x->ix = fnByIx.size(); fnByIx.push_back(cf); fns[cf] = x; d.target = x; } else d.target = f2->second; } }
        if (auto iv = dyn_cast<InvokeInst>(&i)) { d.s0 = bbix[iv->getNormalDest()]; d.s1 = bbix[iv->getUnwindDest()]; } }
      else { for (auto& o : i.operands()) d.ops.push_back(opn(o)); }
      if (auto br = dyn_cast<BranchInst>(&i)) { d.s0 = bbix[br->getSuccessor(0)]; if (br->isConditional()) { d.s1 = bbix[br->getSuccessor(1)]; d.ops.resize(1); d.ops[0] = opn(br->getCondition()); } }
      if (auto sw = dyn_cast<SwitchInst>(&i)) { d.s0 = bbix[sw->getDefaultDest()]; d.ops.resize(1); d.ops[0] = opn(sw->getCondition()); d.cw = intw(sw->getCondition()->getType()); for (auto& cs : sw->cases()) d.gidx.push_back({{(int)bbix[cs.getCaseSuccessor()], 0}, (int64_t)cs.getCaseValue()->getZExtValue()}); }
      if (auto c = dyn_cast<CmpInst>(&i)) { d.pred = c->getPredicate(); d.cw = intw(c->getOperand(0)->getType()); }
      if (isa<CastInst>(&i)) d.cw = intw(i.getOperand(0)->getType());
      B.ins.push_back(std::move(d)); } }
  return fi; }

// ---------------------------------------------------------------- scalar operations
static E toE(const Val& v, Type* t) { if (v.e) return v.e; if (t->isDoubleTy()) return mkReal(dbl(v)); int w = intw(t); return w == 1 ? mkBool(v.c & 1) : mkBV(v.c, w); }
static E toBool(const Val& v) { return v.e ? v.e : mkBool(v.c & 1); }
static float flt(const Val& v) { uint32_t u = v.c; float f; memcpy(&f, &u, 4); return f; }
static Val Fv(float f) { uint32_t u; memcpy(&u, &f, 4); return C(u); }
static Val binop(unsigned op, const Val& a, const Val& b, Type* t) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = new std::vector<Val>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(binop(op, (*a.agg)[i], (*b.agg)[i], vt->getElementType())); return r; }
  if (t->isFloatTy()) { float x = flt(a), y = flt(b); switch (op) { case Instruction::FAdd: return Fv(x + y); case Instruction::FSub: return Fv(x - y); case Instruction::FMul: return Fv(x * y); case Instruction::FDiv: return Fv(x / y); } unsupported("float op"); }
  if (isReal(t)) {
    if (!a.e && !b.e) { double x = dbl(a), y = dbl(b); switch (op) { case Instruction::FAdd: return Dv(x + y); case Instruction::FSub: return Dv(x - y); case Instruction::FMul: return Dv(x * y); case Instruction::FDiv: return Dv(x / y); case Instruction::FRem: return Dv(std::fmod(x, y)); } }
    E x = toE(a, t), y = toE(b, t);
    switch (op) { case Instruction::FAdd: return SE(mkRAdd(x, y)); case Instruction::FSub: return SE(mkRSub(x, y)); case Instruction::FMul: return SE(mkRMul(x, y)); case Instruction::FDiv: return SE(mkRDiv(x, y)); }
    unsupported("symbolic frem"); }
  int w = t->getIntegerBitWidth();
  if (w > 64) { if (a.e || b.e) unsupported("wide symbolic integer"); unsupported("wide integer"); }
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (op) { case Instruction::Add: return C(maskw(x + y, w)); case Instruction::Sub: return C(maskw(x - y, w)); case Instruction::Mul: return C(maskw(x * y, w)); case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
      case Instruction::Shl: return C(y >= (uint64_t)w ? 0 : maskw(x << y, w)); case Instruction::LShr: return C(y >= (uint64_t)w ? 0 : x >> y); case Instruction::AShr: return C(maskw(sx >> (y >= (uint64_t)w ? w - 1 : y), w));
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if (y == 0) { violation("arith", "integer division by zero"); endPath(); }
        if (op == Instruction::UDiv) return C(x / y); if (op == Instruction::URem) return C(x % y); if (sy == -1) return C(op == Instruction::SDiv ? maskw(-(uint64_t)sx, w) : 0); return C(maskw(op == Instruction::SDiv ? sx / sy : sx % sy, w)); } 
    unsupported("int op"); }
  if (w == 1) { E x = toE(a, t), y = toE(b, t); switch (op) { case Instruction::And: return SE(mkAnd(x, y)); case Instruction::Or: return SE(mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return SE(mkXorB(x, y)); case Instruction::Mul: return SE(mkAnd(x, y)); } unsupported("i1 op"); }
  E x = toE(a, t), y = toE(b, t); K k;
  switch (op) { case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break; case Instruction::And: k = K::BAnd; break; case Instruction::Or: k = K::BOr; break; case Instruction::Xor: k = K::BXor; break; case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; case Instruction::AShr: k = K::AShr; break;
    case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break; default: unsupported("int op"); }
  if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) if (branch(mkEq(y, mkBV(0, w)))) { violation("arith", "integer division by zero"); endPath(); }
  return SE(mkBin(k, x, y)); }
static Val icmp(unsigned p, const Val& a, const Val& b, Type* t) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = new std::vector<Val>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(icmp(p, (*a.agg)[i], (*b.agg)[i], vt->getElementType())); return r; }
  int w = intw(t);
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; }
    return C(r); }
  E x = toE(a, t), y = toE(b, t);
  if (w == 1) { if (p == CmpInst::ICMP_EQ) return SE(mkEq(x, y)); if (p == CmpInst::ICMP_NE) return SE(mkNot(mkEq(x, y))); x = mkZExt(x, 8); y = mkZExt(y, 8); if (p >= CmpInst::ICMP_SGT) { x = mkBin(K::Sub, mkBV(0, 8), x); y = mkBin(K::Sub, mkBV(0, 8), y); } }
  switch (p) { case CmpInst::ICMP_EQ: return SE(mkEq(x, y)); case CmpInst::ICMP_NE: return SE(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return SE(mkCmp(K::Ult, y, x)); case CmpInst::ICMP_UGE: return SE(mkCmp(K::Ule, y, x)); case CmpInst::ICMP_ULT: return SE(mkCmp(K::Ult, x, y)); case CmpInst::ICMP_ULE: return SE(mkCmp(K::Ule, x, y));
    case CmpInst::ICMP_SGT: return SE(mkCmp(K::Slt, y, x)); case CmpInst::ICMP_SGE: return SE(mkCmp(K::Sle, y, x)); case CmpInst::ICMP_SLT: return SE(mkCmp(K::Slt, x, y)); default: return SE(mkCmp(K::Sle, x, y)); } }
static Val fcmp(unsigned p, const Val& a, const Val& b, Type* t) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = new std::vector<Val>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(fcmp(p, (*a.agg)[i], (*b.agg)[i], vt->getElementType())); return r; }
  bool nan; double x = 0, y = 0;
  if (t->isFloatTy()) { x = flt(a); y = flt(b); } else { if (!a.e) x = dbl(a); if (!b.e) y = dbl(b); }
  nan = (!a.e && std::isnan(x)) || (!b.e && std::isnan(y));
  if (p == CmpInst::FCMP_TRUE) return C(1); if (p == CmpInst::FCMP_FALSE) return C(0);
  if (nan) return C(p >= CmpInst::FCMP_UNO); if (p == CmpInst::FCMP_ORD) return C(1); if (p == CmpInst::FCMP_UNO) return C(0);
  if (!a.e && !b.e) switch (p & 7) { case 1: return C(x == y); case 2: return C(x > y); case 3: return C(x >= y); case 4: return C(x < y); case 5: return C(x <= y); case 6: return C(x != y); }
  E u = toE(a, t), v = toE(b, t);
  switch (p & 7) { case 1: return SE(mkEq(u, v)); case 2: return SE(mkRLt(v, u)); case 3: return SE(mkRLe(v, u)); case 4: return SE(mkRLt(u, v)); case 5: return SE(mkRLe(u, v)); default: return SE(mkNot(mkEq(u, v))); } }
static Val castop(unsigned op, const Val& a, Type* ft, Type* t) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) if (isa<FixedVectorType>(ft) && cast<FixedVectorType>(ft)->getNumElements() == vt->getNumElements()) { Val r; r.agg = new std::vector<Val>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(castop(op, (*a.agg)[i], cast<FixedVectorType>(ft)->getElementType(), vt->getElementType())); return r; }
  int fw = intw(ft), w = intw(t);
  switch (op) {
    case Instruction::Trunc: if (!a.e) return C(maskw(a.c, w)); { E x = mkExtract(a.e, 0, w); if (w == 1) x = mkEq(x, mkBV(1, 1)); return SE(x); }
    case Instruction::ZExt: if (!a.e) return C(a.c); return SE(mkZExt(a.e, w));
    case Instruction::SExt: if (!a.e) return C(maskw(sext64(a.c, fw), w)); return SE(mkSExt(a.e, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < fw) return castop(Instruction::Trunc, a, ft, t); return a;
    case Instruction::BitCast: if (ft == t || (ft->isPointerTy() && t->isPointerTy())) return a;
      if (ft->isVectorTy() || t->isVectorTy()) { uint64_t tmp = newObj(DL->getTypeStoreSize(ft), 's', true, "bitcast"); storeTy(ft, tmp, a); Val r = loadTy(t, tmp); delObj(tmp >> 32); return r; }
      if (!a.e) return a; if (ft->isDoubleTy()) return SE(mkR2Bits(a.e)); if (t->isDoubleTy()) { if (a.e->k == K::R2Bits) return SE(a.e->a[0]); if (a.e->flags & 1) return SE(mkVar("uninit", Sort::Real, 64, true)); } unsupported("symbolic bitcast");
    case Instruction::SIToFP: case Instruction::UIToFP: 
      if (!a.e) { double d = op == Instruction::SIToFP ? (double)sext64(a.c, fw) : (double)a.c; if (t->isFloatTy()) return Fv((float)d); return Dv(d); }
      if (t->isFloatTy()) return castop(op, C(concretize(a.e)), ft, t);
      { E e = a.e->s == Sort::Bool ? mkZExt(a.e, 8) : a.e; if (e->k == K::Ite && isC(e->a[1]) && isC(e->a[2])) return SE(mkIte(e->a[0], mkReal(op == Instruction::SIToFP ? (double)sext64(e->a[1]->c, fw) : (double)e->a[1]->c), mkReal(op == Instruction::SIToFP ? (double)sext64(e->a[2]->c, fw) : (double)e->a[2]->c)));
        return Dv(op == Instruction::SIToFP ? (double)sext64(concretize(e), fw) : (double)concretize(e)); }
    case Instruction::FPToSI: case Instruction::FPToUI: if (!a.e) { double d = ft->isFloatTy() ? flt(a) : dbl(a); bool sg = op == Instruction::FPToSI; if (!(sg ? d > -std::ldexp(1.0, w - 1) - 1 && d < std::ldexp(1.0, w - 1) : d > -1 && d < std::ldexp(1.0, w))) { violation("ub", "conversion of a number to an integer type that cannot hold it"); endPath(); } return C(maskw(op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d, w)); }
      if (a.e->flags & 1) return undefOf(t); unsupported("symbolic real to integer");
    case Instruction::FPExt: if (ft->isFloatTy()) return Dv(flt(a)); return a;
    case Instruction::FPTrunc: if (t->isFloatTy()) { if (a.e) unsupported("symbolic float"); return Fv((float)dbl(a)); } return a;
  }
  unsupported("cast"); }
static Val selectV(const Val& c, const Val& a, const Val& b, Type* t) {
  if (!c.e) return (c.c & 1) ? a : b; if (isa<FixedVectorType>(t) || a.agg) return branch(c.e) ? a : b;
  if (c.e->flags & 1) { violation("uninit", "selection depends on uninitialised memory"); endPath(); }
  if (t->isPointerTy()) { if (!a.e && !b.e && a.c == b.c) return a; return branch(c.e) ? a : b; }
  if (t->isDoubleTy()) { if ((!a.e && !std::isfinite(dbl(a))) || (!b.e && !std::isfinite(dbl(b)))) return branch(c.e) ? a : b; }
  return SE(mkIte(c.e, toE(a, t), toE(b, t))); }
static Val loadTy(Type* t, uint64_t addr) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { Val r; r.agg = new std::vector<Val>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et); r.agg->push_back(loadTy(et, addr + off)); } return r; }
  uint32_t off; int sz = t->isX86_FP80Ty() ? 8 : DL->getTypeStoreSize(t); if (sz > 8) { if (t->isIntegerTy()) unsupported("wide load"); }
  Obj* o = resolve(addr, sz, false, off, "read"); if (curIter >= 0) race(o, addr >> 32, off, sz, false); return loadRaw(o, off, sz, isReal(t), intw(t) ? intw(t) : 64); }
static void storeTy(Type* t, uint64_t addr, const Val& v, bool ro) {
  if (v.agg) { unsigned n = v.agg->size(); for (unsigned i = 0; i < n; i++) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et); storeTy(et, addr + off, (*v.agg)[i], ro); } return; }
  uint32_t off; int sz = t->isX86_FP80Ty() ? 8 : DL->getTypeStoreSize(t); if (sz > 8) unsupported("wide store");
  Obj* o = resolve(addr, sz, ro, off, "write"); if (curIter >= 0) race(o, addr >> 32, off, sz, true); storeRaw(o, off, sz, v); }

// ---------------------------------------------------------------- exceptions
struct Exc { uint64_t obj, ti; }; static Exc cur; static std::vector<Exc> caught; static std::map<uint64_t, Exc> excByObj;
static std::map<uint64_t, const GlobalVariable*> gAt;
static std::string cstr(uint64_t a) { std::string s; for (int i = 0; i < 4096; i++) { uint32_t off; Obj* o = resolve(a + i, 1, false, off, "string"); char c = o->d[off]; if (!c) break; s += c; } return s; }
static bool derives(uint64_t ti, uint64_t base) { if (ti == base) return true; auto it = gAt.find(ti); if (it == gAt.end()) return false; const GlobalVariable* g = it->second; auto jt = gAt.find(base); if (jt != gAt.end() && jt->second->getName() == g->getName()) return true; if (!g->hasInitializer()) return false;
  auto cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false; std::string vt = cs->getOperand(0)->stripInBoundsConstantOffsets()->getName().str();
  if (vt.find("__si_class_type_info") != std::string::npos) return derives(constVal(cs->getOperand(2)).c, base);
  if (vt.find("__vmi_class_type_info") != std::string::npos) for (unsigned i = 4; i < cs->getNumOperands(); i += 2) if (derives(constVal(cs->getOperand(i)).c, base)) return true;
  return false; }
// offset of base subobject or -1
static int64_t baseOffset(uint64_t ti, uint64_t base) { if (ti == base) return 0; auto it = gAt.find(ti); if (it == gAt.end()) return -1; const GlobalVariable* g = it->second; if (!g->hasInitializer()) return -1;
  auto cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return -1; std::string vt = cs->getOperand(0)->stripInBoundsConstantOffsets()->getName().str();
  if (vt.find("__si_class_type_info") != std::string::npos) return baseOffset(constVal(cs->getOperand(2)).c, base);
  if (vt.find("__vmi_class_type_info") != std::string::npos) for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { int64_t o = baseOffset(constVal(cs->getOperand(i)).c, base); if (o >= 0) return o + ((int64_t)constVal(cs->getOperand(i + 1)).c >> 8); }
  return -1; }
static void popFrame() { Frame* f = stk.back(); for (auto id : f->al) delObj(id); stk.pop_back(); delete f; }
static size_t stopDepth = 0;
static void enterBlock(Frame* f, int to);
static bool uncaughtThrow = false;
static void unwind() { // current exception in cur; the top frame's current instruction raised it (ip points at it)
  while (stk.size() > stopDepth) { Frame* f = stk.back(); DI& d = f->f->blks[f->bb].ins[f->ip];
    if (auto iv = dyn_cast<InvokeInst>(d.I)) { LandingPadInst* lp = iv->getLandingPadInst(); int sel = -1; 
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) { Constant* cl = lp->getClause(i);
        if (lp->isCatch(i)) { if (isa<ConstantPointerNull>(cl)) sel = 1; else { uint64_t t = constVal(cl).c; if (derives(cur.ti, t)) sel = (int)((t >> 32) & 0x7fffffff) + 2; } }
        else { auto at = cast<ArrayType>(cl->getType()); bool ok = false; if (at->getNumElements()) { auto v = constVal(cl); for (auto& x : *v.agg) if (derives(cur.ti, x.c)) ok = true; } if (!ok) { violation("exception", "exception leaves a function that promises not to throw"); endPath(); } } }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) { enterBlock(f, d.s1); DI& l = f->f->blks[f->bb].ins[f->ip]; // landingpad is the first non-phi
        Val v; v.agg = new std::vector<Val>{C(cur.obj), C((uint64_t)sel)}; f->r[l.dst] = v; f->ip++; return; } }
    if (f->f->F->doesNotThrow()) { /* noexcept: clang adds terminate pads; ignore */ }
    popFrame(); }
  std::string tn; auto it = gAt.find(cur.ti); if (it != gAt.end()) tn = it->second->getName().str();
  violation("exception", "uncaught exception of type " + tn); endPath(); }
static uint64_t typeInfoGlobal(const std::string& n) { auto g = M->getNamedGlobal(n); if (!g) unsupported("no type info " + n); return gaddr[g]; }
static void throwStd(const char* ti) { uint64_t o = newObj(64, 'h', true, "exception"); cur = {o, typeInfoGlobal(ti)}; excByObj[o] = cur; unwind(); }

static void enterBlock(Frame* f, int to) {
  int from = f->bb; Blk& B = f->f->blks[to];
  if (!B.phis.empty()) { int pi = B.predIx[from]; if (B.phis.size() == 1) { auto& o = B.phis[0].ops[pi]; f->r[B.phis[0].dst] = o.slot >= 0 ? f->r[o.slot] : f->f->consts[o.k]; }
    else { static std::vector<Val> tmp; tmp.clear(); for (auto& p : B.phis) { auto& o = p.ops[pi]; tmp.push_back(o.slot >= 0 ? f->r[o.slot] : f->f->consts[o.k]); } for (size_t i = 0; i < B.phis.size(); i++) f->r[B.phis[i].dst] = tmp[i]; } }
  f->prev = from; f->bb = to; f->ip = 0; }
static void pushCall(FnInfo* fi, const std::vector<Val>& args) {
  if (stk.size() > 2000) { violation("stack", "unbounded recursion"); endPath(); }
  info(fi->F); covered[fi->ix < 200000 ? fi->ix : 0] = 1; Frame* f = new Frame(); f->f = fi; f->bb = 0; f->ip = 0; f->prev = -1; f->r.resize(fi->nslots); f->call = nullptr; unsigned na = fi->F->arg_size();
  unsigned i = 0; for (auto& a : fi->F->args()) { if (i < args.size()) { f->r[i] = args[i]; if (a.hasByValAttr()) { Type* t = a.getParamByValType(); uint64_t sz = DL->getTypeAllocSize(t); uint64_t n = newObj(sz, 's', false, "byval"); f->al.push_back(n >> 32); copyBytes(n, cv(args[i]), sz); f->r[i] = C(n); } } i++; }
  if (fi->F->isVarArg()) for (unsigned k = na; k < args.size(); k++) f->vargs.push_back(args[k]);
  stk.push_back(f); }
#include "builtins.inc"

static void step(Frame* f) {
  DI& d = f->f->blks[f->bb].ins[f->ip];
  auto V = [&](int i) -> const Val& { const Opn& o = d.ops[i]; return o.slot >= 0 ? f->r[o.slot] : f->f->consts[o.k]; };
  switch (d.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val r = binop(d.op, V(0), V(1), d.ty); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::FNeg: { const Val& a = V(0); if (a.agg) { Val r; r.agg = new std::vector<Val>(); for (auto& x : *a.agg) r.agg->push_back(x.e ? SE(mkRNeg(x.e)) : Dv(-dbl(x))); f->r[d.dst] = r; } else if (d.ty->isFloatTy()) f->r[d.dst] = Fv(-flt(a)); else f->r[d.dst] = a.e ? SE(mkRNeg(a.e)) : Dv(-dbl(a)); f->ip++; return; }
    case Instruction::ICmp: { Val r = icmp(d.pred, V(0), V(1), d.I->getOperand(0)->getType()); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::FCmp: { Val r = fcmp(d.pred, V(0), V(1), d.I->getOperand(0)->getType()); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: { Val r = castop(d.op, V(0), d.I->getOperand(0)->getType(), d.ty); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Select: { Val r = selectV(V(0), V(1), V(2), d.ty); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Freeze: f->r[d.dst] = V(0); f->ip++; return;
    case Instruction::GetElementPtr: { Val b = V(0); int64_t off = d.goff; E se = nullptr;
      for (auto& g : d.gidx) { const Val& x = g.first.slot >= 0 ? f->r[g.first.slot] : f->f->consts[g.first.k]; if (!x.e) off += sext64(x.c, d.cw) * g.second; else { E e = x.e->w < 64 ? mkSExt(x.e, 64) : x.e; e = mkBin(K::Mul, e, mkBV(g.second, 64)); se = se ? mkBin(K::Add, se, e) : e; } }
      if (!se && !b.e) f->r[d.dst] = C(b.c + off); else { E e = mkBin(K::Add, b.e ? b.e : mkBV(b.c, 64), mkBV(off, 64)); if (se) e = mkBin(K::Add, se, e); f->r[d.dst] = SE(e); } f->ip++; return; }
    case Instruction::Alloca: { auto ai = cast<AllocaInst>(d.I); uint64_t n = cv(V(0)); uint64_t sz = n * DL->getTypeAllocSize(ai->getAllocatedType()); uint64_t a = newObj(sz, 's', false, "stack"); f->al.push_back(a >> 32); f->r[d.dst] = C(a); f->ip++; return; }
    case Instruction::Load: { uint64_t a = cv(V(0)); atomicOp = d.I->isAtomic(); Val r = loadTy(d.ty, a); atomicOp = false; f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Store: { uint64_t a = cv(V(1)); atomicOp = d.I->isAtomic(); Val v = V(0); storeTy(d.I->getOperand(0)->getType(), a, v); atomicOp = false; f->ip++; return; }
    case Instruction::Br: { if (d.s1 < 0) { enterBlock(f, d.s0); return; } const Val& c = V(0); bool t = c.e ? branch(c.e) : (c.c & 1); enterBlock(f, t ? d.s0 : d.s1); return; }
    case Instruction::Switch: { const Val& c = V(0); if (!c.e) { for (auto& g : d.gidx) if ((uint64_t)g.second == c.c) { enterBlock(f, g.first.slot); return; } enterBlock(f, d.s0); return; }
      E e = c.e; if (e->s == Sort::Bool) { uint64_t v = branch(e); for (auto& g : d.gidx) if ((uint64_t)g.second == v) { enterBlock(f, g.first.slot); return; } enterBlock(f, d.s0); return; }
      for (auto& g : d.gidx) if (branch(mkEq(e, mkBV(g.second, e->w)))) { enterBlock(f, g.first.slot); return; } enterBlock(f, d.s0); return; }
    case Instruction::Ret: { Val r; bool has = d.ops.size() > 0; if (has) r = V(0); bool last = stk.size() == stopDepth + 1; popFrame(); if (last) return; Frame* p = stk.back(); DI& c = p->f->blks[p->bb].ins[p->ip]; if (c.dst >= 0) p->r[c.dst] = has ? r : C(0); if (c.op == Instruction::Invoke) enterBlock(p, c.s0); else p->ip++; return; }
    case Instruction::Unreachable: violation("ub", "reached code marked unreachable"); endPath();
    case Instruction::Resume: { auto v = V(0); uint64_t ob = (*v.agg)[0].c; cur = excByObj[ob]; popFrame(); if (stk.size() <= stopDepth) { violation("exception", "uncaught exception"); endPath(); } unwind(); return; }
    case Instruction::ExtractValue: { auto ev = cast<ExtractValueInst>(d.I); Val v = V(0); for (unsigned ix : ev->indices()) { Val t = (*v.agg)[ix]; v = t; } f->r[d.dst] = v; f->ip++; return; }
    case Instruction::InsertValue: { auto iv = cast<InsertValueInst>(d.I); Val v = V(0); Val x = V(1); std::vector<unsigned> ix(iv->idx_begin(), iv->idx_end()); Val r; r.agg = new std::vector<Val>(*v.agg); std::vector<Val>* p = r.agg; for (unsigned k = 0; k + 1 < ix.size(); k++) { (*p)[ix[k]].agg = new std::vector<Val>(*(*p)[ix[k]].agg); p = (*p)[ix[k]].agg; } (*p)[ix.back()] = x; f->r[d.dst] = r; f->ip++; return; }
    case Instruction::ExtractElement: { uint64_t i = cv(V(1)); Val r = (*V(0).agg)[i]; f->r[d.dst] = r; f->ip++; return; }
    case Instruction::InsertElement: { uint64_t i = cv(V(2)); Val r; r.agg = new std::vector<Val>(*V(0).agg); (*r.agg)[i] = V(1); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::ShuffleVector: { auto sv = cast<ShuffleVectorInst>(d.I); Val r; r.agg = new std::vector<Val>(); int n = V(0).agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? C(0) : m < n ? (*V(0).agg)[m] : (*V(1).agg)[m - n]); f->r[d.dst] = r; f->ip++; return; }
    case Instruction::AtomicRMW: { auto a = cast<AtomicRMWInst>(d.I); uint64_t p = cv(V(0)); atomicOp = true; Val o = loadTy(d.ty, p); Val n; Val x = V(1);
      switch (a->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, o, x, d.ty); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, x, d.ty); break; case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Or: n = binop(Instruction::Or, o, x, d.ty); break; case AtomicRMWInst::And: n = binop(Instruction::And, o, x, d.ty); break; case AtomicRMWInst::FAdd: n = binop(Instruction::FAdd, o, x, d.ty); break; default: unsupported("atomicrmw"); }
      storeTy(d.ty, p, n); atomicOp = false; f->r[d.dst] = o; f->ip++; return; }
    case Instruction::AtomicCmpXchg: { uint64_t p = cv(V(0)); Type* t = d.I->getOperand(1)->getType(); atomicOp = true; Val o = loadTy(t, p); Val eq = icmp(CmpInst::ICMP_EQ, o, V(1), t); bool b = eq.e ? branch(eq.e) : eq.c; Val nv = V(2); if (b) storeTy(t, p, nv); atomicOp = false; Val r; r.agg = new std::vector<Val>{o, C(b)}; f->r[d.dst] = r; f->ip++; return; }
    case Instruction::Fence: f->ip++; return;
    case Instruction::Call: case Instruction::Invoke: doCall(f, d); return;
    case Instruction::VAArg: unsupported("va_arg");
    default: unsupported(std::string("instruction ") + d.I->getOpcodeName());
  } }
static void run(size_t depth) { size_t sd = stopDepth; stopDepth = depth; while (stk.size() > depth) { step(stk.back()); if ((++localInsts & 0xffff) == 0) checkStop(); } stopDepth = sd; }
static void initGlobals() {
  for (auto& g : M->globals()) { uint64_t sz = DL->getTypeAllocSize(g.getValueType()); bool ext = !g.hasInitializer(); if (ext && sz < 512) sz = 512; uint64_t a = newObj(sz, 'g', true, strdup(g.getName().str().c_str())); gaddr[&g] = a; gAt[a] = &g; }
  for (auto& g : M->globals()) if (g.hasInitializer() && !isa<ConstantAggregateZero>(g.getInitializer()) && !isa<UndefValue>(g.getInitializer()) && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.global_dtors" && g.getName() != "llvm.used") {
    storeTy(g.getValueType(), gaddr[&g], constVal(g.getInitializer()), false); if (g.isConstant()) objs[gaddr[&g] >> 32]->ro = true; } }
static void callVoid(Function* F) { size_t d = stk.size(); pushCall(info(F), {}); run(d); }

static int nSamples = 0;
static void onSegv(int) { signal(SIGSEGV, SIG_DFL); out("{\"kind\":\"unsupported\",\"entry\":\"" + entryName + "\",\"msg\":\"executor crashed\",\"loc\":\"" + jesc(curLoc()) + "\"}"); _exit(3); }
int main(int argc, char** argv) {
  std::string file; int maxproc = 8; double tl = 300; std::string outp;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nx(); else if (a == "--out") outp = nx(); else if (a == "--maxproc") maxproc = stoi(nx()); else if (a == "--time") tl = stod(nx()); else if (a == "--maxpaths") maxPaths = stol(nx()); else if (a == "--heavy") g_heavy_s = stoi(nx()); else if (a == "--trace") trace = true; else if (a == "--samples") nSamples = stoi(nx()); else file = a; }
  G = (Stats*)mmap(0, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)G, 0, sizeof *G);
  covered = (uint8_t*)mmap(0, 200000, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tokens = (sem_t*)mmap(0, sizeof(sem_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(tokens, 1, maxproc - 1);
  if (!outp.empty()) outFd = open(outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  deadline = now() + tl; double t0 = now(); signal(SIGPIPE, SIG_IGN); signal(SIGSEGV, onSegv);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symex", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  // give every function a stable index so that coverage can be shared between processes
  for (auto& F : *M) if (!F.isDeclaration()) { FnInfo* fi = new FnInfo(); fi->F = &F; fi->ix = fnByIx.size(); fnByIx.push_back(&F); fns[&F] = fi; }
  Function* F = M->getFunction(entryName); if (!F) { std::cerr << "no entry " << entryName << "\n"; return 2; }
  fflush(nullptr); pid_t p = fork();
  if (p == 0) { setpgid(0, 0); __sync_fetch_and_add(&G->paths, 1); initGlobals();
    if (auto gc = M->getNamedGlobal("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) { auto cs = cast<ConstantStruct>(o); if (auto fn = dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) callVoid(x.second); }
    for (int i = 0; i < 200000; i++) covered[i] = 0; callVoid(F); if (nSamples > 0 && __sync_fetch_and_add(&G->samples, 1) < nSamples) { Assign as; if (model(PC, as)) out("{\"kind\":\"sample\",\"entry\":\"" + entryName + "\",\"vals\":" + valsJson(as) + "}"); } endPath(); }
  int st = 0; while (waitpid(p, &st, WNOHANG) == 0) { usleep(2000); if (now() > deadline + 60) { G->stop = 1; G->incomplete = G->incomplete + 1; kill(-p, SIGKILL); waitpid(p, &st, 0); break; } }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { G->incomplete = G->incomplete + 1; out("{\"kind\":\"crash\",\"entry\":\"" + entryName + "\",\"status\":" + std::to_string(st) + "}"); }
  std::ostringstream o; o << "{\"kind\":\"stats\",\"entry\":\"" << entryName << "\",\"paths\":" << G->paths << ",\"insts\":" << G->insts << ",\"asserts\":" << G->asserts << ",\"held\":" << G->held << ",\"trivial\":" << G->trivial << ",\"candidates\":" << G->viol << ",\"inconclusive\":" << G->inconc << ",\"incomplete\":" << G->incomplete << ",\"queries\":" << G->queries << ",\"unsat\":" << G->unsat << ",\"sat\":" << G->sat << ",\"unknown\":" << G->unknown << ",\"solver_s\":" << G->solver_us / 1e6 << ",\"wall_s\":" << now() - t0 << ",\"functions\":[";
  bool fst = true; for (size_t i = 0; i < fnByIx.size() && i < 200000; i++) if (covered[i]) { std::string n = demangle(fnByIx[i]->getName().str()); if (n.find("mpart::") == std::string::npos) continue; if (n.size() > 160) n = n.substr(0, 160); if (!fst) o << ","; fst = false; o << "\"" << jesc(n) << "\""; }
  o << "]}"; out(o.str()); return 0; }
