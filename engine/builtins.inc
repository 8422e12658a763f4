// External functions, intrinsics and the harness interface.
static void ret(Frame* f, DI& d, const Val& v) { if (d.dst >= 0) f->r[d.dst] = v; if (d.op == Instruction::Invoke) enterBlock(f, d.s0); else f->ip++; }
static E asReal(const Val& v) { return v.e ? v.e : mkReal(dbl(v)); }
static std::string uniqueName(const std::string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static E bytesE(uint64_t a, int n) { uint32_t off; Obj* o = resolve(a, n, false, off, "compare"); Val v = loadRaw(o, off, n, false, 8 * n); return v.e ? v.e : mkBV(v.c, 8 * n); }
static bool anySym(uint64_t a, uint64_t n) { if (!n) return false; uint32_t off; Obj* o = resolve(a, n, false, off, "read"); race(o, a >> 32, off, n, false); return overl(o, off, n); }
static bool anyUninit(uint64_t a, uint64_t n) { uint32_t off; Obj* o = resolve(a, n, false, off, "read"); for (uint64_t i = 0; i < n; i++) if (!o->init[off + i]) return true; return false; }
static Val memcmpV(uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
  if (!n) return C(0); bool s = anySym(a, n) || anySym(b, n);
  if (!s) { if (anyUninit(a, n) || anyUninit(b, n)) { violation("uninit", "comparison of uninitialised memory"); endPath(); } uint32_t o1, o2; Obj* x = resolve(a, n, false, o1, "compare"); Obj* y = resolve(b, n, false, o2, "compare"); int r = memcmp(x->d + o1, y->d + o2, n); return C(maskw((uint64_t)(int64_t)(r < 0 ? -1 : r > 0 ? 1 : 0), 32)); }
  if (eqOnly) { E eq = mkBool(true); uint64_t i = 0; while (i < n) { int k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; if (k == 8) { E l = mkEq(bytesE(a + i, 4), bytesE(b + i, 4)), h = mkEq(bytesE(a + i + 4, 4), bytesE(b + i + 4, 4)); eq = mkAnd(eq, mkAnd(l, h)); } else eq = mkAnd(eq, mkEq(bytesE(a + i, k), bytesE(b + i, k))); i += k; } return SE(mkIte(eq, mkBV(0, 32), mkBV(1, 32))); }
  E r = mkBV(0, 32); for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E x = bytesE(a + i, 1), y = bytesE(b + i, 1); r = mkIte(mkEq(x, y), r, mkIte(mkCmp(K::Ult, x, y), mkBV(~0ull, 32), mkBV(1, 32))); } return SE(r); }
static Val math1(const std::string& n, const Val& a) {
  if (!a.e) { double x = dbl(a); if (n == "exp") return Dv(exp(x)); if (n == "exp2") return Dv(exp2(x)); if (n == "log") return Dv(log(x)); if (n == "log2") return Dv(log2(x)); if (n == "log10") return Dv(log10(x)); if (n == "log1p") return Dv(log1p(x)); if (n == "expm1") return Dv(expm1(x)); if (n == "sqrt") return Dv(sqrt(x)); if (n == "sin") return Dv(sin(x)); if (n == "cos") return Dv(cos(x)); if (n == "tan") return Dv(tan(x)); if (n == "tanh") return Dv(tanh(x)); if (n == "erf") return Dv(erf(x)); if (n == "fabs") return Dv(fabs(x)); if (n == "floor") return Dv(floor(x)); if (n == "ceil") return Dv(ceil(x)); if (n == "trunc") return Dv(trunc(x)); if (n == "round") return Dv(round(x)); if (n == "rint" || n == "nearbyint") return Dv(rint(x)); if (n == "acos") return Dv(acos(x)); if (n == "asin") return Dv(asin(x)); if (n == "atan") return Dv(atan(x)); if (n == "tgamma") return Dv(tgamma(x)); if (n == "lgamma") return Dv(lgamma(x)); if (n == "cosh") return Dv(cosh(x)); if (n == "sinh") return Dv(sinh(x)); unsupported("math " + n); }
  E x = a.e; E one = mkReal(1);
  if (n == "exp") return SE(mkExp(x)); if (n == "exp2") return SE(mkExp(mkRMul(mkReal(M_LN2), x))); if (n == "log") return SE(mkLog(x)); if (n == "log2") return SE(mkRDiv(mkLog(x), mkReal(M_LN2))); if (n == "log1p") return SE(mkLog(mkRAdd(one, x))); if (n == "expm1") return SE(mkRSub(mkExp(x), one)); if (n == "sqrt") return SE(mkSqrt(x)); if (n == "sin") return SE(mkFn(fnSym(F_SIN), {x})); if (n == "cos") return SE(mkFn(fnSym(F_COS), {x})); if (n == "tanh") return SE(mkTanh(x)); if (n == "erf") return SE(mkFn(fnSym(F_ERF), {x})); if (n == "fabs") return SE(mkAbs(x)); if (n == "floor") return SE(mkFn(fnSym(F_FLOOR), {x})); if (n == "ceil") return SE(mkRNeg(mkFn(fnSym(F_FLOOR), {mkRNeg(x)})));
  if (n == "cosh") return SE(mkRMul(mkReal(0.5), mkRAdd(mkExp(x), mkExp(mkRNeg(x))))); if (n == "sinh") return SE(mkRMul(mkReal(0.5), mkRSub(mkExp(x), mkExp(mkRNeg(x)))));
  unsupported("symbolic " + n); }
static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
static E condOf(const Val& v) { if (!v.e) return mkBool((v.c & 0xffffffff) != 0); return v.e->s == Sort::Bool ? v.e : mkNot(mkEq(v.e, mkBV(0, v.e->w))); }
static void setInit(uint64_t a, uint64_t n, bool init) { if (!n) return; uint32_t off; Obj* o = resolve(a, n, true, off, "mark"); splitCells(o, off, n); memset(o->init + off, init, n); }

static bool intrinsic(Frame* f, DI& d, IntrinsicInst* ii, const std::function<const Val&(int)>& V) {
  auto id = ii->getIntrinsicID(); Type* t = d.ty; int w = d.w;
  auto vec1 = [&](std::function<Val(const Val&)> g) { const Val& a = V(0); if (a.agg) { Val r; r.agg = new std::vector<Val>(); for (auto& x : *a.agg) r.agg->push_back(g(x)); return r; } return g(a); };
  auto vec2 = [&](std::function<Val(const Val&, const Val&)> g) { const Val& a = V(0); if (a.agg) { Val r; r.agg = new std::vector<Val>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(g((*a.agg)[i], (*V(1).agg)[i])); return r; } return g(a, V(1)); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = cv(V(2)), a = cv(V(0)), b = cv(V(1)); copyBytes(a, b, n); ret(f, d, C(0)); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = cv(V(2)), a = cv(V(0)); if (n) { uint32_t off; Obj* o = resolve(a, n, true, off, "memset"); race(o, a >> 32, off, n, true); splitCells(o, off, n); uint64_t b = cv(V(1)); memset(o->d + off, (int)b, n); memset(o->init + off, 1, n); } ret(f, d, C(0)); return true; }
    case Intrinsic::fabs: ret(f, d, vec1([&](const Val& a) { if (ii->getArgOperand(0)->getType()->getScalarType()->isFloatTy()) return Fv(std::fabs(flt(a))); return math1("fabs", a); })); return true;
    case Intrinsic::sqrt: ret(f, d, vec1([&](const Val& a) { return math1("sqrt", a); })); return true;
    case Intrinsic::exp: ret(f, d, math1("exp", V(0))); return true; case Intrinsic::exp2: ret(f, d, math1("exp2", V(0))); return true; case Intrinsic::log: ret(f, d, math1("log", V(0))); return true; case Intrinsic::log2: ret(f, d, math1("log2", V(0))); return true; case Intrinsic::sin: ret(f, d, math1("sin", V(0))); return true; case Intrinsic::cos: ret(f, d, math1("cos", V(0))); return true;
    case Intrinsic::floor: if (t->isFloatTy()) { ret(f, d, Fv(std::floor(flt(V(0))))); return true; } ret(f, d, math1("floor", V(0))); return true; case Intrinsic::ceil: if (t->isFloatTy()) { ret(f, d, Fv(std::ceil(flt(V(0))))); return true; } ret(f, d, math1("ceil", V(0))); return true; case Intrinsic::trunc: ret(f, d, math1("trunc", V(0))); return true; case Intrinsic::round: ret(f, d, math1("round", V(0))); return true; case Intrinsic::rint: ret(f, d, math1("rint", V(0))); return true;
    case Intrinsic::pow: { const Val &a = V(0), &b = V(1); if (!a.e && !b.e) ret(f, d, Dv(pow(dbl(a), dbl(b)))); else ret(f, d, SE(mkPow(asReal(a), asReal(b)))); return true; }
    case Intrinsic::powi: { const Val& a = V(0); int n = (int)cv(V(1)); if (!a.e) ret(f, d, Dv(std::pow(dbl(a), n))); else ret(f, d, SE(mkPow(a.e, mkReal(n)))); return true; }
    case Intrinsic::ldexp: { const Val& a = V(0); int n = (int)cv(V(1)); if (!a.e) ret(f, d, Dv(ldexp(dbl(a), n))); else ret(f, d, SE(mkRMul(a.e, mkReal(ldexp(1.0, n))))); return true; }
    case Intrinsic::fma: case Intrinsic::fmuladd: ret(f, d, binop(Instruction::FAdd, binop(Instruction::FMul, V(0), V(1), t), V(2), t)); return true;
    case Intrinsic::minnum: case Intrinsic::minimum: ret(f, d, vec2([&](const Val& a, const Val& b) { if (!a.e && !b.e) return Dv(std::fmin(dbl(a), dbl(b))); return SE(mkMin(asReal(a), asReal(b))); })); return true;
    case Intrinsic::maxnum: case Intrinsic::maximum: ret(f, d, vec2([&](const Val& a, const Val& b) { if (!a.e && !b.e) return Dv(std::fmax(dbl(a), dbl(b))); return SE(mkMax(asReal(a), asReal(b))); })); return true;
    case Intrinsic::copysign: { const Val &a = V(0), &b = V(1); if (!a.e && !b.e) ret(f, d, Dv(std::copysign(dbl(a), dbl(b)))); else { E x = mkAbs(asReal(a)); ret(f, d, SE(mkIte(mkRLt(asReal(b), mkReal(0)), mkRNeg(x), x))); } return true; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Type* et = t->getScalarType(); ret(f, d, vec2([&](const Val& a, const Val& b) { Val c = icmp(id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT, a, b, et); return selectV(c, a, b, et); })); return true; }
    case Intrinsic::abs: { Val a = V(0); Val z = C(0); Val n = binop(Instruction::Sub, z, a, t); Val c = icmp(CmpInst::ICMP_SLT, a, z, t); ret(f, d, selectV(c, n, a, t)); return true; }
    case Intrinsic::ctpop: { uint64_t a = cv(V(0)); ret(f, d, C(__builtin_popcountll(a))); return true; } case Intrinsic::ctlz: { uint64_t a = cv(V(0)); ret(f, d, C(a ? __builtin_clzll(a) - (64 - w) : w)); return true; } case Intrinsic::cttz: { uint64_t a = cv(V(0)); ret(f, d, C(a ? __builtin_ctzll(a) : w)); return true; }
    case Intrinsic::bswap: { uint64_t a = cv(V(0)), r = 0; for (int i = 0; i < w / 8; i++) r |= ((a >> (8 * i)) & 255) << (w - 8 - 8 * i); ret(f, d, C(r)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t a = cv(V(0)), b = cv(V(1)), s = cv(V(2)) % w; uint64_t r; if (id == Intrinsic::fshl) r = s ? (a << s) | (b >> (w - s)) : a; else r = s ? (a << (w - s)) | (b >> s) : b; ret(f, d, C(maskw(r, w))); return true; }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_UGT, V(0), V(1), t); Val df = binop(Instruction::Sub, V(0), V(1), t); ret(f, d, selectV(c, df, C(0), t)); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      int ww = intw(cast<StructType>(t)->getElementType(0)); uint64_t a = cv(V(0)), b = cv(V(1)); Val r; bool o; uint64_t res;
      if (id == Intrinsic::uadd_with_overflow) { unsigned __int128 x = (unsigned __int128)a + b; res = maskw((uint64_t)x, ww); o = x != res; } else if (id == Intrinsic::usub_with_overflow) { res = maskw(a - b, ww); o = a < b; } else if (id == Intrinsic::umul_with_overflow) { unsigned __int128 x = (unsigned __int128)a * b; res = maskw((uint64_t)x, ww); o = x != res; }
      else { __int128 x = sext64(a, ww), y = sext64(b, ww); __int128 z = id == Intrinsic::sadd_with_overflow ? x + y : id == Intrinsic::ssub_with_overflow ? x - y : x * y; res = maskw((uint64_t)z, ww); o = z != sext64(res, ww); }
      r.agg = new std::vector<Val>{C(res), C(o)}; ret(f, d, r); return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: ret(f, d, V(0)); return true;
    case Intrinsic::objectsize: ret(f, d, C(maskw(~0ull, w))); return true; case Intrinsic::is_constant: ret(f, d, C(0)); return true;
    case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::experimental_noalias_scope_decl: ret(f, d, C(0)); return true;
    case Intrinsic::eh_typeid_for: { uint64_t a = cv(V(0)); ret(f, d, C(((a >> 32) & 0x7fffffff) + 2)); return true; }
    case Intrinsic::trap: violation("ub", "trap reached"); endPath();
    case Intrinsic::is_fpclass: { const Val& a = V(0); unsigned m = (unsigned)cv(V(1)); if (a.e) { bool nanq = m & 3, inf = m & (4 | 512), fin = m & 0x1f8; if (!fin) { ret(f, d, C(0)); return true; } if ((m & 0x1f8) == 0x1f8) { ret(f, d, C(1)); return true; } (void)nanq; (void)inf; unsupported("fpclass"); }
      double x = dbl(a); bool r = false; if (std::isnan(x)) r = m & 3; else if (std::isinf(x)) r = x < 0 ? (m & 4) : (m & 512); else if (x == 0) r = std::signbit(x) ? (m & 32) : (m & 64); else if (std::isnormal(x)) r = x < 0 ? (m & 8) : (m & 256); else r = x < 0 ? (m & 16) : (m & 128); ret(f, d, C(r)); return true; }
    case Intrinsic::vector_reduce_fadd: { Val s = V(0); Type* et = t; for (auto& x : *V(1).agg) s = binop(Instruction::FAdd, s, x, et); ret(f, d, s); return true; }
    case Intrinsic::vector_reduce_add: { Val s = C(0); for (auto& x : *V(0).agg) s = binop(Instruction::Add, s, x, t); ret(f, d, s); return true; }
    default: return false; } }

static void doCall(Frame* f, DI& d) {
  auto V = [&](int i) -> const Val& { const Opn& o = d.ops[i]; return o.slot >= 0 ? f->r[o.slot] : f->f->consts[o.k]; };
  int na = (int)d.ops.size() - 1; auto cb = cast<CallBase>(d.I);
  if (auto ii = dyn_cast<IntrinsicInst>(d.I)) { std::function<const Val&(int)> vf = V; if (intrinsic(f, d, ii, vf)) return; unsupported("intrinsic " + ii->getCalledFunction()->getName().str()); }
  if (cb->isInlineAsm()) { ret(f, d, C(0)); return; }
  FnInfo* tgt = d.target; int ext = d.callee;
  if (!tgt && ext < 0) { uint64_t a = cv(V(na)); auto it = fAt.find(a); if (it == fAt.end()) { violation("memory", "call through an invalid function pointer"); endPath(); } if (it->second->isDeclaration()) ext = extId(it->second->getName().str()); else tgt = fns[it->second]; }
  if (tgt) { std::vector<Val> args; args.reserve(na); for (int i = 0; i < na; i++) { args.push_back(V(i)); } pushCall(tgt, args); return; }
  const std::string& n = extNames[ext];
  static std::unordered_map<std::string, int> kindOf; 
  // ---- harness interface
  if (starts(n, "sym_") || starts(n, "vk_")) {
    if (n == "sym_double" || n == "sym_double_in") { std::string key = uniqueName(cstr(cv(V(0)))); E v = mkVar(key, Sort::Real, 64); inputs.push_back({key, (int)v->c, 'r'}); inputVar[key] = v; if (n == "sym_double_in") { VarDom dm; dm.has = true; dm.lo = dbl(V(1)); dm.hi = dbl(V(2)); g_dom[(int)v->c] = dm; } ret(f, d, SE(v)); return; }
    if (n == "sym_int") { std::string key = uniqueName(cstr(cv(V(0)))); int64_t lo = sext64(cv(V(1)), 32), hi = sext64(cv(V(2)), 32); E v = mkVar(key, Sort::BV, 32); inputs.push_back({key, (int)v->c, 'i'}); inputVar[key] = v; PC.push_back(mkCmp(K::Sle, mkBV(lo, 32), v)); PC.push_back(mkCmp(K::Sle, v, mkBV(hi, 32))); ret(f, d, SE(v)); return; }
    if (n == "sym_uint") { std::string key = uniqueName(cstr(cv(V(0)))); uint64_t lo = cv(V(1)), hi = cv(V(2)); E v = mkVar(key, Sort::BV, 32); inputs.push_back({key, (int)v->c, 'i'}); inputVar[key] = v; PC.push_back(mkCmp(K::Ule, mkBV(lo, 32), v)); PC.push_back(mkCmp(K::Ule, v, mkBV(hi, 32))); ret(f, d, SE(v)); return; }
    if (n == "sym_bool") { std::string key = uniqueName(cstr(cv(V(0)))); E v = mkVar(key, Sort::Bool, 1); inputs.push_back({key, (int)v->c, 'b'}); ret(f, d, SE(mkZExt(v, 32))); return; }
    if (n == "sym_choice") { std::string key = uniqueName(cstr(cv(V(0)))); int m = (int)cv(V(1)); int val = m - 1; for (int i = 0; i + 1 < m; i++) if (forkProc() == 1) { val = i; break; } choices.push_back({key, std::to_string(val)}); ret(f, d, C(maskw(val, 32))); return; }
    if (n == "sym_assume") { E c = condOf(V(0)); if (isC(c)) { if (!c->c) endPath(); } else { if (!feasible(c, PC)) endPath(); PC.push_back(c); } ret(f, d, C(0)); return; }
    if (n == "sym_assert") { E c = condOf(V(0)); std::string m = cstr(cv(V(1))); doAssert(c, nullptr, nullptr, m); ret(f, d, C(0)); return; }
    if (n == "sym_assert_eq") { E a = asReal(V(0)), b = asReal(V(1)); std::string m = cstr(cv(V(2))); doAssert(nullptr, a, b, m); ret(f, d, C(0)); return; }
    if (n == "sym_assert_close") { E a = asReal(V(0)), b = asReal(V(1)); E t = asReal(V(2)); std::string m = cstr(cv(V(3))); E df = mkRSub(a, b); E c = mkAnd(mkRLe(df, t), mkRLe(mkRNeg(t), df)); doAssert(c, nullptr, nullptr, m); ret(f, d, C(0)); return; }
    if (n == "sym_uf") { int fid = (int)cv(V(0)), k = (int)cv(V(1)); uint64_t ap = cv(V(2)), dp = cv(V(3)); std::vector<E> args; std::vector<int> der; for (int i = 0; i < k; i++) { args.push_back(asReal(loadTy(Type::getDoubleTy(M->getContext()), ap + 8 * i))); der.push_back(dp ? (int)cv(loadTy(Type::getInt32Ty(M->getContext()), dp + 4 * i)) : 0); } ret(f, d, SE(mkFn(userSym(fid, der), args))); return; }
    if (n == "sym_diff") { E a = asReal(V(0)); std::string key = cstr(cv(V(1))); if (!inputVar.count(key)) unsupported("sym_diff of unknown variable " + key); ret(f, d, SE(diff(a, inputVar[key]))); return; }
    if (n == "sym_reach") { std::string l = cstr(cv(V(0))); if (reachSeen.insert(l).second) { out("{\"kind\":\"reach\",\"entry\":\"" + entryName + "\",\"label\":\"" + jesc(l) + "\"}"); } ret(f, d, C(0)); return; }
    if (n == "sym_print") { E a = asReal(V(1)); std::cerr << cstr(cv(V(0))) << " = " << toStr(a, 8); if (!(a->flags & 4)) try { std::cerr << "   [" << pStr(polyAt(polyOf(a))) << "]"; } catch (TooBig&) {} std::cerr << "\n"; ret(f, d, C(0)); return; }
    if (n == "sym_printi") { std::cerr << cstr(cv(V(0))) << " = " << (V(1).e ? toStr(V(1).e, 8) : std::to_string((long)V(1).c)) << "\n"; ret(f, d, C(0)); return; }
    if (n == "sym_is_symbolic") { ret(f, d, C(1)); return; }
    if (n == "sym_concretize") { ret(f, d, C(cv(V(0)))); return; }
    if (n == "sym_uninit") { setInit(cv(V(0)), cv(V(1)), false); ret(f, d, C(0)); return; }
    if (n == "sym_stop") { endPath(); }
    if (n == "vk_par_begin") { parEpoch++; curIter = -1; exemptObjs.clear(); ret(f, d, C(0)); return; }
    if (n == "vk_par_iter") { curIter = (int)cv(V(0)); ret(f, d, C(0)); return; }
    if (n == "vk_par_end") { curIter = -1; parEpoch++; ret(f, d, C(0)); return; }
    if (n == "vk_exempt") { exemptObjs.insert(cv(V(0)) >> 32); ret(f, d, C(0)); return; }
    if (n == "vk_alloc") { uint64_t s = cv(V(0)), hdr = cv(V(1)); uint64_t a = newObj(s, 'k', false, "Kokkos allocation"); objs[a >> 32]->poison = hdr; ret(f, d, C(a)); return; }
    if (n == "vk_free") { uint64_t a = cv(V(0)); if (a) { if ((a >> 32) >= objs.size() || !objs[a >> 32] || objs[a >> 32]->kind != 'k') { violation("memory", "invalid release of a Kokkos allocation"); endPath(); } delObj(a >> 32); } ret(f, d, C(0)); return; }
    if (n == "vk_scratch") { uint64_t s = cv(V(1)); uint64_t a = newObj(s, 'k', false, "scratch memory"); ret(f, d, C(a)); return; }
    unsupported("harness function " + n); }
  // ---- C library
  if (starts(n, "_Znwm") || starts(n, "_Znam") || n == "malloc") { uint64_t s = cv(V(0)); if (s > (1ull << 30)) { if (n == "malloc") { ret(f, d, C(0)); return; } throwStd("_ZTISt9bad_alloc"); return; } ret(f, d, C(newObj(s, n == "malloc" ? 'm' : 'n', false, "heap"))); return; }
  if (n == "aligned_alloc") { ret(f, d, C(newObj(cv(V(1)), 'm', false, "heap"))); return; }
  if (n == "posix_memalign") { uint64_t a = newObj(cv(V(2)), 'm', false, "heap"); storeTy(PointerType::get(M->getContext(), 0), cv(V(0)), C(a)); ret(f, d, C(0)); return; }
  if (n == "calloc") { ret(f, d, C(newObj(cv(V(0)) * cv(V(1)), 'm', true, "heap"))); return; }
  if (n == "realloc") { uint64_t p = cv(V(0)), s = cv(V(1)); uint64_t a = newObj(s, 'm', false, "heap"); if (p) { uint64_t os = objs[p >> 32] ? objs[p >> 32]->size : 0; copyBytes(a, p, std::min(os, s)); delObj(p >> 32); } ret(f, d, C(a)); return; }
  if (n == "free" || starts(n, "_ZdlPv") || starts(n, "_ZdaPv")) { uint64_t p = cv(V(0)); if (p) { uint64_t id = p >> 32; if (id >= objs.size() || id < 16 || !objs[id]) { violation("memory", "double free or invalid free"); endPath(); } Obj* o = objs[id]; char want = n == "free" ? 'm' : 'n'; if ((p & 0xffffffff) != BASE || o->kind != want) { violation("memory", "free of a pointer that was not allocated this way"); endPath(); } delObj(id); } ret(f, d, C(0)); return; }
  if (n == "memcpy" || n == "memmove") { uint64_t a = cv(V(0)); copyBytes(a, cv(V(1)), cv(V(2))); ret(f, d, C(a)); return; }
  if (n == "memset") { uint64_t a = cv(V(0)), k = cv(V(2)); int b = (int)cv(V(1)); if (k) { uint32_t off; Obj* o = resolve(a, k, true, off, "memset"); race(o, a >> 32, off, k, true); splitCells(o, off, k); memset(o->d + off, b, k); memset(o->init + off, 1, k); } ret(f, d, C(a)); return; }
  if (n == "memcmp" || n == "bcmp") { ret(f, d, memcmpV(cv(V(0)), cv(V(1)), cv(V(2)), n == "bcmp")); return; }
  if (n == "strlen") { ret(f, d, C(cstr(cv(V(0))).size())); return; }
  if (n == "strcmp") { int r = cstr(cv(V(0))).compare(cstr(cv(V(1)))); ret(f, d, C(maskw((uint64_t)(int64_t)r, 32))); return; }
  if (n == "memchr") { uint64_t a = cv(V(0)), k = cv(V(2)); uint8_t c = cv(V(1)); uint64_t r = 0; if (k) { uint32_t off; Obj* o = resolve(a, k, false, off, "memchr"); void* p = memchr(o->d + off, c, k); if (p) r = a + ((uint8_t*)p - (o->d + off)); } ret(f, d, C(r)); return; }
  { static const std::set<std::string> m1 = {"exp","exp2","log","log2","log10","log1p","expm1","sqrt","sin","cos","tan","tanh","erf","fabs","floor","ceil","trunc","round","rint","nearbyint","acos","asin","atan","tgamma","lgamma","cosh","sinh"};
    if (m1.count(n)) { ret(f, d, math1(n, V(0))); return; }
    if (n == "pow") { const Val &a = V(0), &b = V(1); if (!a.e && !b.e) ret(f, d, Dv(pow(dbl(a), dbl(b)))); else ret(f, d, SE(mkPow(asReal(a), asReal(b)))); return; }
    if (n == "ldexp") { const Val& a = V(0); int k = (int)cv(V(1)); if (!a.e) ret(f, d, Dv(ldexp(dbl(a), k))); else ret(f, d, SE(mkRMul(a.e, mkReal(ldexp(1.0, k))))); return; }
    if (n == "fmod") { const Val &a = V(0), &b = V(1); if (a.e || b.e) unsupported("symbolic fmod"); ret(f, d, Dv(fmod(dbl(a), dbl(b)))); return; }
    if (n == "fmin" || n == "fmax") { const Val &a = V(0), &b = V(1); if (!a.e && !b.e) ret(f, d, Dv(n == "fmin" ? fmin(dbl(a), dbl(b)) : fmax(dbl(a), dbl(b)))); else ret(f, d, SE(n == "fmin" ? mkMin(asReal(a), asReal(b)) : mkMax(asReal(a), asReal(b)))); return; }
    if (n == "ceilf" || n == "floorf") { float x = flt(V(0)); ret(f, d, Fv(n == "ceilf" ? std::ceil(x) : std::floor(x))); return; } }
  // ---- C++ runtime
  if (n == "__cxa_allocate_exception") { ret(f, d, C(newObj(cv(V(0)), 'x', false, "exception"))); return; }
  if (n == "__cxa_free_exception") { ret(f, d, C(0)); return; }
  if (n == "__cxa_throw") { cur = {cv(V(0)), cv(V(1))}; excByObj[cur.obj] = cur; unwind(); return; }
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { uint64_t o = cv(V(0)); if (n == "__cxa_begin_catch") caught.push_back(excByObj[o]); ret(f, d, C(o)); return; }
  if (n == "__cxa_end_catch") { if (!caught.empty()) caught.pop_back(); ret(f, d, C(0)); return; }
  if (n == "__cxa_rethrow") { cur = caught.back(); unwind(); return; }
  if (n == "__cxa_guard_acquire") { uint64_t a = cv(V(0)); Val v = loadTy(Type::getInt8Ty(M->getContext()), a); ret(f, d, C(v.c == 0)); return; }
  if (n == "__cxa_guard_release") { uint64_t a = cv(V(0)); storeTy(Type::getInt8Ty(M->getContext()), a, C(1)); ret(f, d, C(0)); return; }
  if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret(f, d, C(0)); return; }
  if (n == "__cxa_pure_virtual") { violation("ub", "pure virtual function called"); endPath(); }
  if (n == "__dynamic_cast") { uint64_t p = cv(V(0)), dst = cv(V(2)); Type* pt = PointerType::get(M->getContext(), 0); uint64_t vp = loadTy(pt, p).c; int64_t top = (int64_t)loadTy(Type::getInt64Ty(M->getContext()), vp - 16).c; uint64_t ti = loadTy(pt, vp - 8).c; int64_t o = baseOffset(ti, dst); ret(f, d, C(o < 0 ? 0 : p + top + o)); return; }
  if (n == "__assert_fail") { std::string m = cstr(cv(V(0))); violation("abort", "assertion failed: " + m); endPath(); }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "exit" || n == "_exit") { violation("abort", n + " called"); endPath(); }
  if (starts(n, "_ZSt") && has(n, "__throw_")) { const char* ti = "_ZTISt9exception"; if (has(n, "out_of_range")) ti = "_ZTISt12out_of_range"; else if (has(n, "length_error")) ti = "_ZTISt12length_error"; else if (has(n, "logic_error")) ti = "_ZTISt11logic_error"; else if (has(n, "invalid_argument")) ti = "_ZTISt16invalid_argument"; else if (has(n, "bad_alloc") || has(n, "bad_array")) ti = "_ZTISt9bad_alloc"; else if (has(n, "runtime_error")) ti = "_ZTISt13runtime_error"; throwStd(ti); return; }
  if (n == "__errno_location") { static uint64_t a = 0; if (!a) a = newObj(8, 'g', true, "errno"); ret(f, d, C(a)); return; }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || starts(n, "pthread_mutex") || n == "pthread_once") { ret(f, d, C(0)); return; }
  if (n == "vsnprintf" || n == "snprintf") { uint64_t a = cv(V(0)), k = cv(V(1)); if (k) storeTy(Type::getInt8Ty(M->getContext()), a, C(0)); ret(f, d, C(0)); return; }
  if (n == "getenv" || n == "secure_getenv") { ret(f, d, C(0)); return; }
  if (n == "time" || n == "clock" || starts(n, "_ZNSt6chrono")) { ret(f, d, C(0)); return; }
  // ---- streams: contents are not modelled
  if (has(n, "stringstream") && has(n, "3strEv")) { bool sret = cb->arg_size() > 0 && cb->paramHasAttr(0, Attribute::StructRet); if (sret) { uint64_t a = cv(V(0)); Type* pt = PointerType::get(M->getContext(), 0); storeTy(pt, a, C(a + 16)); storeTy(Type::getInt64Ty(M->getContext()), a + 8, C(0)); storeTy(Type::getInt8Ty(M->getContext()), a + 16, C(0)); } ret(f, d, C(0)); return; }
  if (has(n, "stringstream") || has(n, "basic_ostream") || has(n, "basic_istream") || has(n, "ostream") || has(n, "ios_base") || has(n, "basic_ios") || has(n, "SolsE") || has(n, "streambuf") || has(n, "stringbuf") || has(n, "6locale") || has(n, "basic_iostream") || starts(n, "_ZSt4endl") || starts(n, "_ZNSo") || starts(n, "_ZNKSt5ctype") || starts(n, "_ZNSt5ctype") || starts(n, "_ZSt4setw") || starts(n, "_ZStls")) { Val r = na > 0 && d.ty->isPointerTy() ? V(0) : C(0); ret(f, d, r); return; }
  if (n == "_Unwind_Resume") unsupported("_Unwind_Resume");
  unsupported("external function " + n);
}
