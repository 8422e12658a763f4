// P15: coefficients of plain and nested maps under histories of set, wrap and write operations
#include "omap.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/IdentityMap.h"
typedef Kokkos::View<const double*, HS> CVec;
struct Cfg { MapPtr T; V1 m0; std::vector<std::shared_ptr<OMap>> leaf; std::vector<unsigned> off; unsigned nc = 0, d = 1; MapPtr add(unsigned in, unsigned out, unsigned k) { auto m = std::make_shared<OMap>(leaf.size(), in, out, k); leaf.push_back(m); off.push_back(nc); nc += k; return m; } };
typedef std::vector<MapPtr> Parts;
static MapPtr tri(Parts p, bool mv = false) { return std::make_shared<TriangularMap<HS>>(p, mv); }
static MapPtr comp(Parts p, bool mv = false) { return std::make_shared<ComposedMap<HS>>(p, mv); }
// constructor arguments are evaluated in the order of the statements so that the slices are numbered left to right
static Cfg build(bool mv = false) { Cfg c; auto& L = c; unsigned s = sym_choice("shape", mv ? 6 : TIER ? 11 : 9); MapPtr a, b, e;
  auto arm = [&] { if (mv) for (auto& l : c.leaf) if (l->numCoeffs) { Vec v("v", l->numCoeffs); for (unsigned j = 0; j < l->numCoeffs; ++j) { v(j) = symd("m", l->id, j); c.m0.push_back(v(j)); } l->SetCoeffs(CVec(v)); } };
  switch (s) {
  case 0: a = L.add(1, 1, 2); b = L.add(2, 1, 1); arm(); c.T = tri({a, b}, mv); c.d = 2; break;
  case 1: a = L.add(1, 1, 1); b = L.add(2, 1, 0); e = L.add(3, 1, 2); arm(); c.T = tri({a, b, e}, mv); c.d = 3; break;
  case 2: a = L.add(1, 1, 2); b = L.add(1, 1, 1); arm(); c.T = comp({a, b}, mv); break;
  case 3: a = L.add(1, 1, 0); b = L.add(1, 1, 2); e = L.add(1, 1, 1); arm(); c.T = comp({a, b, e}, mv); break;
  case 4: a = L.add(1, 1, 1); b = std::make_shared<IdentityMap<HS>>(1, 1); e = L.add(1, 1, 1); arm(); c.T = comp({a, b, e}, mv); break;
  case 5: if (mv) { a = L.add(1, 1, 0); b = L.add(2, 1, 0); c.T = tri({a, b}, true); c.d = 2; break; } a = std::make_shared<OMap>(50, 2, 1, 0); b = L.add(2, 1, 2); c.T = std::make_shared<SummarizedMap<HS>>(a, b); c.d = 3; break;
  case 6: a = L.add(1, 1, 1); b = L.add(1, 1, 1); e = comp({a, b}); a = L.add(2, 1, 2); c.T = tri({e, a}); c.d = 2; break;
  case 7: a = L.add(1, 1, 1); b = L.add(2, 1, 1); e = tri({a, b}); a = L.add(2, 2, 2); c.T = comp({e, a}); c.d = 2; break;
  case 8: c.T = L.add(1, 1, 3); break;
  case 9: a = L.add(1, 1, 1); b = L.add(1, 1, 1); e = comp({a, b}); a = L.add(1, 1, 1); c.T = comp({e, a}); break;
  default: { a = L.add(1, 1, 1); auto f = std::make_shared<OMap>(50, 1, 1, 0); b = L.add(2, 1, 2); e = std::make_shared<SummarizedMap<HS>>(f, b); c.T = tri({a, e}); c.d = 2; } }
  sym_assert(c.T->numCoeffs == c.nc, "number of coefficients"); return c; }
static void agree(Cfg& c, V1 const& cur, const char* w) { auto const& T = *c.T; sym_assert(c.T->CheckCoefficients() && T.Coeffs().extent(0) == c.nc, "coefficients are present"); Eigen::Map<Eigen::VectorXd> m = c.T->CoeffMap(); sym_assert(m.size() == (long)c.nc, "coefficient map size"); CVec r = T.Coeffs(); for (unsigned i = 0; i < c.nc; ++i) { sym_assert_eq(r(i), cur[i], w); sym_assert_eq(m(i), cur[i], "coefficient map"); }
  for (unsigned l = 0; l < c.leaf.size(); ++l) { V1 v = c.leaf[l]->cf(); for (unsigned j = 0; j < v.size(); ++j) sym_assert_eq(v[j], cur[c.off[l] + j], "every part uses its consecutive slice"); } }
static double fresh(const char* p, unsigned a, unsigned b) { return symd(p, a, b); }
HARNESS(history) { Cfg c = build(); unsigned L = TIER ? 4 : 3, kind = sym_choice("kind", 2); V1 cur(c.nc); int mode = -1; // mode: index of the wrapped array, or -1
  std::vector<Vec> arr; std::vector<Eigen::VectorXd> earr; std::vector<double*> ptr; std::vector<char> live; earr.reserve(L + 1); bool have = false;
  auto read = [&] { if (mode >= 0) for (unsigned j = 0; j < c.nc; ++j) cur[j] = ptr[mode][j]; };
  for (unsigned t = 0; t < L; ++t) { std::string on = "op" + std::to_string(t); unsigned op = sym_choice(on.c_str(), have ? 4 : 2);
    if (op < 2) { double* p; Vec v; if (kind) { earr.emplace_back(c.nc); p = earr.back().data(); } else { v = Vec("arr", c.nc); arr.push_back(v); p = v.data(); } for (unsigned j = 0; j < c.nc; ++j) p[j] = fresh("a", t, j);
      if (op == 0) { if (mode >= 0) live[mode] = 0; if (kind) c.T->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(earr.back())); else c.T->SetCoeffs(CVec(v)); mode = -1; } else { if (mode >= 0) live[mode] = 1; if (kind) c.T->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(earr.back())); else c.T->WrapCoeffs(v); mode = ptr.size(); }
      for (unsigned j = 0; j < c.nc; ++j) cur[j] = p[j]; ptr.push_back(p); live.push_back(1); have = true; if (op == 1) for (unsigned j = 0; j < c.nc; ++j) sym_assert(c.T->Coeffs().data() + j == p + j, "wrapping uses the caller's array"); }
    else if (op == 2) { // the caller writes to every array still in its own hands
      for (unsigned a = 0; a < ptr.size(); ++a) if (live[a]) for (unsigned j = 0; j < c.nc; ++j) ptr[a][j] = symd(("w" + std::to_string(t)).c_str(), a, j); read(); }
    else { unsigned j = t % c.nc; double q = fresh("k", t, j); c.T->CoeffMap()(j) = q; cur[j] = q; if (mode >= 0) sym_assert_eq(ptr[mode][j], cur[j], "the wrapped array is the map's storage"); }
    agree(c, cur, "coefficients read back"); }
  SMat x = symMat("x", c.d, 1); sym_assert(!throws([&] { c.T->Evaluate(CSMat(x)); }), "evaluation with coefficients"); sym_reach("history"); }
HARNESS(moved) { Cfg c = build(true); V1 cur = c.m0; agree(c, cur, "coefficients moved at construction"); if (!c.nc) { sym_reach("moved"); return; } unsigned op = sym_choice("op", 3); Vec v("v", c.nc); for (unsigned j = 0; j < c.nc; ++j) v(j) = fresh("a", 0, j);
  if (op == 0) c.T->SetCoeffs(CVec(v)); else if (op == 1) c.T->WrapCoeffs(v); else c.T->CoeffMap()(0) = v(0); for (unsigned j = 0; j < (op == 2 ? 1 : c.nc); ++j) cur[j] = v(j); agree(c, cur, "after a further change"); if (op < 2) { v(0) = fresh("b", 0, 0); if (op == 1) cur[0] = v(0); agree(c, cur, "after the caller's write"); } sym_reach("moved"); }
HARNESS(rejects) { Cfg c = build(); SMat x = symMat("x", c.d, 1), s = symMat("s", c.T->outputDim, 1), r = symMat("r", c.T->outputDim, 1); Eigen::RowMatrixXd ex(c.d, 1), es(c.T->outputDim, 1); for (unsigned i = 0; i < c.d; ++i) ex(i, 0) = x(i, 0); for (unsigned i = 0; i < c.T->outputDim; ++i) es(i, 0) = s(i, 0);
  auto uses = [&](unsigned w) { switch (w) { case 0: c.T->Evaluate(CSMat(x)); break; case 1: c.T->LogDeterminant(CSMat(x)); break; case 2: c.T->Gradient(CSMat(x), CSMat(s)); break; case 3: c.T->CoeffGrad(CSMat(x), CSMat(s)); break; case 4: c.T->Inverse(CSMat(x), CSMat(r)); break; case 5: c.T->LogDeterminantCoeffGrad(CSMat(x)); break; case 6: c.T->LogDeterminantInputGrad(CSMat(x)); break; case 7: c.T->Evaluate(Eigen::Ref<const Eigen::RowMatrixXd>(ex)); break; case 8: c.T->LogDeterminant(Eigen::Ref<const Eigen::RowMatrixXd>(ex)); break; case 9: c.T->Gradient(Eigen::Ref<const Eigen::RowMatrixXd>(ex), Eigen::Ref<const Eigen::RowMatrixXd>(es)); break; case 10: c.T->CoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd>(ex), Eigen::Ref<const Eigen::RowMatrixXd>(es)); break; case 11: c.T->Inverse(Eigen::Ref<const Eigen::RowMatrixXd>(ex), Eigen::Ref<const Eigen::RowMatrixXd>(es)); break; case 12: c.T->LogDeterminantCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd>(ex)); break; case 13: c.T->LogDeterminantInputGrad(Eigen::Ref<const Eigen::RowMatrixXd>(ex)); break; default: c.T->CoeffMap(); } };
  unsigned w = sym_choice("use", 15); sym_assert(!c.T->CheckCoefficients(), "no coefficients yet"); sym_assert(throws([&] { uses(w); }), "evaluating without coefficients is an error");
  unsigned first = sym_choice("first", 2); Vec good("g", c.nc); V1 cur; for (unsigned j = 0; j < c.nc; ++j) { good(j) = fresh("g", 0, j); cur.push_back(good(j)); } if (first) c.T->SetCoeffs(CVec(good));
  int wrong = (int)c.nc + (int[]){-2, -1, 1, 2}[sym_choice("wrong", 4)]; if (wrong < 0) wrong = 0; unsigned how = sym_choice("how", 4); Vec b("b", wrong); Eigen::VectorXd eb(wrong); for (int j = 0; j < wrong; ++j) { b(j) = fresh("b", 0, j); eb(j) = b(j); }
  bool t = throws([&] { if (how == 0) c.T->SetCoeffs(CVec(b)); else if (how == 1) c.T->WrapCoeffs(b); else if (how == 2) c.T->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(eb)); else c.T->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(eb)); }); sym_assert(t, "a wrong number of coefficients is an error");
  if (first) agree(c, cur, "a rejected call changes nothing"); else { sym_assert(throws([&] { uses(w); }), "still no coefficients"); c.T->SetCoeffs(CVec(good)); agree(c, cur, "set after a rejected call"); } sym_assert(!throws([&] { uses(w); }), "evaluation with coefficients"); sym_reach("rejects"); }
HARNESS(movedErrors) { unsigned k0 = sym_choice("k0", 2), k1 = sym_choice("k1", 2), s0 = sym_choice("s0", 2), s1 = sym_choice("s1", 2), w = sym_choice("which", 2); auto a = std::make_shared<OMap>(0, 1, 1, k0), b = std::make_shared<OMap>(1, w ? 1 : 2, 1, k1); Vec v("v", 1); v(0) = sym_double("v"); if (s0 && k0) a->SetCoeffs(CVec(v)); if (s1 && k1) b->SetCoeffs(CVec(v)); bool t = throws([&] { if (w) comp({a, b}, true); else tri({a, b}, true); }); sym_assert(t == ((k0 && !s0) || (k1 && !s1)), "moving needs the coefficients of every part"); sym_reach("movedErrors"); }
