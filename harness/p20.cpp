// P20: matrix products, solves, determinants, in-place sums and reductions
#include "views.h"
typedef std::vector<std::vector<double>> M2;
static M2 copy(SMat const& a) { M2 m(a.extent(0), std::vector<double>(a.extent(1))); for (unsigned i = 0; i < a.extent(0); ++i) for (unsigned j = 0; j < a.extent(1); ++j) m[i][j] = a(i, j); return m; }
static void same(SMat const& a, M2 const& m, const char* what) { for (unsigned i = 0; i < a.extent(0); ++i) for (unsigned j = 0; j < a.extent(1); ++j) sym_assert_eq(a(i, j), m[i][j], what); }
static double el(M2 const& m, bool t, unsigned i, unsigned j) { return t ? m[j][i] : m[i][j]; }
HARNESS(gemm) { unsigned q = sym_choice("shape", TIER ? 5 : 4); unsigned m = q == 0 ? 1 : q == 4 ? 3 : 2, n = q == 1 ? 3 : q == 3 ? 1 : q == 4 ? 2 : 2, k = q == 0 ? 3 : q == 1 ? 2 : q == 2 ? 1 : 3; bool ta = sym_choice("ta", 2), tb = sym_choice("tb", 2);
  unsigned lay = sym_choice("layouts", 7); unsigned la = lay < 5 ? lay : lay == 5 ? 1 : 0, lb = lay < 5 ? lay : lay == 5 ? 0 : 2, lc = lay < 5 ? lay : lay == 5 ? 4 : 3;
  SMat A = ta ? symMat("A", k, m, la) : symMat("A", m, k, la), B = tb ? symMat("B", n, k, lb) : symMat("B", k, n, lb); M2 a = copy(A), b = copy(B); unsigned bk = sym_choice("beta", 3); double alpha = sym_double("alpha"), beta = bk == 0 ? 0.0 : bk == 1 ? 1.0 : sym_double("beta_");
  SMat C = bk == 0 ? uninitMat("C", m, n, lc) : symMat("C", m, n, lc); M2 c; if (bk) c = copy(C);
  dgemm<HS>(alpha, TransposeObject<HS>(A, ta), TransposeObject<HS>(B, tb), beta, C);
  for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) { double r = bk ? beta * c[i][j] : 0.0; for (unsigned l = 0; l < k; ++l) r += alpha * el(a, ta, i, l) * el(b, tb, l, j); sym_assert_eq(C(i, j), r, "C = alpha op(A) op(B) + beta C"); } same(A, a, "A is not modified"); same(B, b, "B is not modified"); sym_reach("gemm"); }
// every product operator; the result does not share memory with its operands
HARNESS(product) { unsigned m = 1 + sym_choice("m", 2), n = 1 + sym_choice("n", 2), k = 1 + sym_choice("k", 3), op = sym_choice("op", 6), lay = sym_choice("layout", 5); bool ta = op == 1 || op == 3 || op == 5, tb = op == 2 || op == 3;
  SMat A = ta ? symMat("A", k, m, lay) : symMat("A", m, k, lay), B = tb ? symMat("B", n, k, lay) : symMat("B", k, n, lay); M2 a = copy(A), b = copy(B); SMat C;
  switch (op) { case 0: C = CSMat(A) * CSMat(B); break; case 1: C = transpose(CSMat(A)) * CSMat(B); break; case 2: C = CSMat(A) * transpose(CSMat(B)); break; case 3: C = transpose(CSMat(A)) * transpose(CSMat(B)); break; case 4: C = transpose(transpose(CSMat(A))) * CSMat(B); break; default: C = transpose(A) * B; }
  sym_assert(C.extent(0) == m && C.extent(1) == n, "product shape"); for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) { double r = 0; for (unsigned l = 0; l < k; ++l) r += el(a, ta, i, l) * el(b, tb, l, j); sym_assert_eq(C(i, j), r, "product"); }
  TransposeObject<HS> t(A, ta); sym_assert(t.rows() == (int)m && t.cols() == (int)k, "transposed shape"); SMat D(Kokkos::View<double**, HS>("D", m, n)); if (!ta && !tb) dgemm<HS>(2.0, A, B, 0.0, D); if (!ta && !tb) for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) { double r = 0; for (unsigned l = 0; l < k; ++l) r += 2.0 * a[i][l] * b[l][j]; sym_assert_eq(D(i, j), r, "dgemm of views"); } sym_reach("product"); }
HARNESS(product_plain) { unsigned k = 1 + sym_choice("k", 2); Mat A("A", 2, k); MatL B("B", k, 2); for (unsigned i = 0; i < 2; ++i) for (unsigned l = 0; l < k; ++l) { A(i, l) = symd("A", i, l); B(l, i) = symd("B", l, i); } SMat C = A * B, D = transpose(B) * B, E = A * transpose(A); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) { double c = 0, d = 0, e = 0; for (unsigned l = 0; l < k; ++l) { c += A(i, l) * B(l, j); d += B(l, i) * B(l, j); e += A(i, l) * A(j, l); } sym_assert_eq(C(i, j), c, "A*B"); sym_assert_eq(D(i, j), d, "B'*B"); sym_assert_eq(E(i, j), e, "A*A'"); } sym_reach("product_plain"); }
static MatL symL(const char* n, unsigned r, unsigned c, bool win) { if (!win) { MatL m(std::string(n), r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = symd(n, i, j); return m; } MatL b(std::string(n), r + 2, c); sym_uninit(b.data(), 8ul * b.size()); MatL m = Kokkos::subview(b, std::make_pair(1u, r + 1), std::make_pair(0u, c)); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = symd(n, i, j); return m; }
static MatL winL(const char* n, SMat const& b, bool win) { MatL m = symL(n, b.extent(0), b.extent(1), win); Kokkos::deep_copy(m, b); return m; }
HARNESS(lu) { unsigned n = 1 + sym_choice("n", TIER ? 3 : 2), c = 1 + sym_choice("cols", 2); bool win = sym_choice("window", 2); MatL A = symL("A", n, n, win); M2 a = copy(A); double d = det(a); sym_assume((d > 0) | (d < 0)); PartialPivLU<HS> lu; if (sym_choice("ctor", 2)) lu = PartialPivLU<HS>(A); else lu.compute(A);
  A(0, 0) = 99.0; sym_assert_eq(lu.determinant(), d, "determinant with its sign"); SMat b = symMat("b", n, c, sym_choice("layout", 5)); M2 b0 = copy(b); MatL x = lu.solve(b); sym_assert(x.extent(0) == n && x.extent(1) == c, "solution shape"); MatL y = winL("y", b, win); lu.solveInPlace(y); sym_assert_eq(lu.determinant(), d, "determinant is unaffected by solves");
  for (unsigned j = 0; j < c; ++j) for (unsigned i = 0; i < n; ++i) { double r = 0, s = 0; for (unsigned l = 0; l < n; ++l) { r += a[i][l] * x(l, j); s += a[i][l] * y(l, j); } sym_assert_eq(r, b0[i][j], "solve"); sym_assert_eq(s, b0[i][j], "solve in place"); } same(b, b0, "the right-hand side is not modified"); sym_reach("lu"); }
HARNESS(lu3) { MatL A = symL("A", 3, 3, false); M2 a = copy(A); double d = det(a); sym_assume((d > 0) | (d < 0)); PartialPivLU<HS> lu(A); sym_assert_eq(lu.determinant(), d, "determinant with its sign"); sym_reach("lu3"); }
HARNESS(lu_again) { unsigned n = 1 + sym_choice("n", 2), n2 = 1 + sym_choice("n2", 2); MatL A = symL("A", n, n, false), B = symL("B", n2, n2, false); M2 b = copy(B); double da = det(copy(A)), db = det(b); sym_assume(((da > 0) | (da < 0)) & ((db > 0) | (db < 0))); PartialPivLU<HS> lu(A); lu.compute(B); sym_assert_eq(lu.determinant(), db, "recomputing replaces the factorisation"); sym_reach("lu_again"); }
HARNESS(cholesky) { unsigned n = 1 + sym_choice("n", TIER ? 3 : 2), c = 1 + sym_choice("cols", 2); bool win = sym_choice("window", 2); MatL A = symL("A", n, n, win); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) A(j, i) = (double)A(i, j); M2 a = copy(A); for (unsigned i = 1; i <= n; ++i) { M2 p(i, std::vector<double>(i)); for (unsigned u = 0; u < i; ++u) for (unsigned v = 0; v < i; ++v) p[u][v] = a[u][v]; sym_assume(det(p) > 0); }
  Cholesky<HS> ch; if (sym_choice("ctor", 2)) ch = Cholesky<HS>(A); else ch.compute(A); A(0, 0) = 99.0; sym_assert_eq(ch.determinant(), det(a), "determinant");
  SMat b = symMat("b", n, c, sym_choice("layout", 5)); M2 b0 = copy(b); MatL x = ch.solve(b), y = winL("y", b, win), z = winL("z", b, win); ch.solveInPlace(y); ch.solveInPlaceL(z); MatL back = ch.multiplyL(z), I("I", n, n); for (unsigned i = 0; i < n; ++i) I(i, i) = 1.0; MatL L = ch.multiplyL(I);
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { if (j > i) sym_assert_eq(L(i, j), 0.0, "the factor is lower triangular"); double r = 0; for (unsigned l = 0; l < n; ++l) r += L(i, l) * L(j, l); sym_assert_eq(r, a[i][j], "the factor reproduces the matrix"); }
  for (unsigned j = 0; j < c; ++j) for (unsigned i = 0; i < n; ++i) { double r = 0, s = 0, t = 0; for (unsigned l = 0; l < n; ++l) { r += a[i][l] * x(l, j); s += a[i][l] * y(l, j); t += L(i, l) * z(l, j); } sym_assert_eq(r, b0[i][j], "solve"); sym_assert_eq(s, b0[i][j], "solve in place"); sym_assert_eq(t, b0[i][j], "triangular solve"); sym_assert_eq(back(i, j), b0[i][j], "multiplication undoes the triangular solve"); } same(b, b0, "the right-hand side is not modified"); sym_reach("cholesky"); }
HARNESS(sums) { unsigned n = sym_choice("n", 4), st = 1 + sym_choice("stride", 2); Vec xb = symVec("x", n * st + 1), yb = symVec("y", n * st + 1); SVec x(xb.data(), Kokkos::LayoutStride(n, st)), y(yb.data(), Kokkos::LayoutStride(n, st)); std::vector<double> x0(n), y0(n), all(xb.data(), xb.data() + n * st + 1); for (unsigned i = 0; i < n; ++i) { x0[i] = x(i); y0[i] = y(i); }
  unsigned op = sym_choice("op", 5); if (op < 3) { if (op == 0) AddInPlace(x, CSVec(y)); else if (op == 1) x += y; else AddInPlace(x, CSVec(y)); for (unsigned i = 0; i < n; ++i) all[i * st] = x0[i] + y0[i]; for (unsigned i = 0; i < n * st + 1; ++i) sym_assert_eq(xb(i), all[i], "in-place sum touches exactly its elements"); }
  else { Vec u("u", n), v("v", n); for (unsigned i = 0; i < n; ++i) { u(i) = x0[i]; v(i) = y0[i]; } Vec z = op == 3 ? Vec(u + v) : Vec(Kokkos::View<const double*, HS>(u) + Kokkos::View<const double*, HS>(v)); sym_assert(z.extent(0) == n, "length"); for (unsigned i = 0; i < n; ++i) { sym_assert_eq(z(i), x0[i] + y0[i], "sum"); sym_assert_eq(u(i), x0[i], "operand unchanged"); } } for (unsigned i = 0; i < n; ++i) sym_assert_eq(y(i), y0[i], "second operand unchanged"); sym_reach("sums"); }
HARNESS(sums2) { unsigned r = sym_choice("r", 3), c = 1 + sym_choice("c", 2), op = sym_choice("op", 5); SMat x = symMat("x", r, c, sym_choice("lx", 5)), y = symMat("y", r, c, sym_choice("ly", 5)); M2 x0 = copy(x), y0 = copy(y); if (op == 0) AddInPlace(x, CSMat(y)); else if (op == 1) x += y; else if (op == 2) AddInPlace(x, CSMat(y));
  if (op < 3) { for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_assert_eq(x(i, j), x0[i][j] + y0[i][j], "in-place matrix sum"); }
  else { Mat u("u", r, c), v("v", r, c); Kokkos::deep_copy(u, x); Kokkos::deep_copy(v, y); Mat z = op == 3 ? Mat(u + v) : Mat(Kokkos::View<const double**, HS>(u) + Kokkos::View<const double**, HS>(v)); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { sym_assert_eq(z(i, j), x0[i][j] + y0[i][j], "matrix sum"); sym_assert_eq(u(i, j), x0[i][j], "operand unchanged"); } } same(y, y0, "second operand unchanged"); sym_reach("sums2"); }
template <ReduceDimMap K, unsigned D> static void red(SMat A, double alpha) { unsigned m = A.extent(1 - D), k = A.extent(D); Vec out("out", m); for (unsigned i = 0; i < m; ++i) sym_uninit(&out(i), 8); ReduceDim<K, HS, D> rd(A, alpha); Kokkos::parallel_reduce(k, rd, &out(0)); for (unsigned i = 0; i < m; ++i) { double r = 0; for (unsigned j = 0; j < k; ++j) { double v = D == 1 ? A(i, j) : A(j, i); r += alpha * (K == ReduceDimMap::norm ? v * v : v); } sym_assert_eq(out(i), r, "reduction along the stated dimension"); } }
HARNESS(reduce) { unsigned r = 1 + sym_choice("r", 3), c = 1 + sym_choice("c", 3); SMat A = symMat("A", r, c, sym_choice("layout", 5)); double al = sym_double("alpha"); switch (sym_choice("kind", 4)) { case 0: red<ReduceDimMap::sum, 1>(A, al); break; case 1: red<ReduceDimMap::sum, 0>(A, al); break; case 2: red<ReduceDimMap::norm, 1>(A, al); break; default: red<ReduceDimMap::norm, 0>(A, al); } sym_reach("reduce"); }
