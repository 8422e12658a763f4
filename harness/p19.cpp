// P19: conversions between pointers, vectors, Eigen arrays and views
#include "views.h"
#include "MParT/Utilities/EigenTypes.h"
#include <functional>
typedef std::function<unsigned(unsigned, unsigned)> Flat;
static std::vector<double> fill(unsigned n) { std::vector<double> b(n); for (unsigned i = 0; i < n; ++i) b[i] = symd("b", i); return b; }
static unsigned dim(const char* n) { return sym_choice(n, TIER ? 5 : 4); }
// read every element through `v`, compare with the array; f gives the position in the array
template <class V> static void reads(V const& v, const double* base, unsigned r, unsigned c, Flat f, const char* what) { for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_assert_eq(v(i, j), base[f(i, j)], what); }
// write every element through `v`: exactly the wrapped elements change
template <class V> static void writes(V& v, double* base, unsigned n, unsigned r, unsigned c, Flat f, const char* what) { std::vector<double> e(base, base + n); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { double w = symd("w", i, j); v(i, j) = w; e[f(i, j)] = w; } for (unsigned k = 0; k < n; ++k) sym_assert_eq(base[k], e[k], what); }
template <class V> struct One { V& v; double& operator()(unsigned i, unsigned) const { return v(i); } };
template <class V> struct OneC { V const& v; double operator()(unsigned i, unsigned) const { return v(i); } };
template <class V> static void ext(V const& v, unsigned r, unsigned c) { sym_assert(v.extent(0) == r && v.extent(1) == c, "extents"); }
template <class V> static void ext1(V const& v, unsigned r) { sym_assert(v.extent(0) == r, "length"); }
template <class V> static void both(V v, double* base, unsigned n, unsigned r, unsigned c, Flat f) { ext(v, r, c); reads(v, base, r, c, f, "view reads the wrapped element"); writes(v, base, n, r, c, f, "view writes the wrapped element only"); }
template <class V> static void both1(V v, double* base, unsigned n, unsigned r, Flat f) { ext1(v, r); reads(OneC<V>{v}, base, r, 1, f, "vector view reads the wrapped element"); One<V> o{v}; writes(o, base, n, r, 1, f, "vector view writes the wrapped element only"); }
template <class V> static void cboth(V v, double* base, unsigned n, unsigned r, unsigned c, Flat f) { ext(v, r, c); reads(v, base, r, c, f, "constant view reads the wrapped element"); for (unsigned k = 0; k < n; ++k) base[k] = symd("z", k); reads(v, base, r, c, f, "constant view follows the wrapped array"); }
template <class V> static void cboth1(V v, double* base, unsigned n, unsigned r, Flat f) { ext1(v, r); reads(OneC<V>{v}, base, r, 1, f, "constant vector view reads the wrapped element"); for (unsigned k = 0; k < n; ++k) base[k] = symd("z", k); reads(OneC<V>{v}, base, r, 1, f, "constant vector view follows the wrapped array"); }
HARNESS(pointers) { unsigned r = dim("r"), c = dim("c"), o = 1; unsigned n = r * c + 2; auto b = fill(n); double* p = b.data() + o;
  switch (sym_choice("kind", 6)) {
    case 0: both1(ToKokkos<double>(p, r * c), b.data(), n, r * c, [=](unsigned i, unsigned) { return o + i; }); break;
    case 1: cboth1(ToConstKokkos<double>(p, r * c), b.data(), n, r * c, [=](unsigned i, unsigned) { return o + i; }); break;
    case 2: both(ToKokkos<double>(p, r, c), b.data(), n, r, c, [=](unsigned i, unsigned j) { return o + i + r * j; }); break;
    case 3: both(ToKokkos<double, Kokkos::LayoutRight>(p, r, c), b.data(), n, r, c, [=](unsigned i, unsigned j) { return o + i * c + j; }); break;
    case 4: cboth(ToConstKokkos<double>(p, r, c), b.data(), n, r, c, [=](unsigned i, unsigned j) { return o + i + r * j; }); break;
    default: cboth(ToConstKokkos<double, Kokkos::LayoutRight>(p, r, c), b.data(), n, r, c, [=](unsigned i, unsigned j) { return o + i * c + j; }); } sym_reach("pointers"); }
HARNESS(strides) { unsigned r = dim("r"), c = dim("c"), rs, cs; bool rowMajor = sym_choice("major", 2); unsigned s = 1 + sym_choice("inner", 3), pad = sym_choice("pad", 2);
  if (rowMajor) { cs = s; rs = s * c + pad; } else { rs = s; cs = s * r + pad; } unsigned n = r * rs + c * cs + 2; auto b = fill(n);
  switch (sym_choice("kind", 3)) {
    case 0: both(ToKokkos<double>(std::make_tuple((long)(b.data() + 1), std::make_tuple((int)r, (int)c), std::make_tuple((int)rs, (int)cs))), b.data(), n, r, c, [=](unsigned i, unsigned j) { return 1 + rs * i + cs * j; }); break;
    case 1: both1(ToKokkos<double>(std::make_tuple((long)(b.data() + 1), (int)r, (int)rs)), b.data(), n, r, [=](unsigned i, unsigned) { return 1 + rs * i; }); break;
    default: { auto v = ToKokkos<const double>(std::make_tuple((long)(b.data() + 1), std::make_tuple((int)r, (int)c), std::make_tuple((int)rs, (int)cs))); cboth(v, b.data(), n, r, c, [=](unsigned i, unsigned j) { return 1 + rs * i + cs * j; }); } } sym_reach("strides"); }
HARNESS(vectors) { unsigned r = dim("r"), c = 1 + sym_choice("c", 3); auto b = fill(r * c); unsigned n = r * c; Flat one = [](unsigned i, unsigned) { return i; }, row = [=](unsigned i, unsigned j) { return i * c + j; };
  switch (sym_choice("kind", 6)) {
    case 0: both1(VecToKokkos<double, HS>(b), b.data(), n, n, one); break;
    case 1: both1(ConstVecToKokkos<double, HS>(b), b.data(), n, n, one); break;
    case 2: both(MatToKokkos<double, HS>(b, (int)c), b.data(), n, r, c, row); break;
    case 3: cboth1(VecToConstKokkos<double, HS>(b), b.data(), n, n, one); break;
    case 4: cboth(MatToConstKokkos<double, HS>(b, (int)c), b.data(), n, r, c, row); break;
    default: { std::vector<int> bi(n); for (unsigned k = 0; k < n; ++k) bi[k] = sym_int("i", -5, 5); auto v = VecToKokkos<int, HS>(bi); auto p = ToKokkos<int>(bi.data(), n); auto s = KokkosToStd(v); for (unsigned k = 0; k < n; ++k) { sym_assert(v(k) == bi[k] && p(k) == bi[k] && s[k] == bi[k], "integer elements"); } } } sym_reach("vectors"); }
// Eigen to views: whole matrices, blocks, transposes, every second row/column
HARNESS(eigen) { unsigned R = 1 + sym_choice("R", TIER ? 4 : 3), C = 1 + sym_choice("C", TIER ? 4 : 3); unsigned part = sym_choice("part", 3); unsigned r0 = 0, c0 = 0, r = R, c = C; if (part == 1) { r0 = sym_choice("r0", R); c0 = sym_choice("c0", C); r = sym_choice("r", R - r0 + 1); c = sym_choice("c", C - c0 + 1); } bool tr = part == 2; unsigned n = R * C; if (tr) { r = C; c = R; }
  bool row = sym_choice("major", 2); Flat at = [=](unsigned i, unsigned j) { unsigned I = tr ? j : i + r0, J = tr ? i : j + c0; return row ? I * C + J : I + R * J; };
  Eigen::MatrixXd M; Eigen::RowMatrixXd W; double* d; if (row) { W.resize(R, C); d = W.data(); } else { M.resize(R, C); d = M.data(); } for (unsigned k = 0; k < n; ++k) d[k] = symd("b", k);
  if (sym_choice("const", 2) == 0) { if (row) { if (tr) both(MatToKokkos<double, HS>(W.transpose()), d, n, r, c, at); else if (part == 1) both(MatToKokkos<double, HS>(W.block(r0, c0, r, c)), d, n, r, c, at); else both(MatToKokkos<double, HS>(W), d, n, r, c, at); }
    else { if (tr) both(MatToKokkos<double, HS>(M.transpose()), d, n, r, c, at); else if (part == 1) both(MatToKokkos<double, HS>(M.block(r0, c0, r, c)), d, n, r, c, at); else both(MatToKokkos<double, HS>(M), d, n, r, c, at); } }
  else { if (row) { if (tr) cboth(ConstColMatToKokkos<double, HS>(W.transpose()), d, n, r, c, at); else if (part == 1) cboth(ConstRowMatToKokkos<double, HS>(W.block(r0, c0, r, c)), d, n, r, c, at); else cboth(ConstRowMatToKokkos<double, HS>(W), d, n, r, c, at); }
    else { if (tr) cboth(ConstRowMatToKokkos<double, HS>(M.transpose()), d, n, r, c, at); else if (part == 1) cboth(ConstColMatToKokkos<double, HS>(M.block(r0, c0, r, c)), d, n, r, c, at); else cboth(ConstColMatToKokkos<double, HS>(M), d, n, r, c, at); } } sym_reach("eigen"); }
HARNESS(eigenvec) { unsigned R = 1 + sym_choice("R", 4), C = 1 + sym_choice("C", 3), n = R * C; Eigen::MatrixXd M(R, C); for (unsigned k = 0; k < n; ++k) M.data()[k] = symd("b", k); unsigned i0 = sym_choice("i0", R), j0 = sym_choice("j0", C);
  switch (sym_choice("kind", 3)) { case 0: both1(VecToKokkos<double, HS>(M.col(j0)), M.data(), n, R, [=](unsigned i, unsigned) { return i + R * j0; }); break;
    case 1: both1(VecToKokkos<double, HS>(M.row(i0).transpose()), M.data(), n, C, [=](unsigned j, unsigned) { return i0 + R * j; }); break;
    default: { unsigned len = sym_choice("len", R - i0 + 1); both1(VecToKokkos<double, HS>(M.col(j0).segment(i0, len)), M.data(), n, len, [=](unsigned i, unsigned) { return i + i0 + R * j0; }); } } sym_reach("eigenvec"); }
// views to Eigen and std::vector
template <class M> struct MM { M& m; double& operator()(unsigned i, unsigned j) const { return m(i, j); } };
template <class E, class V> static void fromView(E e, V v, unsigned r, unsigned c) { sym_assert((unsigned)e.rows() == r && (unsigned)e.cols() == c, "shape"); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { sym_assert_eq(e(i, j), v(i, j), "map reads the view's element"); v(i, j) = symd("w", i, j); sym_assert_eq(e(i, j), v(i, j), "map refers to the view's element"); } }
template <class E, class V> static void copyOf(E e, V v, unsigned r, unsigned c) { sym_assert((unsigned)e.rows() == r && (unsigned)e.cols() == c, "shape"); std::vector<double> old; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { sym_assert_eq(e(i, j), v(i, j), "copy of the view's element"); old.push_back(v(i, j)); v(i, j) = symd("w", i, j); } for (unsigned i = 0, k = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_assert_eq(e(i, j), old[k++], "copies are independent of their source"); }
HARNESS(tomat) { unsigned r = dim("r"), c = dim("c"), pad = sym_choice("pad", 2), kind = sym_choice("kind", 8); if ((kind == 6 || kind == 7) && !pad) sym_stop();
  Mat b("b", r + pad, c + 2 * pad); MatL bl("bl", r + 2 * pad, c + pad); for (unsigned i = 0; i < b.extent(0); ++i) for (unsigned j = 0; j < b.extent(1); ++j) b(i, j) = symd("b", i, j); for (unsigned i = 0; i < bl.extent(0); ++i) for (unsigned j = 0; j < bl.extent(1); ++j) bl(i, j) = symd("c", i, j);
  Mat v = Kokkos::subview(b, std::make_pair(pad, r + pad), std::make_pair(pad, c + pad)); MatL w = Kokkos::subview(bl, std::make_pair(pad, r + pad), std::make_pair(pad, c + pad));
  switch (kind) { case 0: fromView(KokkosToMat(v), v, r, c); break; case 1: fromView(KokkosToMat(w), w, r, c); break;
    case 2: fromView(ConstKokkosToMat<double>(Kokkos::View<const double**, HS>(v)), v, r, c); break; case 3: fromView(ConstKokkosToMat<double>(Kokkos::View<const double**, Kokkos::LayoutLeft, HS>(w)), w, r, c); break;
    case 4: copyOf(CopyKokkosToMat(v), v, r, c); break; case 5: copyOf(CopyKokkosToMat(w), w, r, c); break;
    default: { SMat s = kind == 6 ? layoutMat("s", r, c, 2 + sym_choice("lay", 3)) : SMat(w); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) s(i, j) = symd("s", i, j); switch (sym_choice("conv", 3)) { case 0: fromView(KokkosToMat<double>(s), s, r, c); break; case 1: fromView(ConstKokkosToMat<double>(CSMat(s)), s, r, c); break; default: copyOf(CopyKokkosToMat(s), s, r, c); } } } sym_reach("tomat"); }
HARNESS(tovec) { unsigned n = dim("n"), st = 1 + sym_choice("stride", 3); Vec b("b", n * st + 1); for (unsigned i = 0; i < b.extent(0); ++i) b(i) = symd("b", i); unsigned kind = sym_choice("kind", 5); if (st > 1 && kind < 2) sym_stop(); SVec s(b.data(), Kokkos::LayoutStride(n, st)); Vec v = Kokkos::subview(b, std::make_pair(0u, n)); std::vector<double> out; 
  switch (kind) { case 0: { auto m = KokkosToVec(v); sym_assert((unsigned)m.size() == n, "length"); for (unsigned i = 0; i < n; ++i) sym_assert(&m(i) == &v(i), "vector map refers to the view's element"); sym_reach("tovec"); return; }
    case 1: { auto m = CopyKokkosToVec(v); out.assign(m.data(), m.data() + m.size()); break; } case 2: { auto m = KokkosToVec(s); sym_assert((unsigned)m.size() == n, "length"); for (unsigned i = 0; i < n; ++i) sym_assert(&m(i) == &s(i), "strided vector map refers to the view's element"); sym_reach("tovec"); return; }
    case 3: { auto m = CopyKokkosToVec(s); out.assign(m.data(), m.data() + m.size()); break; } default: out = KokkosToStd(s); }
  sym_assert(out.size() == n, "length"); for (unsigned i = 0; i < n; ++i) { double o = b(i * st); sym_assert_eq(out[i], o, "copied element"); b(i * st) = symd("w", i); sym_assert_eq(out[i], o, "copies are independent of their source"); } sym_reach("tovec"); }
// host copies and slices
HARNESS(tohost) { unsigned r = 1 + sym_choice("r", 3), c = 1 + sym_choice("c", 3); Mat b("b", r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) b(i, j) = symd("b", i, j); unsigned a0 = sym_choice("a0", r), a1 = a0 + sym_choice("a1", r - a0 + 1), c0 = sym_choice("c0", c), c1 = c0 + sym_choice("c1", c - c0 + 1);
  switch (sym_choice("kind", 3)) { case 0: { auto h = ToHost(b); ext(h, r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_assert_eq(h(i, j), b(i, j), "host copy"); break; }
    case 1: { auto h = ToHost(b, std::make_pair(a0, a1), std::make_pair(c0, c1)); ext(h, a1 - a0, c1 - c0); for (unsigned i = 0; i < a1 - a0; ++i) for (unsigned j = 0; j < c1 - c0; ++j) sym_assert_eq(h(i, j), b(a0 + i, c0 + j), "host copy of a slice"); break; }
    default: { SMat s = layoutMat("s", r, c, sym_choice("lay", 5)), t = layoutMat("t", r, c, sym_choice("lay2", 5)); Kokkos::deep_copy(s, b); Kokkos::deep_copy(t, s); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_assert_eq(t(i, j), b(i, j), "layout change preserves values"); } } sym_reach("tohost"); }
