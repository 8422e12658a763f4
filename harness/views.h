// Matrices in every layout offered by the library: contiguous left/right, and strided windows into larger arrays.
#pragma once
#include "harness.h"
#include "MParT/Utilities/ArrayConversions.h"
#include "MParT/Utilities/LinearAlgebra.h"
using namespace mpart;
typedef Kokkos::HostSpace HS;
typedef Kokkos::View<double*, HS> Vec;
typedef Kokkos::View<double**, HS> Mat;
typedef Kokkos::View<double**, Kokkos::LayoutLeft, HS> MatL;
typedef StridedMatrix<double, HS> SMat; typedef StridedMatrix<const double, HS> CSMat;
typedef StridedVector<double, HS> SVec; typedef StridedVector<const double, HS> CSVec;
static std::vector<Mat> keepR;
// 0 row major, 1 column major, 2 every second row and column of a larger array, 3 leading block of a larger row-major array, 4 block of a larger column-major array
static SMat layoutMat(const char* n, unsigned r, unsigned c, int lay) { std::string s(n);
  if (lay == 0) return Mat(s, r, c); if (lay == 1) return MatL(s, r, c);
  if (lay == 2) { Mat b(s, 2 * r + 1, 2 * c + 1); sym_uninit(b.data(), 8ul * b.size()); keepR.push_back(b); return SMat(b.data(), Kokkos::LayoutStride(r, 2 * (2 * c + 1), c, 2)); }
  if (lay == 3) { Mat b(s, r + 1, c + 2); sym_uninit(b.data(), 8ul * b.size()); return Kokkos::subview(b, std::make_pair(0u, r), std::make_pair(1u, c + 1)); }
  MatL b(s, r + 2, c + 1); sym_uninit(b.data(), 8ul * b.size()); return Kokkos::subview(b, std::make_pair(1u, r + 1), std::make_pair(0u, c)); }
static SMat symMat(const char* n, unsigned r, unsigned c, int lay = 0) { SMat m = layoutMat(n, r, c, lay); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = symd(n, i, j); return m; }
static SMat uninitMat(const char* n, unsigned r, unsigned c, int lay = 0) { SMat m = layoutMat(n, r, c, lay); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) sym_uninit(&m(i, j), 8); return m; }
static Vec symVec(const char* n, unsigned r) { Vec v{std::string(n), r}; for (unsigned i = 0; i < r; ++i) v(i) = symd(n, i); return v; }
static double det(std::vector<std::vector<double>> a) { unsigned n = a.size(); if (n == 0) return 1; if (n == 1) return a[0][0]; double s = 0; for (unsigned k = 0; k < n; ++k) { std::vector<std::vector<double>> m; for (unsigned i = 1; i < n; ++i) { std::vector<double> r; for (unsigned j = 0; j < n; ++j) if (j != k) r.push_back(a[i][j]); m.push_back(r); } s += (k % 2 ? -1.0 : 1.0) * a[0][k] * det(m); } return s; }
