// Interface between harnesses and the symbolic executor (builtins there) / the native replay (native.cpp).
#pragma once
extern "C" {
double sym_double(const char* name);
double sym_double_in(const char* name, double lo, double hi);
int sym_int(const char* name, int lo, int hi);
unsigned sym_uint(const char* name, unsigned lo, unsigned hi);
int sym_bool(const char* name);
int sym_choice(const char* name, int n);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_assert_eq(double a, double b, const char* msg);
void sym_assert_close(double a, double b, double tol, const char* msg);
double sym_uf(int fid, int n, const double* args, const int* ders);
double sym_diff(double f, const char* var);
void sym_reach(const char* label);
void sym_print(const char* msg, double v);
void sym_printi(const char* msg, long v);
int sym_is_symbolic();
unsigned long sym_concretize(unsigned long v);
void sym_uninit(void* p, unsigned long n);
void sym_stop();
}
#ifdef VK_NATIVE
struct VkReg { VkReg(const char* n, void (*f)()); };
#define HARNESS(name) extern "C" void h_##name(); static VkReg vkreg_##name("h_" #name, h_##name); extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" __attribute__((used)) void h_##name()
#endif
#ifndef TIER
#define TIER 0
#endif
#include <cstdio>
#include <string>
#include <vector>
#include <memory>
#include <cmath>
#include <stdexcept>
// name with indices: nm("x", i, j) -> "x_i_j"
static inline std::string nm(const char* b, int i) { return std::string(b) + "_" + std::to_string(i); }
static inline std::string nm(const char* b, int i, int j) { return nm(b, i) + "_" + std::to_string(j); }
static inline std::string nm(const char* b, int i, int j, int k) { return nm(b, i, j) + "_" + std::to_string(k); }
static inline double symd(const char* b, int i) { return sym_double(nm(b, i).c_str()); }
static inline double symd(const char* b, int i, int j) { return sym_double(nm(b, i, j).c_str()); }
// an opaque (positive) function of one variable and its derivatives
static inline double uf1(int fid, double x, int der = 0) { return sym_uf(fid, 1, &x, &der); }
// an exception is expected from f
template <class F> static inline bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
