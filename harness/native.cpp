// Native replay of a counterexample: the same harness, compiled with the real compiler, run on the values the solver found.
//   native ENTRY VALUES   exit 0: nothing failed, 77: assertion reproduced, 78: assumption not met / not applicable, other: crash (sanitizer, abort, exception)
#include "harness.h"
#include "../engine/userfn.inc"
#include <cstdlib>
#include <cstring>
#include <map>
#include <unistd.h>
#include <sys/wait.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <exception>
static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
VkReg::VkReg(const char* n, void (*f)()) { reg()[n] = f; }
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt;
static std::string key(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static std::string perturbKey; static double perturb = 0; static int diffTarget = -1, diffCount = 0; static int outFd = -1; static bool usedDiff = false, unreliable = false; static bool quiet = false;
static void (*entry)();
extern "C" {
static double getd(const std::string& k, double dflt) { auto it = vals.find(k); double v = it == vals.end() ? dflt : strtod(it->second.c_str(), 0); if (k == perturbKey) v += perturb; return v; }
double sym_double(const char* n) { return getd(key(n), 0.37); }
double sym_double_in(const char* n, double lo, double hi) { return getd(key(n), lo + 0.37 * (hi - lo)); }
static long geti(const std::string& k, long d) { auto it = vals.find(k); return it == vals.end() ? d : strtol(it->second.c_str(), 0, 0); }
int sym_int(const char* n, int lo, int hi) { (void)hi; return (int)geti(key(n), lo); }
unsigned sym_uint(const char* n, unsigned lo, unsigned hi) { (void)hi; return (unsigned)geti(key(n), lo); }
int sym_bool(const char* n) { return geti(key(n), 0) != 0; }
int sym_choice(const char* n, int m) { (void)m; return (int)geti(key(n), 0); }
void sym_assume(int c) { if (!c) { if (!quiet) printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _exit(78); } }
#ifdef VK_THREADS
extern "C" void AnnotateBenignRaceSized(const char*, int, const volatile void*, unsigned long, const char*);
#endif
static void failed(const char* m, double a, double b) {
#ifdef VK_THREADS
  return;
#endif
 if (quiet) return; printf("REPRODUCED: %s (%.17g vs %.17g)\n", m, a, b); fflush(stdout); _exit(77); }
void sym_assert(int c, const char* m) { if (!c) failed(m, 0, 1); }
void sym_assert_eq(double a, double b, const char* m) { double t = usedDiff ? 2e-6 : 1e-9; if (!(std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)))) { if (std::isinf(a) && a == b) return; if (unreliable && (std::isnan(a) || std::isnan(b))) return; failed(m, a, b); } }
void sym_assert_close(double a, double b, double tol, const char* m) { if (!(std::fabs(a - b) <= tol * (1 + 1e-9) + 1e-12)) failed(m, a, b); }
double sym_uf(int fid, int n, const double* a, const int* d) { int z[16] = {0}; return uf_value(fid, n, a, d ? d : z); }
static double runAt(const char* var, double h, int target) {
  int p[2]; if (pipe(p)) _exit(79); fflush(stdout); pid_t c = fork();
  if (c == 0) { close(p[0]); outFd = p[1]; perturbKey = var; perturb = h; diffTarget = target; diffCount = 0; cnt.clear(); quiet = true; try { entry(); } catch (...) {} _exit(0); }
  close(p[1]); double v = NAN; if (read(p[0], &v, 8) != 8) v = NAN; close(p[0]); int st; waitpid(c, &st, 0); return v; }
double sym_diff(double f, const char* var) {
#ifdef VK_THREADS
  return 0;
#endif

  int me = diffCount++;
  if (diffTarget >= 0) { if (me == diffTarget) { if (write(outFd, &f, 8) != 8) _exit(1); _exit(0); } return 0; }
  usedDiff = true; double x = 0; auto it = vals.find(var); if (it != vals.end()) x = strtod(it->second.c_str(), 0);
  double h = 1e-3 * std::max(1.0, std::fabs(x)) * 0.5; double f1 = runAt(var, h, me), f2 = runAt(var, -h, me), f3 = runAt(var, 2 * h, me), f4 = runAt(var, -2 * h, me), f5 = runAt(var, 3 * h, me), f6 = runAt(var, -3 * h, me);
  double r = (45 * (f1 - f2) - 9 * (f3 - f4) + (f5 - f6)) / (60 * h), q = (8 * (f1 - f2) - (f3 - f4)) / (12 * h);
  if (!(std::fabs(r - q) <= 1e-6 * (1 + std::fabs(r)))) { unreliable = true; return NAN; }
  return r; }
void sym_reach(const char*) {}
void sym_print(const char* m, double v) { if (!quiet) printf("%s = %.17g\n", m, v); }
void sym_printi(const char* m, long v) { if (!quiet) printf("%s = %ld\n", m, v); }
int sym_is_symbolic() { return 0; }
unsigned long sym_concretize(unsigned long v) { return v; }
void sym_uninit(void* p, unsigned long n) { memset(p, 0xff, n); }
void sym_stop() { _exit(0); }
// Kokkos overlay hooks
void vk_par_begin() {} void vk_par_iter(long) {} void vk_par_end() {} 
#ifdef VK_THREADS
void vk_exempt(const void* p) { AnnotateBenignRaceSized(__FILE__, __LINE__, p, 64, "reduction"); }
#else
void vk_exempt(const void*) {}
#endif

void* vk_scratch(void*, unsigned long n) { void* p = malloc(n ? n : 1); if (!getenv("VK_NOFILL")) memset(p, 0xff, n); return p; }
void* vk_alloc(unsigned long s, unsigned long) { void* p = malloc(s ? s : 1); if (!getenv("VK_NOFILL")) memset(p, 0xff, s); return p; }
void vk_free(void* p) { free(p); }
__attribute__((weak)) int vk_team_size() { return 1; }
}
int main(int argc, char** argv) {
  if (argc < 3) { for (auto& r : reg()) puts(r.first.c_str()); return 2; }
  std::ifstream f(argv[2]); std::string line; while (std::getline(f, line)) { std::istringstream ss(line); std::string k, v; if (ss >> k >> v) vals[k] = v; }
  if (!reg().count(argv[1])) { printf("no such entry\n"); return 2; }
  entry = reg()[argv[1]];
  try { entry(); } catch (std::exception& e) { printf("REPRODUCED: exception %s\n", e.what()); fflush(stdout); _exit(76); }
  printf("NOT-REPRODUCED\n"); fflush(stdout); _exit(0);
}
