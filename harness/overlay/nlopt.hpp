// Stand-in for nlopt.hpp: an optimiser that may return anything; it records what it was given and evaluates the objective where the harness asks.
#pragma once
#include "harness.h"
#include <limits>
namespace nlopt {
enum result { FAILURE = -1, SUCCESS = 1, STOPVAL_REACHED, FTOL_REACHED, XTOL_REACHED, MAXEVAL_REACHED, MAXTIME_REACHED };
typedef double (*func)(unsigned n, const double* x, double* grad, void* f_data);
struct VkRun { std::string alg; unsigned dim = 0; double stopval = 0, xrel = 0, xabs = 0, frel = 0, fabs = 0, maxtime = 0; int maxeval = 0; std::vector<double> x0, xf; double error = 0; func f = nullptr; void* data = nullptr; bool maximise = false; };
inline std::vector<VkRun>& vk_runs() { static std::vector<VkRun> r; return r; }
inline void (*vk_on_optimize)(VkRun&) = nullptr; inline bool vk_results = false;
class opt { VkRun r; public:
  opt(const char* a, unsigned n) { r.alg = a; r.dim = n; } opt(std::string a, unsigned n) { r.alg = a; r.dim = n; }
  void set_stopval(double v) { r.stopval = v; } void set_xtol_rel(double v) { r.xrel = v; } void set_xtol_abs(double v) { r.xabs = v; } void set_xtol_abs(std::vector<double> const& v) { r.xabs = v.at(0); } void set_ftol_rel(double v) { r.frel = v; } void set_ftol_abs(double v) { r.fabs = v; } void set_maxeval(int v) { r.maxeval = v; } void set_maxtime(double v) { r.maxtime = v; }
  const char* get_algorithm_name() const { return r.alg.c_str(); } unsigned get_dimension() const { return r.dim; } double get_stopval() const { return r.stopval; } int get_maxeval() const { return r.maxeval; } double get_maxtime() const { return r.maxtime; } double get_xtol_rel() const { return r.xrel; } double get_ftol_rel() const { return r.frel; } double get_ftol_abs() const { return r.fabs; } int get_numevals() const { return 0; }
  void set_min_objective(func f, void* d) { r.f = f; r.data = d; } void set_max_objective(func f, void* d) { r.f = f; r.data = d; r.maximise = true; }
  result optimize(std::vector<double>& x, double& v) { sym_assert(x.size() == r.dim, "the initial guess has one entry per coefficient"); sym_assert(r.f && !r.maximise, "an objective to minimise is set"); r.x0 = x; int k = vk_runs().size(); r.xf.clear(); for (unsigned i = 0; i < r.dim; ++i) r.xf.push_back(symd("opt", k, i)); r.error = symd("err", k); if (vk_on_optimize) vk_on_optimize(r); x = r.xf; v = r.error; vk_runs().push_back(r); return vk_results ? (result)(1 + sym_choice("result", 6)) : SUCCESS; }
  std::vector<double> optimize(std::vector<double> const& x) { std::vector<double> y(x); double v; optimize(y, v); return y; } };
}
