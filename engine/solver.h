#pragma once
#include "poly.h"
struct Stats { volatile long paths, forks, insts, queries, unsat, sat, unknown, solver_us, asserts, held, viol, inconc, incomplete, reach, trivial, active, stop, samples; };
extern Stats* G;                       // shared between the processes of one run
enum Res { HOLDS, VIOLATED, UNDECIDED };
struct Verdict { Res r; Assign w; std::string note; };
struct VarDom { bool has = false; double lo, hi; };
extern std::map<int, VarDom> g_dom;    // declared real domains
Verdict prove(E cond, E a, E b, const std::vector<E>& pc);   // cond, or a==b up to rounding of concrete constants when cond==nullptr
int feasible(E c, const std::vector<E>& pc);                 // 0 infeasible, 1 feasible (or unknown)
bool model(const std::vector<E>& pc, Assign& out);           // concrete witness of a path, validated
uint64_t pickValue(E bv, const std::vector<E>& pc, bool& ok);
extern long g_rl_branch, g_rl_assert; extern int g_heavy_s;
