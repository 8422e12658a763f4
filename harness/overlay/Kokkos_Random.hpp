// Stand-in for Kokkos_Random.hpp: every normal draw is an arbitrary number determined by the pool's seed and the position of the draw.
#pragma once
#include <Kokkos_Core.hpp>
#include <memory>
#include "harness.h"
struct VkDraws { unsigned long seed[16]; double z[16][32]; unsigned n[16]; unsigned seeds; long used;
  void clear() { seeds = 0; used = 0; for (auto& x : n) x = 0; }
  double at(unsigned long s, unsigned k) { ++used; unsigned i = 0; while (i < seeds && seed[i] != s) ++i; if (i == 16 || k >= 32) throw 1; if (i == seeds) { seed[seeds++] = s; n[i] = 0; } while (n[i] <= k) { z[i][n[i]] = symd("z", (int)i, (int)n[i]); ++n[i]; } return z[i][k]; } };
inline VkDraws vk_draws_;
inline VkDraws& vk_draws() { vk_exempt(&vk_draws_); return vk_draws_; }
namespace Kokkos {
// the real pool hands every thread its own state: the shared counter stands for that and is exempt from race checking
template <class D> struct Random_XorShift64_Pool { struct State { unsigned long seed; unsigned n; }; State* s;
  struct generator_type { State* s; double normal() { vk_exempt(s); return vk_draws().at(s->seed, s->n++); } double normal(double m, double sd) { return m + sd * normal(); } };
  Random_XorShift64_Pool() : Random_XorShift64_Pool(0) {} Random_XorShift64_Pool(unsigned long seed) : s(new State{seed, 0}) { vk_exempt(s); }
  generator_type get_state() const { return generator_type{s}; } void free_state(generator_type const&) const {} };
template <class D> using Random_XorShift1024_Pool = Random_XorShift64_Pool<D>;
}
