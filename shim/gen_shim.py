#!/usr/bin/env python3
"""Generate a Serial-only Kokkos header overlay with instrumentation hooks (iteration tracking, per-thread scratch objects,
configurable team size) from the installed Kokkos 3.7 headers.  usage: gen_shim.py OUTDIR"""
import sys, os, re
out = sys.argv[1]; os.makedirs(out + '/Serial', exist_ok=True)
INC = '/usr/include/'
def rd(p): return open(INC + p).read()
def wr(p, s):
    p = os.path.join(out, p)
    if not (os.path.exists(p) and open(p).read() == s): open(p, 'w').write(s)
def sub(s, a, b, n=1):
    assert s.count(a) >= n, (a, s.count(a)); return s.replace(a, b)
wr('KokkosCore_config.h', '''#if !defined(KOKKOS_MACROS_HPP) || defined(KOKKOS_CORE_CONFIG_H)
#error "Do not include KokkosCore_config.h directly"
#else
#define KOKKOS_CORE_CONFIG_H
#endif
#define KOKKOS_VERSION 30701
#define KOKKOS_ENABLE_SERIAL
#ifndef KOKKOS_ENABLE_CXX17
#define KOKKOS_ENABLE_CXX17
#endif
#define KOKKOS_ENABLE_DEPRECATED_CODE_3
#define KOKKOS_ENABLE_COMPLEX_ALIGN
#define KOKKOS_ENABLE_IMPL_DESUL_ATOMICS
''')
for f in ['FwdBackend', 'DeclareBackend', 'SetupBackend', 'PostInclude']:
    n = 'KokkosCore_Config_%s.hpp' % f
    wr(n, rd(n).replace('OPENMP', 'SERIAL').replace('OpenMP', 'Serial'))
HOOK = '''
#ifndef VK_HOOKS
#define VK_HOOKS
#ifdef VK_THREADS
/* replay of a race: every iteration in a thread of its own, one after the other, without any synchronisation ThreadSanitizer knows of */
#include <thread>
#include <atomic>
#include <vector>
#include <memory>
#include <exception>
inline std::vector<std::thread>& vk_pool() { static std::vector<std::thread> t; return t; }
inline bool& vk_inside() { static thread_local bool b = false; return b; }
template <class F> inline void vk_task(F f) { if (vk_inside()) { f(); return; } std::atomic<int> done{0}; std::exception_ptr e; auto* d = &done; vk_pool().emplace_back([f, d, &e] { vk_inside() = true; try { f(); } catch (...) { e = std::current_exception(); } d->store(1, std::memory_order_relaxed); }); while (!done.load(std::memory_order_relaxed)) std::this_thread::yield(); if (e) std::rethrow_exception(e); }
inline void vk_join() { if (vk_inside()) return; for (auto& t : vk_pool()) if (t.joinable()) t.join(); vk_pool().clear(); }
#define VK_ITER(i, ...) vk_task([&] { __VA_ARGS__; })
#define VK_JOIN vk_join();
#else
#define VK_ITER(i, ...) do { vk_par_iter((long)(i)); __VA_ARGS__; } while (0)
#define VK_JOIN
#endif
extern "C" { void vk_par_begin(); void vk_par_iter(long i); void vk_par_end(); void vk_exempt(const void* p); void* vk_scratch(void* p, unsigned long n); int vk_team_size(); }
#endif
'''
# ---- range policies
s = rd('Serial/Kokkos_Serial_Parallel_Range.hpp')
a, b = s.split('class ParallelReduce<FunctorType, Kokkos::RangePolicy', 1)
a = sub(a, '      m_functor(i);', '      VK_ITER(i, m_functor(i));')
a = sub(a, '      m_functor(t, i);', '      VK_ITER(i, m_functor(t, i));')
a = sub(a, '    this->template exec<typename Policy::work_tag>();', '    vk_par_begin(); this->template exec<typename Policy::work_tag>(); VK_JOIN vk_par_end();')
a = sub(a, 'namespace Kokkos {', HOOK + 'namespace Kokkos {')
r, c = b.split('class ParallelScan<', 1)
r = sub(r, '      m_functor(i, update);', '      VK_ITER(i, m_functor(i, update));')
r = sub(r, '      m_functor(t, i, update);', '      VK_ITER(i, m_functor(t, i, update));')
# reductions accumulate into a private buffer that is handed to the result afterwards
r = sub(r, '    reference_type update = final_reducer.init(ptr);\n\n    this->template exec<WorkTag>(update);',
        '    reference_type update = final_reducer.init(ptr);\n    vk_par_begin(); vk_exempt((const void*)ptr); this->template exec<WorkTag>(update); VK_JOIN vk_par_end();')
r = r.replace('''    internal_instance->resize_thread_team_data(
        pool_reduce_size, team_reduce_size, team_shared_size,
        thread_local_size);''', '''    (void)team_reduce_size; (void)team_shared_size; (void)thread_local_size; void* vk_buf = std::malloc(pool_reduce_size ? pool_reduce_size : 1);''')
r = r.replace('''pointer_type(
                  internal_instance->m_thread_team_data.pool_reduce_local())''', 'pointer_type(vk_buf)')
r = sub(r, '    final_reducer.final(ptr);\n', '    final_reducer.final(ptr);\n    std::free(vk_buf);\n')
c = c.replace('''    internal_instance->resize_thread_team_data(
        pool_reduce_size, team_reduce_size, team_shared_size,
        thread_local_size);''', '''    (void)team_reduce_size; (void)team_shared_size; (void)thread_local_size; void* vk_buf = std::malloc(pool_reduce_size ? pool_reduce_size : 1);''')
c = re.sub(r'pointer_type\(\s*internal_instance->m_thread_team_data.pool_reduce_local\(\)\)', 'pointer_type(vk_buf)', c)
c = c.replace('    this->template exec<WorkTag>(update);\n', '    this->template exec<WorkTag>(update); std::free(vk_buf);\n')
lock = '''    std::lock_guard<std::mutex> lock(
        internal_instance->m_thread_team_data_mutex);
'''
body = a + 'class ParallelReduce<FunctorType, Kokkos::RangePolicy' + r + 'class ParallelScan<' + c
body = body.replace(lock, '    (void)internal_instance;\n').replace('#include <Kokkos_Parallel.hpp>', '#include <Kokkos_Parallel.hpp>\n#include <cstdlib>')
wr('Serial/Kokkos_Serial_Parallel_Range.hpp', body)
# ---- multi-dimensional ranges
s = rd('Serial/Kokkos_Serial_Parallel_MDRange.hpp')
s = sub(s, 'namespace Kokkos {\nnamespace Impl {', HOOK + '''namespace Kokkos {
namespace Impl {
template <class F> struct VkIterWrap { const F& f; long* n;
  template <class... A> void operator()(A&&... a) const { VK_ITER((*n)++, f(a...)); } };
''')
a, b = s.split('class ParallelReduce<FunctorType, Kokkos::MDRangePolicy', 1)
a = sub(a, 'MDRangePolicy, FunctorType, typename', 'MDRangePolicy, VkIterWrap<FunctorType>, typename')
a = sub(a, '      iterate_type(m_mdr_policy, m_functor)(i);', '      iterate_type(m_mdr_policy, vkw)(i);')
a = sub(a, '  void exec() const {', '  void exec() const { long vkn = 0; VkIterWrap<FunctorType> vkw{m_functor, &vkn}; (void)vkw;')
a = sub(a, 'this->exec();', 'vk_par_begin(); this->exec(); VK_JOIN vk_par_end();')
wr('Serial/Kokkos_Serial_Parallel_MDRange.hpp', a + 'class ParallelReduce<FunctorType, Kokkos::MDRangePolicy' + b)
# ---- teams
s = rd('Serial/Kokkos_Serial_Parallel_Team.hpp')
s = sub(s, 'namespace Kokkos {\nnamespace Impl {', HOOK + '''namespace Kokkos {
namespace Impl {
struct VkTag {};
template <> class HostThreadTeamMember<VkTag> { public:
  static void setup(HostThreadTeamData& d, char* mem, size_t bytes, int rank, int size) {
    d.m_scratch = d.m_pool_scratch = d.m_team_scratch = (int64_t*)mem; d.m_team_reduce = 0; d.m_team_shared = 0;
    d.m_thread_local = bytes / 8; d.m_scratch_size = bytes / 8; d.m_team_rank = rank; d.m_team_size = size; } };
''')
s = sub(s, '  int m_chunk_size;\n', '  int m_chunk_size;\n  int m_vk_team = 1;\n')
s = sub(s, '    m_chunk_size             = p.m_chunk_size;', '    m_chunk_size             = p.m_chunk_size; m_vk_team = p.m_vk_team;')
i = s.index('team_size_recommended'); j = s.index('inline int team_size() const { return 1; }')
s = s[:i] + s[i:j].replace('return 1;', 'return vk_team_size();') + s[j:]
s = sub(s, 'inline int team_size() const { return 1; }', 'inline int team_size() const { return m_vk_team; }')
s = sub(s, 'm_team_scratch_size[level] + m_thread_scratch_size[level];', 'm_team_scratch_size[level] + (size_t)m_vk_team * m_thread_scratch_size[level];')
s = sub(s, '''    if (team_size_request > 1)
      Kokkos::abort("Kokkos::abort: Requested Team Size is too large!");''', '    if (team_size_request == 0) Kokkos::abort("Kokkos::abort: Requested Team Size is zero"); m_vk_team = team_size_request > 0 ? team_size_request : 1;')
k = s.index('class ParallelFor<FunctorType, Kokkos::TeamPolicy'); k2 = s.index('class ParallelReduce<FunctorType, ReducerType, Kokkos::TeamPolicy') if 'class ParallelReduce<FunctorType, ReducerType, Kokkos::TeamPolicy' in s else s.index('class ParallelReduce<', k)
t = s[k:k2]
t = sub(t, '      m_functor(Member(data, ileague, m_league));', '''      const int vts = m_policy.team_size();
      for (int r = 0; r < vts; ++r) { HostThreadTeamData d; char* mem = (char*)std::malloc(m_shared + 16); HostThreadTeamMember<VkTag>::setup(d, mem, m_shared + 7, r, vts);
        VK_ITER((long)ileague * vts + r, m_functor(Member(d, ileague, m_league))); std::free(mem); }''')
e0 = t.index('        const size_t') if False else t.index('    const size_t pool_reduce_size'); e1 = t.index('  ParallelFor(const FunctorType& arg_functor')
t = t[:e0] + '    HostThreadTeamData dummy; vk_par_begin(); this->template exec<typename Policy::work_tag>(dummy); VK_JOIN vk_par_end();\n  }\n\n' + t[e1:]
s = s[:k] + t + s[k2:]
wr('Serial/Kokkos_Serial_Parallel_Team.hpp', s.replace('#include <Kokkos_Parallel.hpp>', '#include <Kokkos_Parallel.hpp>\n#include <cstdlib>'))
# ---- scratch: every chunk becomes an object of its own
s = rd('Kokkos_ScratchSpace.hpp')
s = sub(s, 'namespace Kokkos {', HOOK + 'namespace Kokkos {')
s = sub(s, '    return tmp;\n', '    return tmp ? vk_scratch(tmp, (unsigned long)size) : tmp;\n')
wr('Kokkos_ScratchSpace.hpp', s)
