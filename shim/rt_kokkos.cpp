// The few out-of-line pieces of libkokkoscore that the (header-only) code under test needs, for the Serial-only overlay.
// Compiled into the symbolic run and into the native replay.
#include <Kokkos_Core.hpp>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
extern "C" { long vk_live = 0; /* bytes held by views */ void* vk_alloc(unsigned long size, unsigned long hdr); void vk_free(void*); }
namespace Kokkos {
namespace Impl {
void host_abort(const char* const) { ::abort(); }
void hostspace_fence(const Kokkos::Serial&) {}
void throw_runtime_exception(const std::string& msg) { throw std::runtime_error(msg); }
void hostspace_parallel_deepcopy(void* dst, const void* src, ptrdiff_t n) { memcpy(dst, src, n); }
void hostspace_parallel_deepcopy_async(void* dst, const void* src, ptrdiff_t n) { memcpy(dst, src, n); }
void safe_throw_allocation_with_header_failure(std::string const&, std::string const& label, Kokkos::Experimental::RawMemoryAllocationFailure const&) { throw std::runtime_error("Kokkos failed to allocate memory for label " + label); }
thread_local int SharedAllocationRecord<void, void>::t_tracking_enabled = 1;
SharedAllocationRecord<void, void>::SharedAllocationRecord(SharedAllocationHeader* p, size_t n, function_type d, const std::string& l) : m_alloc_ptr(p), m_alloc_size(n), m_dealloc(d), m_count(0), m_label(l) {}
void SharedAllocationRecord<void, void>::increment(SharedAllocationRecord<void, void>* r) { __atomic_fetch_add(&r->m_count, 1, __ATOMIC_SEQ_CST); }
SharedAllocationRecord<void, void>* SharedAllocationRecord<void, void>::decrement(SharedAllocationRecord<void, void>* r) {
  int old = __atomic_fetch_sub(&r->m_count, 1, __ATOMIC_SEQ_CST);
  if (old == 1) { function_type d = r->m_dealloc; (*d)(r); r = nullptr; } else if (old < 1) ::abort();
  return r; }
template <> void SharedAllocationRecordCommon<Kokkos::HostSpace>::_fill_host_accessible_header_info(SharedAllocationHeader&, std::string const&) {}
template <> std::string SharedAllocationRecordCommon<Kokkos::HostSpace>::get_label() const { return record_base_t::m_label; }
SharedAllocationRecord<Kokkos::HostSpace, void>::~SharedAllocationRecord() { vk_live -= long(SharedAllocationRecord<void, void>::m_alloc_size) - long(sizeof(SharedAllocationHeader)); vk_free(SharedAllocationRecord<void, void>::m_alloc_ptr); }
SharedAllocationRecord<Kokkos::HostSpace, void>::SharedAllocationRecord(const Kokkos::HostSpace& s, const std::string& l, const size_t n, const RecordBase::function_type d)
  : base_t((SharedAllocationHeader*)vk_alloc(n + sizeof(SharedAllocationHeader), sizeof(SharedAllocationHeader)), n + sizeof(SharedAllocationHeader), d, l), m_space(s) { vk_live += long(n); }
void SerialInternal::resize_thread_team_data(size_t, size_t, size_t, size_t) {}
}  // namespace Impl
int HostSpaceVkDummy = 0;
HostSpace::HostSpace() {}
void* HostSpace::allocate(const size_t n) const { return vk_alloc(n, 0); }
void* HostSpace::allocate(const char*, const size_t n, const size_t) const { return vk_alloc(n, 0); }
void HostSpace::deallocate(void* const p, const size_t) const { vk_free(p); }
void HostSpace::deallocate(const char*, void* const p, const size_t, const size_t) const { vk_free(p); }
Serial::Serial() : m_space_instance(nullptr, [](Impl::SerialInternal*) {}) {}
bool Serial::impl_is_initialized() { return true; }
bool is_initialized() noexcept { return true; }
void initialize(int&, char*[]) {}
void initialize(InitializationSettings const&) {}
void finalize() {}
void fence(const std::string&) {}
void team_policy_check_valid_storage_level_argument(int level) { if (level != 0 && level != 1) throw std::runtime_error("bad scratch level"); }
namespace Impl { PerTeamValue::PerTeamValue(size_t a) : value(a) {} PerThreadValue::PerThreadValue(size_t a) : value(a) {} }
Impl::PerTeamValue PerTeam(const size_t& a) { return Impl::PerTeamValue(a); }
Impl::PerThreadValue PerThread(const size_t& a) { return Impl::PerThreadValue(a); }
namespace Tools {
bool profileLibraryLoaded() { return false; }
void beginFence(const std::string, const uint32_t, uint64_t*) {}
void endFence(const uint64_t) {}
void beginParallelFor(const std::string&, const uint32_t, uint64_t*) {}
void endParallelFor(const uint64_t) {}
void beginParallelScan(const std::string&, const uint32_t, uint64_t*) {}
void endParallelScan(const uint64_t) {}
void beginParallelReduce(const std::string&, const uint32_t, uint64_t*) {}
void endParallelReduce(const uint64_t) {}
void beginDeepCopy(const SpaceHandle, const std::string, const void*, const SpaceHandle, const std::string, const void*, const uint64_t) {}
void endDeepCopy() {}
SpaceHandle make_space_handle(const char*) { SpaceHandle s; s.name[0] = 0; return s; }
namespace Experimental { Kokkos::Tools::Experimental::EventSet get_callbacks() { EventSet e; memset((void*)&e, 0, sizeof e); return e; } }
}  // namespace Tools
namespace Profiling {
bool profileLibraryLoaded() { return false; }
void beginParallelFor(const std::string&, const uint32_t, uint64_t*) {}
void endParallelFor(const uint64_t) {}
void beginParallelScan(const std::string&, const uint32_t, uint64_t*) {}
void endParallelScan(const uint64_t) {}
void beginParallelReduce(const std::string&, const uint32_t, uint64_t*) {}
void endParallelReduce(const uint64_t) {}
void beginDeepCopy(const SpaceHandle, const std::string, const void*, const SpaceHandle, const std::string, const void*, const uint64_t) {}
void endDeepCopy() {}
SpaceHandle make_space_handle(const char*) { SpaceHandle s; s.name[0] = 0; return s; }
}
}  // namespace Kokkos
// registration hooks of the serialisation library: empty unless the defining file is linked too
namespace cereal { namespace detail {
#define VK_INIT(n) __attribute__((weak)) void dynamic_init_dummy_mpartInitMapFactory##n() {}
VK_INIT(1) VK_INIT(2) VK_INIT(3) VK_INIT(4) VK_INIT(5) VK_INIT(6) VK_INIT(7) VK_INIT(8) VK_INIT(9) VK_INIT(10) VK_INIT(11) VK_INIT(12) VK_INIT(13) VK_INIT(14) VK_INIT(15) VK_INIT(16) VK_INIT(17) VK_INIT(18)
} }
