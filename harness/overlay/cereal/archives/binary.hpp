// Overlay of <cereal/archives/binary.hpp>: under the symbolic executor the archives write to and read from a byte buffer
// (vk_mem) instead of an iostream; the format is unchanged. Natively the real header is used.
#pragma GCC system_header
#ifdef VK_NATIVE
#include_next <cereal/archives/binary.hpp>
#else
#ifndef CEREAL_ARCHIVES_BINARY_HPP_
#define CEREAL_ARCHIVES_BINARY_HPP_
#include "cereal/cereal.hpp"
#include <sstream>
#include <vector>
#include <cstring>
struct vk_mem { std::vector<char> d; unsigned long pos = 0; };
namespace cereal {
class BinaryOutputArchive : public OutputArchive<BinaryOutputArchive, AllowEmptyClassElision> { public:
  BinaryOutputArchive(vk_mem& s) : OutputArchive<BinaryOutputArchive, AllowEmptyClassElision>(this), m(&s) {}
  BinaryOutputArchive(std::ostream&) : OutputArchive<BinaryOutputArchive, AllowEmptyClassElision>(this), m(nullptr) {}
  ~BinaryOutputArchive() noexcept = default;
  void saveBinary(const void* data, std::streamsize size) { if (!m) throw Exception("no buffer"); unsigned long n = m->d.size(); m->d.resize(n + size); if (size) std::memcpy(m->d.data() + n, data, size); }
 private: vk_mem* m; };
class BinaryInputArchive : public InputArchive<BinaryInputArchive, AllowEmptyClassElision> { public:
  BinaryInputArchive(vk_mem& s) : InputArchive<BinaryInputArchive, AllowEmptyClassElision>(this), m(&s) {}
  BinaryInputArchive(std::istream&) : InputArchive<BinaryInputArchive, AllowEmptyClassElision>(this), m(nullptr) {}
  ~BinaryInputArchive() noexcept = default;
  void loadBinary(void* const data, std::streamsize size) { if (!m || size < 0 || (unsigned long)size > m->d.size() - m->pos) throw Exception("Failed to read from input stream"); if (size) std::memcpy(data, m->d.data() + m->pos, size); m->pos += size; }
 private: vk_mem* m; };
template <class T> inline typename std::enable_if<std::is_arithmetic<T>::value, void>::type CEREAL_SAVE_FUNCTION_NAME(BinaryOutputArchive& ar, T const& t) { ar.saveBinary(std::addressof(t), sizeof(t)); }
template <class T> inline typename std::enable_if<std::is_arithmetic<T>::value, void>::type CEREAL_LOAD_FUNCTION_NAME(BinaryInputArchive& ar, T& t) { ar.loadBinary(std::addressof(t), sizeof(t)); }
template <class Archive, class T> inline CEREAL_ARCHIVE_RESTRICT(BinaryInputArchive, BinaryOutputArchive) CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, NameValuePair<T>& t) { ar(t.value); }
template <class Archive, class T> inline CEREAL_ARCHIVE_RESTRICT(BinaryInputArchive, BinaryOutputArchive) CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, SizeTag<T>& t) { ar(t.size); }
template <class T> inline void CEREAL_SAVE_FUNCTION_NAME(BinaryOutputArchive& ar, BinaryData<T> const& bd) { ar.saveBinary(bd.data, static_cast<std::streamsize>(bd.size)); }
template <class T> inline void CEREAL_LOAD_FUNCTION_NAME(BinaryInputArchive& ar, BinaryData<T>& bd) { ar.loadBinary(bd.data, static_cast<std::streamsize>(bd.size)); }
}
CEREAL_REGISTER_ARCHIVE(cereal::BinaryOutputArchive)
CEREAL_REGISTER_ARCHIVE(cereal::BinaryInputArchive)
CEREAL_SETUP_ARCHIVE_TRAITS(cereal::BinaryInputArchive, cereal::BinaryOutputArchive)
#endif
#endif
