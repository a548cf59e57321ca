#ifndef VERIF_COMPAT_STRINGIFY_H_
#define VERIF_COMPAT_STRINGIFY_H_
#include <mutex>
#include <set>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace strings_internal {
struct VerifStringifySink {
  std::string s;
  void Append(size_t n, char c) { s.append(n, c); }
  void Append(absl::string_view v) { s.append(v.data(), v.size()); }
  friend void AbslFormatFlush(VerifStringifySink* sink, absl::string_view v) { sink->Append(v); }
};
template <typename T, typename = void> struct VerifHasAbslStringify : std::false_type {};
template <typename T>
struct VerifHasAbslStringify<T, std::void_t<decltype(AbslStringify(std::declval<VerifStringifySink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T> std::string VerifStringify(const T& v) {
  VerifStringifySink sink; AbslStringify(sink, v); return std::move(sink.s);
}
inline absl::string_view VerifFixFormat(absl::string_view f) {
  if (f.find("%v") == absl::string_view::npos) return f;
  static std::mutex* mu = new std::mutex;
  static std::set<std::string>* pool = new std::set<std::string>;
  std::string s(f.data(), f.size());
  for (size_t i = 0; (i = s.find("%v", i)) != std::string::npos; i += 2) s[i + 1] = 's';
  std::lock_guard<std::mutex> l(*mu);
  return *pool->insert(s).first;
}
}  // namespace strings_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
