"""Writes OUT/absl/...: copies of a few installed abseil headers with small
inline-only additions (APIs newer than the installed release that arolla uses).
No class layout changes, so the result stays ABI-compatible with libabsl."""
import os, sys

SRC = '/usr/include/absl'


def main(out):
  def patch(rel, *subs, append=None):
    s = open(f'{SRC}/{rel}').read()
    for old, new in subs:
      assert s.count(old) >= 1, (rel, old)
      s = s.replace(old, new)
    if append:
      i = s.rindex('#endif')
      s = s[:i] + append + s[i:]
    p = f'{out}/absl/{rel}'
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
      with open(p, 'w') as f:
        f.write(s)

  patch('base/attributes.h', append='''
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
''')
  patch('base/optimization.h', append='''
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
''')
  patch(
      'status/status.h',
      ('#include "absl/strings/cord.h"',
       '#include "absl/strings/cord.h"\n#include "absl/types/source_location.h"\n#include "absl/types/span.h"'),
      ('  Status(absl::StatusCode code, absl::string_view msg);',
       '''  Status(absl::StatusCode code, absl::string_view msg);
  Status(absl::StatusCode code, absl::string_view msg, const absl::SourceLocation&) : Status(code, msg) {}
  absl::Span<const absl::SourceLocation> GetSourceLocations() const { return {}; }
  void AddSourceLocation(const absl::SourceLocation&) {}'''))
  m = []
  for k in ('Reader', 'Writer', ''):
    m.append((f'  explicit {k}MutexLock(Mutex *mu) ABSL',
              f'  explicit {k}MutexLock(Mutex& mu) : {k}MutexLock(&mu) {{}}\n  explicit {k}MutexLock(Mutex *mu) ABSL'))
  patch('synchronization/mutex.h', *m)
  patch('algorithm/container.h', ('// c_find()', '''template <typename C, typename T>
bool c_contains(const C& c, const T& value) {
  using std::begin; using std::end;
  return std::find(begin(c), end(c), value) != end(c);
}

// c_find()'''))
  # absl::string_view -> std::string_view, so that std::string's string_view
  # overloads accept it as they do when absl::string_view is std's.
  patch('strings/string_view.h', ('''  // Explicit conversion operators
''', '''  constexpr operator std::string_view() const noexcept {
    return std::string_view(ptr_, length_);
  }
  // Explicit conversion operators
'''), ('#include <string>\n', '#include <string>\n#include <string_view>\n'))
  # AbslStringify support.
  patch('strings/str_cat.h',
        ('class AlphaNum {\n public:\n', '''class AlphaNum {
 public:
  template <typename T, std::enable_if_t<
      absl::strings_internal::VerifHasAbslStringify<T>::value, int> = 0>
  AlphaNum(const T& v, std::string&& buf = std::string())  // NOLINT
      : piece_((buf = absl::strings_internal::VerifStringify(v), buf)) {}
'''),
        ('#include "absl/strings/string_view.h"',
         '#include "absl/strings/string_view.h"\n#include "verif/stringify.h"'))
  patch('strings/internal/str_format/arg.h',
        ('''void AbslFormatConvert();  // Stops the lexical name lookup
''', '''template <typename T>
struct HasUserDefinedConvert<T, std::enable_if_t<
    absl::strings_internal::VerifHasAbslStringify<T>::value>> : std::true_type {};
void AbslFormatConvert();  // Stops the lexical name lookup
'''),
        ('''StringConvertResult FormatConvertImpl(string_view v,
''', '''StringConvertResult FormatConvertImpl(string_view v,
                                      FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink);
template <typename T, std::enable_if_t<
    absl::strings_internal::VerifHasAbslStringify<T>::value, int> = 0>
StringConvertResult FormatConvertImpl(const T& v, FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink) {
  return FormatConvertImpl(
      string_view(absl::strings_internal::VerifStringify(v)), conv, sink);
}
StringConvertResult FormatConvertImpl(string_view v,
'''),
        ('#include "absl/strings/string_view.h"',
         '#include "absl/strings/string_view.h"\n#include "verif/stringify.h"'))
  patch('status/statusor.h',
        ('absl::negation<std::is_same<T, U>>,', 'absl::negation<std::is_same<T, U>>, absl::negation<std::is_reference<U>>,'),
        ('  // Converting Assignment Operators\n', '''  template <typename U, absl::enable_if_t<std::is_convertible<U&, T>::value, int> = 0>
  StatusOr(const StatusOr<U&>& o)  // NOLINT
      : StatusOr(o.ok() ? StatusOr(T(*o)) : StatusOr(o.status())) {}
  // Converting Assignment Operators
'''))
  # "%v" (newer abseil) is "%s" here.
  patch('strings/internal/str_format/bind.h',
        ('''  explicit UntypedFormatSpecImpl(string_view s)
      : data_(s.data()), size_(s.size()) {}''',
         '''  explicit UntypedFormatSpecImpl(string_view s)
      : UntypedFormatSpecImpl(absl::strings_internal::VerifFixFormat(s), 0) {}
  UntypedFormatSpecImpl(string_view s, int)
      : data_(s.data()), size_(s.size()) {}'''))

  # Strings of protobuf messages may be set from absl::string_view.
  p = '/usr/include/google/protobuf/arenastring.h'
  s = open(p).read()
  old = '  void Set(const char* s, size_t n, Arena* arena);\n'
  assert s.count(old) == 1
  s = s.replace(old, old + '''  template <typename V, typename = decltype(std::declval<V>().remove_prefix(1))>
  void Set(V v, Arena* arena) { Set(v.data(), v.size(), arena); }
''')
  q = f'{out}/google/protobuf/arenastring.h'
  os.makedirs(os.path.dirname(q), exist_ok=True)
  if not os.path.exists(q) or open(q).read() != s:
    with open(q, 'w') as f:
      f.write(s)


main(sys.argv[1])
