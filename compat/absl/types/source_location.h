#ifndef VERIF_COMPAT_ABSL_SOURCE_LOCATION_H_
#define VERIF_COMPAT_ABSL_SOURCE_LOCATION_H_
namespace absl {
class SourceLocation {
 public:
  constexpr SourceLocation() = default;
  static constexpr SourceLocation current(int line = __builtin_LINE(), const char* file = __builtin_FILE()) {
    SourceLocation r; r.line_ = line; r.file_ = file; return r;
  }
  constexpr int line() const { return line_; }
  constexpr const char* file_name() const { return file_; }
 private:
  int line_ = 0;
  const char* file_ = "";
};
}  // namespace absl
#endif
