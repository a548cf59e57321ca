#ifndef VERIF_COMPAT_DC_UTILS_H_
#define VERIF_COMPAT_DC_UTILS_H_
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int size) : buf_(buf), size_(size) {}
  void AddString(const char* s) { while (*s) AddCharacter(*s++); }
  void AddCharacter(char c) { if (pos_ + 1 < size_) buf_[pos_++] = c; }
  void AddPadding(char c, int n) { while (n-- > 0) AddCharacter(c); }
  int position() const { return pos_; }
  char* Finalize() { buf_[pos_] = 0; return buf_; }
 private:
  char* buf_; int size_; int pos_ = 0;
};
}  // namespace double_conversion
#endif
