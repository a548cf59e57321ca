// Compatibility stand-in for double-conversion: shortest round-trip digits come
// from std::to_chars; the layout rules follow DoubleToStringConverter's docs.
#ifndef VERIF_COMPAT_DC_D2S_H_
#define VERIF_COMPAT_DC_D2S_H_
#include <charconv>
#include <cmath>
#include <cstdlib>
#include "double-conversion/utils.h"
namespace double_conversion {
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2,
               EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char exp_char, int low, int high, int, int,
                          int min_exponent_width = 0)
      : flags_(flags), inf_(inf), nan_(nan), exp_(exp_char), low_(low), high_(high) { (void)min_exponent_width; }
  bool ToShortest(double v, StringBuilder* b) const { return Do(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Do(v, b); }
 private:
  template <typename T> bool Do(T v, StringBuilder* b) const {
    if (std::isnan(v)) { b->AddString(nan_); return true; }
    if (std::isinf(v)) { if (v < 0) b->AddCharacter('-'); b->AddString(inf_); return true; }
    if (std::signbit(v) && (v != 0 || !(flags_ & UNIQUE_ZERO))) b->AddCharacter('-');
    char buf[64]; std::string digits; int exponent = 0;
    if (v == 0) { digits = "0"; } else {
      auto r = std::to_chars(buf, buf + sizeof(buf), std::fabs(v), std::chars_format::scientific);
      const char* p = buf;
      for (; p != r.ptr && *p != 'e'; ++p) if (*p != '.') digits += *p;
      exponent = std::atoi(std::string(p + 1, static_cast<const char*>(r.ptr)).c_str());
    }
    int point = exponent + 1;  // decimal point position
    if (low_ <= exponent && exponent < high_) {
      if (point <= 0) { b->AddString("0."); b->AddPadding('0', -point); b->AddString(digits.c_str()); }
      else if (point >= (int)digits.size()) {
        b->AddString(digits.c_str()); b->AddPadding('0', point - (int)digits.size());
        if (flags_ & EMIT_TRAILING_DECIMAL_POINT) b->AddCharacter('.');
        if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) b->AddCharacter('0');
      } else {
        b->AddString(digits.substr(0, point).c_str()); b->AddCharacter('.'); b->AddString(digits.substr(point).c_str());
      }
    } else {
      b->AddCharacter(digits[0]);
      if (digits.size() > 1) { b->AddCharacter('.'); b->AddString(digits.substr(1).c_str()); }
      b->AddCharacter(exp_);
      if (exponent < 0) b->AddCharacter('-'); else if (flags_ & EMIT_POSITIVE_EXPONENT_SIGN) b->AddCharacter('+');
      b->AddString(std::to_string(std::abs(exponent)).c_str());
    }
    return true;
  }
  int flags_; const char* inf_; const char* nan_; char exp_; int low_, high_;
};
}  // namespace double_conversion
#endif
