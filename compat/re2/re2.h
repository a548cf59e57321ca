// Stand-in for RE2 (not installed) over std::regex: just what arolla uses.
#ifndef VERIF_COMPAT_RE2_H_
#define VERIF_COMPAT_RE2_H_
#include <regex>
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  enum CannedOptions { DefaultOptions, Quiet };
  class Arg {
   public:
    Arg() = default;
    explicit Arg(absl::string_view* v) : v_(v) {}
    void Set(absl::string_view s) const { if (v_) *v_ = s; }
   private:
    absl::string_view* v_ = nullptr;
  };
  RE2(absl::string_view p, CannedOptions = DefaultOptions) : pattern_(p) {
    try { re_ = std::regex(pattern_); } catch (const std::regex_error& e) { error_ = e.what(); if (error_.empty()) error_ = "error"; }
  }
  bool ok() const { return error_.empty(); }
  const std::string& error() const { return error_; }
  const std::string& pattern() const { return pattern_; }
  int NumberOfCapturingGroups() const { return ok() ? static_cast<int>(re_.mark_count()) : -1; }
  static bool PartialMatch(absl::string_view t, const RE2& re) {
    return std::regex_search(t.begin(), t.end(), re.re_);
  }
  static bool PartialMatch(absl::string_view t, const RE2& re, std::string* out) {
    std::cmatch m;
    if (re.re_.mark_count() < 1 || !std::regex_search(t.data(), t.data() + t.size(), m, re.re_)) return false;
    *out = m[1].str();
    return true;
  }
  static bool FindAndConsumeN(absl::string_view* in, const RE2& re, const Arg* const args[], int n) {
    std::cmatch m;
    if (!std::regex_search(in->data(), in->data() + in->size(), m, re.re_)) return false;
    for (int i = 0; i < n; ++i)
      args[i]->Set(m[i + 1].matched ? absl::string_view(m[i + 1].first, m[i + 1].length()) : absl::string_view());
    in->remove_prefix(m[0].second - in->data());
    return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, absl::string_view rewrite) {
    std::string fmt;
    for (size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] == '\\' && i + 1 < rewrite.size()) { ++i; if (rewrite[i] == '\\') fmt += '\\'; else (fmt += rewrite[i] == '0' ? "$&" : "$") += rewrite[i] == '0' ? "" : std::string(1, rewrite[i]); }
      else if (rewrite[i] == '$') fmt += "$$";
      else fmt += rewrite[i];
    }
    int n = std::distance(std::sregex_iterator(s->begin(), s->end(), re.re_), std::sregex_iterator());
    if (n) *s = std::regex_replace(*s, re.re_, fmt);
    return n;
  }
 private:
  std::string pattern_, error_;
  std::regex re_;
};
#endif
