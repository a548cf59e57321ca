// Table and column paths, naming policies and protopath ids against a model
// that works on plain lists of (name, is_index).
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/hash/hash.h"
#include "arolla/naming/policy.h"
#include "arolla/naming/protopath_id.h"
#include "arolla/naming/table.h"
#include "mc.h"

namespace {
using namespace arolla::naming;
using Seg = std::pair<std::string, bool>;
using Segs = std::vector<Seg>;

const std::vector<std::string> kNames = {"a", "B_1", "Ext::x.Y", "@size", "m[\"k\"]", "x[0]", "Ext::p/Q.r", "", "@key", "aExt::b.C", "size"};
const std::vector<std::string> kFew = {"a", "aa", "b", ""};

Segs segs(int max_len, const std::vector<std::string>& names) {
  Segs r;
  int n = mc::choose(max_len + 1);
  for (int i = 0; i < n; ++i) {
    std::string name = mc::pick(names);
    r.push_back({name, mc::flag()});
  }
  return r;
}
std::string show(const Segs& s) {
  std::string r;
  for (auto& [n, i] : s) r += "<" + n + (i ? "[:]>" : ">");
  return r;
}
Segs of(const std::vector<PathSegment>& v) {
  Segs r;
  for (auto& s : v) r.push_back({s.FieldName(), s.IsIndex()});
  return r;
}
std::vector<PathSegment> mk(const Segs& s) {
  std::vector<PathSegment> r;
  for (auto& [n, i] : s) r.emplace_back(n, i);
  return r;
}
std::string full(const Segs& s, bool markers) {
  std::string r;
  for (auto& [n, i] : s) r += "/" + n + (markers && i ? "[:]" : "");
  return r;
}
Segs cat(Segs a, const Segs& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
std::string repl(const std::string& s, const std::string& from, const std::string& to) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, from.size(), from) == 0) {
      r += to;
      i += from.size();
    } else {
      r += s[i++];
    }
  }
  return r;
}
bool ext(const std::string& s) { return s.rfind("Ext::", 0) == 0; }
std::string policy(const std::string& name, const Segs& s) {
  std::string r;
  if (name == "double_underscore") {
    for (size_t i = 0; i < s.size(); ++i) {
      std::string f = repl(s[i].first, "/", "__");
      if (ext(f)) {
        f = f.substr(5);
        for (char& c : f) c = c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c == '.' ? '_' : c;
      }
      r += (i ? "__" : "") + f;
    }
    return r;
  }
  if (name == "single_underscore") {
    std::string f = full(s, false);
    return f.empty() ? f : repl(f.substr(1), "/", "_");
  }
  if (name == "leaf_only") {
    std::string f = full(s, false);
    if (f.size() >= 5 && f.substr(f.size() - 5) == "@size") return f;
    size_t p = f.rfind('/');
    return p == std::string::npos ? f : f.substr(p + 1);
  }
  if (name == "protopath_id") return full(s, true);
  if (name == "googlesql") {
    for (size_t i = 0; i < s.size(); ++i) r += (i ? "." : "") + (ext(s[i].first) ? "(" + s[i].first.substr(5) + ")" : s[i].first);
    return r;
  }
  return full(s, false);
}
std::vector<std::pair<std::string, Policy>> policies() {
  return {{std::string(kDefaultPolicyName), DefaultPolicy()},         {std::string(kDoubleUnderscorePolicyName), DoubleUnderscorePolicy()},
          {std::string(kSingleUnderscorePolicyName), SingleUnderscorePolicy()}, {std::string(kLeafOnlyPolicyName), LeafOnlyPolicy()},
          {std::string(kProtopathIdPolicyName), ProtopathIdPolicy()}, {std::string(kGoogleSQLPolicyName), GoogleSQLPolicy()}};
}

// All names, formats and parents of one path.
template <class P>
void observe(const P& p, const Segs& s) {
  mc::step();
  MC_EQ(show(of(p.PathSegments())), show(s), "segments");
  MC_EQ(p.FullName(), full(s, false), show(s));
  MC_EQ(p.FullName(true), full(s, true), show(s));
  MC_CHECK(p.DebugString().find("\"" + full(s, true) + "\"") != std::string::npos, p.DebugString() << " for " << show(s));
}

MC_HARNESS(paths) {
  Segs s = segs(mc::tier(3, 4), kNames);
  MC_SAY("path " << show(s));
  mc::state(show(s));
  TablePath t(mk(s));
  ColumnPath c(mk(s));
  observe(t, s);
  observe(c, s);
  // Building step by step, by all overloads, does not modify the base.
  {
    TablePath u;
    for (size_t i = 0; i < s.size(); ++i) {
      const TablePath before = u;
      TablePath by_name = u.Child(s[i].first, s[i].second);
      TablePath by_seg = u.Child(PathSegment(s[i].first, s[i].second));
      TablePath by_table = u.Child(TablePath(s[i].first, s[i].second));
      ColumnPath col = u.Column(s[i].first, s[i].second);
      ColumnPath col2 = u.Column(PathSegment(s[i].first, s[i].second));
      ColumnPath col3 = u.Column(ColumnPath(s[i].first, s[i].second));
      Segs w(s.begin(), s.begin() + i + 1);
      observe(by_name, w);
      observe(by_seg, w);
      observe(by_table, w);
      observe(col, w);
      observe(col2, w);
      observe(col3, w);
      MC_CHECK(u == before, "Child changed its base");
      if (i % 2) u = std::move(u).Child(s[i].first, s[i].second);
      else u = std::move(u).Child(PathSegment(s[i].first, s[i].second));
    }
    observe(u, s);
    MC_CHECK(u == t && !(u != t) && !(u < t) && !(t < u), "equal paths");
    MC_CHECK(absl::Hash<TablePath>()(u) == absl::Hash<TablePath>()(t), "equal paths, different hashes");
    MC_EQ(u.PythonHash(), t.PythonHash(), show(s));
    if (!s.empty()) MC_CHECK(mk(s).back().IsExtension() == ext(s.back().first), "extension " << show(s));
  }
  observe(t.MapKeys(), cat(s, {{"@key", false}}));
  observe(t.MapValues(), cat(s, {{"@value", false}}));
  for (const std::string n : {"", "z", "Ext::e.f"}) {
    observe(t.Size(n), cat(n.empty() ? s : cat(s, {{n, false}}), {{"@size", false}}));
  }
  // Parent: the closest proper ancestor that is an index (or the root).
  {
    Segs w = s;
    if (!w.empty()) w.pop_back();
    while (!w.empty() && !w.back().second) w.pop_back();
    auto parent = t.ParentIndexPath();
    MC_EQ(parent.has_value(), !s.empty(), show(s));
    if (parent) observe(*parent, w);
    // A column belongs to the closest index path including itself.
    w = s;
    while (!w.empty() && !w.back().second) w.pop_back();
    observe(c.ParentIndexPath(), w);
  }
  observe(t, s);
  for (auto& [name, p] : policies()) {
    mc::step(3);
    MC_EQ(p.Name(), name, "policy name");
    MC_EQ(p.Format(t), policy(name, s), name << " of table " << show(s));
    MC_EQ(p.Format(c), policy(name, s), name << " of column " << show(s));
    auto q = GetPolicy(name);
    MC_CHECK(q.ok() && q->Name() == name && q->Format(t) == p.Format(t), "GetPolicy " << name);
  }
  for (const char* bad : {"", "default ", "double", "Leaf_only"}) MC_CHECK(!GetPolicy(bad).ok(), "policy " << bad);
}

MC_HARNESS(pairs) {
  Segs a = segs(mc::tier(2, 3), kFew), b = segs(2, kFew);
  MC_SAY(show(a) << " and " << show(b));
  mc::state(show(a) + " " + show(b));
  TablePath ta(mk(a)), tb(mk(b));
  ColumnPath ca(mk(a)), cb(mk(b));
  mc::step(6);
  MC_EQ(ta == tb, a == b, "table ==");
  MC_EQ(ta != tb, a != b, "table !=");
  MC_EQ(ta < tb, a < b, "table <");
  MC_EQ(ca == cb, a == b, "column ==");
  MC_EQ(ca != cb, a != b, "column !=");
  MC_EQ(ca < cb, a < b, "column <");
  if (a == b) {
    MC_CHECK(absl::Hash<TablePath>()(ta) == absl::Hash<TablePath>()(tb), "table hash");
    MC_CHECK(absl::Hash<ColumnPath>()(ca) == absl::Hash<ColumnPath>()(cb), "column hash");
    MC_EQ(ca.PythonHash(), cb.PythonHash(), "column hash");
  }
  observe(ta.Child(tb), cat(a, b));
  observe(ta.Column(cb), cat(a, b));
  observe(ta.Size(tb), cat(cat(a, b), {{"@size", false}}));
  bool is_prefix = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.begin());
  auto rt = ta.RemovePrefix(tb);
  auto rc = ca.RemovePrefix(tb);
  MC_EQ(rt.ok(), is_prefix, show(b) << " as a prefix of " << show(a));
  MC_EQ(rc.ok(), is_prefix, show(b) << " as a prefix of column " << show(a));
  if (is_prefix) {
    Segs rest(a.begin() + b.size(), a.end());
    observe(*rt, rest);
    observe(*rc, rest);
    MC_CHECK(tb.Child(*rt) == ta && tb.Column(*rc) == ca, "prefix and suffix do not give the whole");
  } else {
    mc::outcome(std::string(rt.status().message()).substr(0, 0) + "not a prefix");
  }
  // Removing what was appended.
  auto back = ta.Child(tb).RemovePrefix(ta);
  MC_CHECK(back.ok() && *back == tb, "RemovePrefix(Child)");
}

// Ids: parse and format are inverse on well formed ids, everything else is as defined.
MC_HARNESS(ids) {
  static const std::vector<std::string> toks = {"/", "a", "[:]", "@size", "[", "]", ":", "Ext::x.y", "\"", " "};
  int n = mc::choose(mc::tier(5, 6));
  std::string id;
  for (int i = 0; i < n; ++i) id += mc::pick(toks);
  MC_SAY("id \"" << id << "\"");
  mc::state(id);
  bool ok = id.empty() || id[0] == '/';
  Segs w;
  if (ok && !id.empty()) {
    std::string rest = id.substr(1);
    std::string cur;
    auto flush = [&] {
      bool idx = cur.size() >= 3 && cur.substr(cur.size() - 3) == "[:]";
      w.push_back({idx ? cur.substr(0, cur.size() - 3) : cur, idx});
      cur.clear();
    };
    for (char ch : rest) {
      if (ch == '/') flush();
      else cur += ch;
    }
    if (!cur.empty()) flush();
  }
  auto t = TablePathFromProtopathId(id);
  auto c = ColumnPathFromProtopathId(id);
  mc::step(2);
  MC_EQ(t.ok(), ok, "id " << id);
  MC_EQ(c.ok(), ok, "id " << id);
  if (!ok) return;
  observe(*t, w);
  observe(*c, w);
  std::string again = id.empty() || id.back() != '/' ? id : id.substr(0, id.size() - 1);
  MC_EQ(TablePathToProtopathId(*t), again, "id " << id);
  MC_EQ(ColumnPathToProtopathId(*c), again, "id " << id);
}

// Every path of well formed names survives the conversion to an id.
MC_HARNESS(id_of_path) {
  Segs s = segs(mc::tier(3, 4), {"a", "@size", "m[\"k\"]", "Ext::x.Y", "x[0]", "[:]a"});
  MC_SAY(show(s));
  mc::state(show(s));
  TablePath t(mk(s));
  auto id = TablePathToProtopathId(t);
  MC_EQ(id, full(s, true), "id");
  auto r = TablePathFromProtopathId(id);
  MC_CHECK(r.ok() && *r == t, "round trip of " << show(s));
  ColumnPath c(mk(s));
  auto rc = ColumnPathFromProtopathId(ColumnPathToProtopathId(c));
  MC_CHECK(rc.ok() && *rc == c, "round trip of column " << show(s));
}

MC_HARNESS(field_names) {
  std::string f = mc::pick(kNames), k = mc::pick(kNames);
  int64_t i = mc::pick(std::vector<int64_t>{0, 1, 9, 10, 4294967295, 4294967296});
  MC_SAY(f << " " << k << " " << i);
  mc::step(4);
  MC_EQ(FieldAccess(f), f, "field");
  MC_EQ(MapAccess(f, k), f + "[\"" + k + "\"]", "map");
  MC_EQ(ArrayAccess(f, i), f + "[" + std::to_string(i) + "]", "array");
  MC_EQ(ProtoExtensionAccess(f), "Ext::" + f, "extension");
  PathSegment x(f, i == 0), y(k, i == 1);
  MC_EQ(x == y, f == k && (i == 0) == (i == 1), "segment ==");
  MC_EQ(x != y, !(x == y), "segment !=");
  MC_EQ(x < y, std::pair(f, i == 0) < std::pair(k, i == 1), "segment <");
  if (x == y) MC_EQ(x.PythonHash(), y.PythonHash(), "segment hash");
  MC_CHECK(x.DebugString().find("\"" + f + "\"") != std::string::npos, "debug string");
  MC_EQ(x.DebugString().find("True") != std::string::npos, i == 0, "debug string");
}
}  // namespace
MC_MAIN()
