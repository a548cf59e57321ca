// Generated accessors read and write exactly what their protopath denotes.
#include "io_oracle.h"

namespace {

using namespace vpc;

Trie trie_of(const Path& p) {
  Trie t;
  t.add(p);
  return t;
}

// How deep loops are nested decides how large the enumeration may be.
int loops(const Path& p) {
  return std::count_if(p.begin(), p.end(), [](const El& e) { return is_multi(e) || e.kind == El::kCount; });
}
Filler filler(const Path& p) {
  Filler f;
  f.max_size = loops(p) >= 2 ? 2 : mc::thorough() ? 4 : 3;
  f.zero = loops(p) <= 1;
  return f;
}

std::string default_of(const std::string& cpp) {
  if (cpp == "int32_t") return "i32:-5";
  if (cpp == "float") return "f32:2.5";
  return "text:dflt";
}

// Column name of a path: elements below the root table; loops and keys as in the path, sizes as a column "@size".
std::string name_of(std::string p) {
  if (p[0] != '/') p = "/" + p;
  std::string s;
  for (size_t i = 0; i < p.size();) {
    if (p.compare(i, 3, "[:]") == 0) i += 3;
    else if (p.compare(i, 6, "count(") == 0) {
      size_t e = p.find('[', i);
      s += p.substr(i + 6, e - i - 6) + "/@size";
      i = p.size();
    } else s += p[i++];
  }
  return s;
}

MC_HARNESS(read) {
  const auto& all = reads();
  const ReadEntry& e = all[mc::choose(static_cast<int>(all.size()))];
  const Path p = parse(e.path);
  const Trie t = trie_of(p);
  Holder in(e.root), dirty(e.root);
  full(dirty.msg(), {&t});
  Filler f = filler(p);
  f.fill(in.msg(), {&t});
  const bool noise = mc::choose(2);
  if (noise) add_noise(in.msg(), t);
  const std::string d = default_of(e.cpp);
  const std::string want = expected(*in.msg(), p, e.cpp, e.has_default ? &d : nullptr);
  const std::string got = e.run(mc::choose(2) ? dirty.input() : nullptr, in.input());
  MC_EQ(got, want, mc::cat(e.path, " on ", in.msg()->ShortDebugString()));
  mc::state(mc::cat(e.path, e.cpp, want));
  mc::step(1);
}

MC_HARNESS(read_names) {
  const auto& all = reads();
  const ReadEntry& e = all[mc::choose(static_cast<int>(all.size()))];
  if (e.root != kM && e.root != kP3) throw mc::Abandon();
  std::string want = name_of(e.path);
  MC_EQ(e.name, want, mc::cat("default name of ", e.path));
  mc::state(want);
  mc::step(1);
}

MC_HARNESS(wildcard) {
  const auto& all = wilds();
  const WildEntry& e = all[mc::choose(static_cast<int>(all.size()))];
  static const char* keys[] = {"k", "a", "zz", "*", ""};
  const std::string key = keys[mc::choose(5)];
  Path p = parse(e.path);
  const Trie t = trie_of(p);
  for (El& x : p) {
    if (x.kind == El::kKey && x.key == "*") x.key = key;
  }
  Holder in(kM), dirty(kM);
  full(dirty.msg(), {&t});
  Filler f;
  f.zero = false;
  f.fill(in.msg(), {&t});
  const std::string want = expected(*in.msg(), p, "");
  MC_EQ(e.run(mc::choose(2) ? dirty.input() : nullptr, in.input(), key), want, mc::cat(e.path, " key ", key, " on ", in.msg()->ShortDebugString()));
  mc::state(mc::cat(e.path, want));
  mc::step(1);
}

MC_HARNESS(write_value) {
  const auto& all = muts();
  const MutEntry& e = all[mc::choose(static_cast<int>(all.size()))];
  const Path p = parse(e.path);
  const Trie t = trie_of(p);
  Holder out(e.root);
  Filler f;
  f.zero = false;
  f.max_size = loops(p) >= 3 ? 1 : 2;
  f.fill(out.msg(), {&t});
  if (e.root == kS && !out.sp.has_x()) out.sp.set_x(0);  // a plain member is always there
  if (e.root != kV && loops(p) <= 1 && mc::choose(2)) add_noise(out.msg(), t);
  MC_EQ(e.type, result_type(out.msg()->GetDescriptor(), p, e.cpp, false), mc::cat("type of ", e.path));
  void* obj = out.input();
  Holder want(e.root);
  want.msg()->CopyFrom(*out.msg());
  const std::string before = out.msg()->ShortDebugString();
  Items items;
  bool ok = true;
  const bool small = loops(p) >= 2;
  auto item = [&](int i) -> std::optional<int> {
    const int c = mc::choose(small ? 2 : 3);
    if (c == 0) return std::nullopt;
    // Enum fields only take declared values.
    return c == 1 ? 2 + (i % 3) : 0;
  };
  if (has_multi(p)) {
    const int n = loop_size(*out.msg(), p);
    const int delta = mc::choose(n > 0 ? 3 : 2);  // the right size, one more, one less
    const int size = delta == 0 ? n : delta == 1 ? n + 1 : n - 1;
    for (int i = 0; i < size; ++i) items.push_back(size == n && i < 4 ? item(i) : std::optional<int>(2));
    ok = size == n;
  } else {
    items.push_back(item(0));
  }
  // Enumerators are 0, 1 and 5: value numbers 2.. of int32 are 5.. .
  if (p.back().field == "e" || p.back().field == "re") {
    for (auto& x : items) {
      if (x && *x >= 2) x = 2;
    }
  }
  auto st = e.run(items, obj);
  out.read_back();
  size_t pos = 0;
  if (ok) write(want.msg(), p, 0, items, &pos);
  MC_EQ(st.ok(), ok, mc::cat("status of ", e.path, " on ", before));
  if (!ok) MC_CHECK(st.code() == absl::StatusCode::kFailedPrecondition, "code of the size error");
  if (!same(*out.msg(), *want.msg())) {
    MC_EQ(text(*out.msg()), text(*want.msg()), mc::cat(e.path, " on ", before));
    MC_CHECK(false, mc::cat("messages differ: ", e.path));
  }
  mc::state(mc::cat(e.path, text(*want.msg())));
  mc::step(1);
}

}  // namespace

MC_MAIN()
