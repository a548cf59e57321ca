// Generated input loaders fill exactly the requested slots with what their protopaths denote; generated slot listeners
// write exactly the requested slots.
#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_join.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "io_oracle.h"

namespace {

using namespace vpc;
using ::arolla::FrameLayout;
using ::arolla::FramePtr;
using ::arolla::MemoryAllocation;
using ::arolla::QTypePtr;
using ::arolla::TypedSlot;

// ------------------------------------------------ typed values as text
struct TypeInfo {
  std::string name;
  std::function<std::string(TypedSlot, arolla::ConstFramePtr)> show;
  std::function<void(const Items&, TypedSlot, FramePtr)> put;
};
template <class T, bool kMake>
void add_type(std::map<QTypePtr, TypeInfo>& m, const std::string& name) {
  m[arolla::GetQType<T>()] = {name,
                              [](TypedSlot s, arolla::ConstFramePtr f) { return vpc::show(f.Get(s.UnsafeToSlot<T>())); },
                              [](const Items& it, TypedSlot s, FramePtr f) {
                                if constexpr (kMake) *f.GetMutable(s.UnsafeToSlot<T>()) = MakeIn<T>::make(it);
                              }};
}
template <class T>
void add_types(std::map<QTypePtr, TypeInfo>& m) {
  add_type<T, false>(m, tag<T>());
  add_type<arolla::OptionalValue<T>, true>(m, "opt<" + tag<T>() + ">");
  add_type<arolla::DenseArray<T>, true>(m, "arr<" + tag<T>() + ">");
}
const std::map<QTypePtr, TypeInfo>& types() {
  static const auto* m = [] {
    auto* m = new std::map<QTypePtr, TypeInfo>();
    add_types<int32_t>(*m);
    add_types<int64_t>(*m);
    add_types<uint64_t>(*m);
    add_types<float>(*m);
    add_types<double>(*m);
    add_types<bool>(*m);
    add_types<arolla::Bytes>(*m);
    add_types<arolla::Text>(*m);
    add_type<arolla::DenseArrayShape, true>(*m, "shape");
    return m;
  }();
  return *m;
}

// A column with a concrete name: wildcards become one column per key.
struct Col {
  std::string name, cpp;
  bool has_default, plain;
  Path path;
};
std::vector<Col> expand(const std::vector<Column>& cols) {
  std::vector<Col> res;
  for (const auto& c : cols) {
    if (c.path.empty()) {
      res.push_back({c.name, c.cpp, false, true, {}});
      continue;
    }
    const Path p = parse(c.path);
    const size_t w = c.name.find("%s");
    if (w == std::string::npos) {
      res.push_back({c.name, c.cpp, c.has_default, false, p});
      continue;
    }
    for (const char* key : {"k", "zz"}) {
      Path q = p;
      for (El& e : q) {
        if (e.kind == El::kKey && e.key == "*") e.key = key;
      }
      res.push_back({c.name.substr(0, w) + key + c.name.substr(w + 2), c.cpp, c.has_default, false, q});
    }
  }
  return res;
}
std::string default_of(const std::string& cpp) { return cpp == "float" ? "f32:2.5" : "i32:-5"; }
std::string want_value(const pb::Message& m, const Col& c) {
  if (c.plain) return show(static_cast<int32_t>(dynamic_cast<const vp::M&>(m).i() + 1));
  const std::string d = default_of(c.cpp);
  return expected(m, c.path, c.cpp, c.has_default ? &d : nullptr);
}
std::string want_type(const pb::Descriptor* d, const Col& c) { return c.plain ? "i32" : result_type(d, c.path, c.cpp, c.has_default); }

// Every input explores the fields of one pair of columns completely; the fields of the other columns are all empty or all
// full. The request is everything, parts of the pair, or everything else; for few columns every subset.
struct Scope {
  std::vector<int> group;
  std::vector<bool> req;
  bool background = false;
};
Scope choose_scope(int n) {
  Scope s;
  s.req.assign(n, false);
  if (n <= (mc::thorough() ? 4 : 2)) {
    for (int i = 0; i < n; ++i) s.group.push_back(i), s.req[i] = mc::choose(2);
    return s;
  }
  int k = mc::choose(n * (n - 1) / 2), i = 0;
  while (k >= n - 1 - i) k -= n - 1 - i, ++i;
  const int j = i + 1 + k;
  s.group = {i, j};
  s.background = mc::choose(2);
  if (n <= (mc::thorough() ? 6 : 3)) {
    for (int x = 0; x < n; ++x) s.req[x] = mc::choose(2);
    return s;
  }
  switch (mc::thorough() ? mc::choose(5) : s.background ? 2 * mc::choose(2) : 1) {
    case 0: s.req.assign(n, true); break;
    case 1: s.req[i] = s.req[j] = true; break;
    case 2: s.req.assign(n, true); s.req[(i + j) % 2 ? i : j] = false; break;
    case 3: s.req[i] = true; break;
    case 4: s.req[j] = true; break;
  }
  return s;
}
void fill_scope(pb::Message* m, const Scope& s, const std::vector<Col>& cols, Filler& f) {
  Trie t;
  for (int i : s.group) {
    if (cols[i].plain) t.add(parse("i"));
    else t.add(cols[i].path);
  }
  f.fill(m, {&t});
  if (!s.background) return;
  Trie all;
  for (const auto& c : cols) all.add(c.path);
  std::unique_ptr<pb::Message> b(m->New());
  full(b.get(), {&all});
  const auto* r = m->GetReflection();
  for (const auto& [e, sub] : t.kids) r->ClearField(b.get(), field_of(m->GetDescriptor(), e));
  m->MergeFrom(*b);
}

template <class E>
const E& pick(const std::map<std::string, E>& m) {
  auto it = m.begin();
  std::advance(it, mc::choose(static_cast<int>(m.size())));
  return it->second;
}

void check_interface(const std::vector<Column>& declared, const std::vector<Col>& cols, std::vector<std::string> names,
                     const pb::Descriptor* d, const std::function<QTypePtr(absl::string_view)>& type_of) {
  std::vector<std::string> want;
  for (const auto& c : declared) want.push_back(c.name);
  for (auto& n : names) {
    // A wildcard is suggested as a pattern in the syntax of the printer.
    if (size_t i = n.find("%s"); i == std::string::npos && (i = n.find('*')) != std::string::npos && n.find("[\"*") != std::string::npos) n.replace(i, 1, "%s");
  }
  std::sort(want.begin(), want.end());
  std::sort(names.begin(), names.end());
  MC_EQ(absl::StrJoin(names, " "), absl::StrJoin(want, " "), "available names");
  for (const auto& c : cols) {
    QTypePtr t = type_of(c.name);
    MC_CHECK(t != nullptr, mc::cat("no type for ", c.name));
    auto it = types().find(t);
    MC_CHECK(it != types().end(), mc::cat("unexpected type of ", c.name));
    MC_EQ(it->second.name, want_type(d, c), mc::cat("type of ", c.name));
  }
  for (const char* bad : {"", "i", "/unknown", "/sub", "/subs", "/i/", "plain2", "/mi[\"k\""}) {
    bool known = false;
    for (const auto& c : cols) known |= c.name == bad;
    if (!known) MC_CHECK(type_of(bad) == nullptr, mc::cat("type of ", bad));
  }
}

// What does not change between executions.
struct Bound {
  std::vector<Col> cols;
  std::vector<TypedSlot> slots;
  FrameLayout layout;
  std::unique_ptr<Holder> full_in;
  std::unique_ptr<MemoryAllocation> loaded;  // with the full input
};
template <class E, class G>
const Bound& bound(const E& e, G get_type) {
  static auto* cache = new std::map<std::string, std::unique_ptr<Bound>>();
  auto& p = (*cache)[e.name];
  if (p) return *p;
  auto b = std::make_unique<Bound>();
  b->cols = expand(e.cols);
  FrameLayout::Builder lb;
  for (const Col& c : b->cols) {
    QTypePtr ty = get_type(c.name);
    MC_CHECK(ty != nullptr && types().count(ty), mc::cat("no type for ", c.name));
    b->slots.push_back(arolla::AddSlot(ty, &lb));
  }
  b->layout = std::move(lb).Build();
  p = std::move(b);
  return *p;
}
absl::flat_hash_map<std::string, TypedSlot> requested(const Bound& b, const std::vector<bool>& req) {
  absl::flat_hash_map<std::string, TypedSlot> some;
  for (size_t i = 0; i < b.cols.size(); ++i) {
    if (req[i]) some.emplace(b.cols[i].name, b.slots[i]);
  }
  return some;
}

void run_loader(const LoaderEntry& e) {
  auto& bd = const_cast<Bound&>(bound(e, [&](absl::string_view c) { return e.loader->GetQTypeOf(c); }));
  const auto& cols = bd.cols;
  const auto& slots = bd.slots;
  const int n = static_cast<int>(cols.size());
  if (!bd.loaded) {
    Trie t;
    for (const auto& c : cols) t.add(c.path);
    if (std::any_of(cols.begin(), cols.end(), [](auto& c) { return c.plain; })) t.add(parse("i"));
    bd.full_in = std::make_unique<Holder>(e.root);
    full(bd.full_in->msg(), {&t});
    bd.loaded = std::make_unique<MemoryAllocation>(&bd.layout);
    auto st = e.run(requested(bd, std::vector<bool>(n, true)), {bd.full_in->input()}, bd.loaded->frame());
    MC_CHECK(st.ok(), mc::cat(e.name, ": ", std::string(st.message())));
  }
  Holder& full_in = *bd.full_in;
  Holder in(e.root);
  const Scope scope = choose_scope(n);
  const auto& req = scope.req;
  Filler f;
  f.zero = false;
  f.lite = true;
  f.max_size = 2;
  fill_scope(in.msg(), scope, cols, f);

  const auto some = requested(bd, req);
  MemoryAllocation a(&bd.layout);
  for (const auto& slot : slots) slot.CopyTo(bd.loaded->frame(), slot, a.frame());
  // A binding of the requested columns only touches these, whatever it has loaded before.
  auto st = e.run(some, {in.input(), full_in.input(), in.input()}, a.frame());
  MC_CHECK(st.ok(), mc::cat(e.name, ": ", std::string(st.message())));
  std::vector<std::string> want;
  for (int i = 0; i < n; ++i) {
    want.push_back(want_value(req[i] ? *in.msg() : *full_in.msg(), cols[i]));
    MC_EQ(types().at(slots[i].GetType()).show(slots[i], a.frame()), want[i],
          mc::cat(e.name, " ", cols[i].name, req[i] ? " requested" : " not requested", " on ", in.msg()->ShortDebugString()));
  }
  // A frame that no loader has filled before.
  MemoryAllocation b(&bd.layout);
  st = e.run(some, {in.input()}, b.frame());
  MC_CHECK(st.ok(), "fresh frame");
  for (int i = 0; i < n; ++i) {
    if (req[i]) MC_EQ(types().at(slots[i].GetType()).show(slots[i], b.frame()), want[i], mc::cat(e.name, " fresh ", cols[i].name));
  }
  std::string key = e.name;
  for (int i = 0; i < n; ++i) key += req[i] ? want[i] : "_";
  mc::state(key);
  mc::step(4);
}
MC_HARNESS(load) { run_loader(pick(loaders())); }

MC_HARNESS(load_interface) {
  const LoaderEntry& e = pick(loaders());
  const Holder h(e.root);
  check_interface(e.cols, expand(e.cols), e.loader->SuggestAvailableNames(), h.msg()->GetDescriptor(), [&](absl::string_view n) { return e.loader->GetQTypeOf(n); });
  // A name that is not available and a slot of another type are refused.
  FrameLayout::Builder lb;
  auto s = TypedSlot::FromSlot(lb.AddSlot<arolla::OptionalValue<arolla::Unit>>());
  auto layout = std::move(lb).Build();
  MemoryAllocation a(&layout);
  Holder in(e.root);
  MC_CHECK(!e.run({{"/unknown", s}}, {in.input()}, a.frame()).ok(), "unknown name is bound");
  for (const auto& c : expand(e.cols)) MC_CHECK(!e.run({{c.name, s}}, {in.input()}, a.frame()).ok(), "wrong type is bound");
  MC_CHECK(e.run({}, {in.input()}, a.frame()).ok(), "nothing requested");
  mc::state(e.name);
  mc::step(1);
}

void run_listener(const ListenerEntry& e) {
  const Bound& bd = bound(e, [&](absl::string_view c) { return e.listener->GetQTypeOf(c); });
  const auto& cols = bd.cols;
  const auto& slots = bd.slots;
  const int n = static_cast<int>(cols.size());
  const Scope scope = choose_scope(n);
  const auto& req = scope.req;
  Holder out(e.root);
  Filler f;
  f.zero = false;
  f.lite = true;
  fill_scope(out.msg(), scope, cols, f);
  if (e.root == kS && !out.sp.has_x()) out.sp.set_x(0);
  void* obj = out.input();
  const std::string before = out.msg()->ShortDebugString();
  Holder want(e.root);
  want.msg()->CopyFrom(*out.msg());
  const auto some = requested(bd, req);
  MemoryAllocation a(&bd.layout);
  // Single values in any order, then repeated ones from the outermost to the innermost.
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  std::stable_sort(order.begin(), order.end(), [&](int x, int y) {
    auto rank = [&](int i) { return has_multi(cols[i].path) ? static_cast<int>(cols[i].path.size()) : 0; };
    return rank(x) < rank(y);
  });
  bool ok = true;
  std::string key = e.name;
  // One choice for all values: present, missing, alternating; and one column whose size is wrong.
  const int mode = mc::choose(3);
  const int nbad = static_cast<int>(scope.group.size());
  const int badk = mode == 0 ? mc::choose(nbad + 1) - 1 : -1;
  const int bad = badk < 0 ? -1 : scope.group[badk];
  if (bad >= 0 && (!req[bad] || !has_multi(cols[bad].path))) throw mc::Abandon();
  int counter = 0;
  for (int i : order) {
    if (!req[i]) {
      // Values in slots that are not requested must not be used.
      Items it(3, 1);
      types().at(slots[i].GetType()).put(it, slots[i], a.frame());
      continue;
    }
    const Col& c = cols[i];
    const bool is_enum = c.path.back().field == "e";
    Items items;
    int size = has_multi(c.path) ? loop_size(*want.msg(), c.path) : 1;
    const int real = size;
    if (i == bad) size += 1;
    for (int k = 0; k < size; ++k, ++counter) {
      if (is_size(c.path)) {
        items.push_back(mode == 0 ? 1 : mode == 1 ? 0 : counter % 2);
      } else if (mode == 1 || (mode == 2 && counter % 2)) {
        items.push_back(std::nullopt);
      } else {
        items.push_back(is_enum ? 2 : 2 + counter % 3);
      }
    }
    types().at(slots[i].GetType()).put(items, slots[i], a.frame());
    if (size != real) {
      ok = false;
      break;
    }
    size_t pos = 0;
    write(want.msg(), c.path, 0, items, &pos);
    key += "+" + c.name;
  }
  auto st = e.run(some, a.frame(), obj);
  out.read_back();
  MC_EQ(st.ok(), ok, mc::cat("status of ", e.name, " on ", before, ": ", std::string(st.message())));
  if (!ok) {
    MC_CHECK(st.code() == absl::StatusCode::kFailedPrecondition, "code of the size error");
  } else if (!same(*out.msg(), *want.msg())) {
    std::string which;
    for (int i = 0; i < n; ++i) which += req[i] ? cols[i].name + " " : "";
    MC_EQ(text(*out.msg()), text(*want.msg()), mc::cat(e.name, " writing ", which, "to ", before));
    MC_CHECK(false, mc::cat("messages differ: ", e.name));
  }
  mc::state(key + (ok ? text(*want.msg()) : "error"));
  mc::step(1);
}
MC_HARNESS(listen) { run_listener(pick(listeners())); }

MC_HARNESS(listen_interface) {
  const ListenerEntry& e = pick(listeners());
  const Holder h(e.root);
  check_interface(e.cols, expand(e.cols), e.listener->SuggestAvailableNames(), h.msg()->GetDescriptor(), [&](absl::string_view n) { return e.listener->GetQTypeOf(n); });
  mc::state(e.name);
  mc::step(1);
}

}  // namespace

MC_MAIN()
