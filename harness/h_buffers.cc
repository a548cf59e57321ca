// Buffers: histories of building, slicing, copying and reshuffling; factories.
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "google/protobuf/arena.h"
#include "absl/container/inlined_vector.h"
#include "absl/hash/hash.h"
#include "absl/strings/cord.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "mc.h"

namespace {

using arolla::Buffer;
using arolla::GetHeapBufferFactory;
using arolla::HeapBufferFactory;
using arolla::OptionalValue;
using arolla::ProtobufArenaBufferFactory;
using arolla::RawBufferFactory;
using arolla::RawBufferPtr;
using arolla::StringsBuffer;
using arolla::Text;
using arolla::UnsafeArenaBufferFactory;
using arolla::VoidBuffer;

// A factory of the explored environment, kept for the whole execution.
struct Factory {
  int kind;
  google::protobuf::Arena arena;
  std::unique_ptr<RawBufferFactory> f;
  explicit Factory(int kind) : kind(kind) {
    if (kind == 0) f = std::make_unique<HeapBufferFactory>();
    if (kind == 1) f = std::make_unique<UnsafeArenaBufferFactory>(64);
    if (kind == 2) f = std::make_unique<ProtobufArenaBufferFactory>(arena);
  }
  RawBufferFactory* get() { return f.get(); }
};

// What is written for code c, and what a slot holds that was never written.
template <class T>
struct V;
template <>
struct V<int> {
  static constexpr bool kDefined = false;
  static int at(int c) { return 1000 + c; }
};
template <>
struct V<bool> {
  static constexpr bool kDefined = true;
  static bool at(int c) { return c != -1; }
};
template <>
struct V<std::string> {
  static constexpr bool kDefined = true;
  static std::string at(int c) {
    static const int kLen[] = {3, 0, 40, 1, 17};
    return c == -1 ? "" : std::string(kLen[c % 5], char('a' + c));
  }
};
template <>
struct V<Text> : V<std::string> {};
template <>
struct V<std::monostate> {
  static constexpr bool kDefined = true;
  static std::monostate at(int) { return {}; }
};
template <>
struct V<std::shared_ptr<int>> {
  static constexpr bool kDefined = true;
  static std::shared_ptr<int> at(int c) {
    static std::vector<std::shared_ptr<int>> pool;
    if (c == -1) return nullptr;
    while ((int)pool.size() <= c) pool.push_back(std::make_shared<int>(c));
    return pool[c];
  }
};

constexpr int kUnset = -1;
using Model = std::vector<int>;

template <class T>
void Check(const Buffer<T>& b, const Model& m, const char* when) {
  mc::step();
  MC_EQ(b.size(), (int64_t)m.size(), "size after " << when);
  MC_EQ(b.empty(), m.empty(), "empty after " << when);
  auto it = b.begin();
  for (size_t i = 0; i < m.size(); ++i, ++it) {
    if (m[i] == kUnset && !V<T>::kDefined) continue;
    MC_CHECK(b[i] == V<T>::at(m[i]), "element " << i << " after " << when);
    MC_CHECK(*it == V<T>::at(m[i]), "iterated element " << i << " after " << when);
  }
  MC_CHECK(it == b.end(), "end after " << when);
  if (!m.empty()) {
    if (m.front() != kUnset || V<T>::kDefined) MC_CHECK(b.front() == V<T>::at(m.front()), "front after " << when);
    if (m.back() != kUnset || V<T>::kDefined) MC_CHECK(b.back() == V<T>::at(m.back()), "back after " << when);
  }
  MC_CHECK(b == b && !(b != b), "not equal to itself after " << when);
}

// Builds a buffer by a history of builder operations.
template <class T>
Buffer<T> BuildAny(int n, int ops, int starts, RawBufferFactory* f, Model& m) {
  m.assign(n, kUnset);
  int next = mc::choose(starts);
  typename Buffer<T>::Builder b(n, f);
  if (ops < 0) {
    for (int i = 0; i < n; ++i) {
      b.Set(i, V<T>::at(next));
      m[i] = next++;
    }
    return std::move(b).Build();
  }
  for (int k = 0; k < ops; ++k) {
    int op = mc::choose(6);
    if (op == 0 || n == 0) break;
    switch (op) {
      case 1: {
        int i = mc::choose(n);
        MC_SAY("Set(" << i << ")");
        b.Set(i, V<T>::at(next));
        m[i] = next++;
        break;
      }
      case 2: {
        int i = mc::choose(n), j = mc::choose(n);
        if (m[i] == kUnset && !V<T>::kDefined) mc::abandon();
        MC_SAY("Copy(" << i << ", " << j << ")");
        b.Copy(i, j);
        m[j] = m[i];
        break;
      }
      case 3: case 4: {
        int i = mc::choose(n + 1), c = mc::choose(n - i + 1);
        MC_SAY((op == 3 ? "SetN(" : "SetNConst(") << i << ", " << c << ")");
        if (op == 4) {
          b.SetNConst(i, c, V<T>::at(next));
          for (int j = i; j < i + c; ++j) m[j] = next;
          ++next;
        } else {
          std::string hold;  // a generator may return a view
          b.SetN(i, c, [&, g = next]() mutable { return V<T>::at(g++); });
          for (int j = i; j < i + c; ++j) m[j] = next++;
        }
        break;
      }
      case 5: {
        int i = mc::choose(n + 1);
        auto ins = b.GetInserter(i);
        MC_SAY("inserter at " << i);
        while (i < n) {
          int what = mc::choose(3);
          if (what == 0) break;
          if (what == 1) {
            ins.Add(V<T>::at(next));
            m[i++] = next++;
          } else {
            int c = mc::choose(n - i + 1);
            ins.SkipN(c);
            i += c;
            if (c == 0) break;
          }
        }
        if (mc::flag()) {
          MC_SAY("Build(inserter) at " << i);
          m.resize(i);
          return std::move(b).Build(ins);
        }
        break;
      }
    }
  }
  int how = mc::choose(2);
  if (how == 0) {
    MC_SAY("Build()");
    return std::move(b).Build();
  }
  int size = mc::choose(n + 1);
  MC_SAY("Build(" << size << ")");
  m.resize(size);
  return std::move(b).Build(size);
}

template <class T>
OptionalValue<arolla::view_type_t<T>> Default(int c) {
  static std::vector<decltype(V<T>::at(0))> keep(64);
  if (c == kUnset) return std::nullopt;
  keep[c] = V<T>::at(c);
  return arolla::view_type_t<T>(keep[c]);
}

// A new buffer from another one.
template <class T>
Buffer<T> Derive(const Buffer<T>& b, Model& m, RawBufferFactory* f, bool heap, std::vector<Buffer<T>>& keep, int ops) {
  int n = m.size();
  // ops: the permitted operations (bits).
  int op = mc::choose(6);
  if (!(ops >> op & 1)) mc::abandon();
  switch (op) {
    case 0: case 1: {
      int o = mc::choose(n + 1), c = mc::choose(n - o + 1);
      MC_SAY("Slice(" << o << ", " << c << ")" << (op ? " of a temporary" : ""));
      Model s(m.begin() + o, m.begin() + o + c);
      m = s;
      if (op == 0) return b.Slice(o, c);
      Buffer<T> copy = b;
      return std::move(copy).Slice(o, c);
    }
    case 2:
      MC_SAY("ShallowCopy()");
      keep.push_back(b);
      return b.ShallowCopy();
    case 3: {
      MC_SAY("DeepCopy()");
      auto r = b.DeepCopy(f);
      MC_CHECK(!heap || r.is_owner(), "a deep copy does not own its data");
      return r;
    }
    case 4: case 5: {
      int size = mc::range(0, std::min(n + 1, 2));
      int def = mc::flag() ? 20 + mc::choose(2) : kUnset;
      MC_SAY("reshuffle into " << size << (def == kUnset ? " without default" : " with default"));
      typename Buffer<T>::ReshuffleBuilder r(size, b, Default<T>(def), f);
      Model s(size, def);
      if (op == 4) {
        for (int i = 0; i < size; ++i) {
          int from = mc::choose(n + 1) - 1;
          if (from < 0) continue;
          if (m[from] == kUnset && !V<T>::kDefined) mc::abandon();
          r.CopyValue(i, from);
          s[i] = m[from];
        }
      } else {
        int from = mc::choose(size + 1), to = mc::range(from, size);
        if (n == 0) mc::abandon();
        int old = mc::choose(n);
        if (m[old] == kUnset && !V<T>::kDefined) mc::abandon();
        r.CopyValueToRange(from, to, old);
        for (int i = from; i < to; ++i) s[i] = m[old];
      }
      if (mc::flag()) {
        m = s;
        return std::move(r).Build();
      }
      int last = mc::choose(size + 1);
      MC_SAY("shrunk to " << last);
      s.resize(last);
      m = s;
      return std::move(r).Build(last);
    }
  }
  return b;
}

template <class T>
void History(int n, int ops, int derivations, int starts = 1) {
  Factory f(mc::choose(3));
  MC_SAY("factory " << f.kind << ", max size " << n);
  Model m;
  Buffer<T> b = BuildAny<T>(n, ops, starts, f.get(), m);
  Check<T>(b, m, "build");
  bool owns = b.empty() || b.is_owner() || f.kind != 0;
  MC_CHECK(owns, "a buffer made in the heap does not own its data");
  std::vector<Buffer<T>> keep;
  Model first = m;
  Buffer<T> original = b;
  for (int k = 0; k < derivations; ++k) {
    Model before = m;
    Buffer<T> r = Derive<T>(b, m, f.get(), f.kind == 0, keep, k + 1 == derivations ? 63 : derivations < 3 ? 63 : k == 0 ? 3 : 12);
    Check<T>(b, before, "deriving (source)");
    Check<T>(r, m, "deriving");
    b = std::move(r);
  }
  Check<T>(original, first, "everything (first buffer)");
  // Equality is equality of the contents.
  Buffer<T> again = b.DeepCopy();
  MC_CHECK(V<T>::kDefined == false || again == b, "a deep copy differs");
  if (!m.empty()) {
    MC_CHECK(!(b == b.Slice(0, m.size() - 1)), "buffers of different sizes are equal");
    if (!std::is_same_v<T, std::monostate> && V<T>::kDefined && first.size() == m.size()) {
      bool eq = true;
      for (size_t i = 0; i < m.size(); ++i) eq &= V<T>::at(m[i]) == V<T>::at(first[i]);
      MC_EQ(original == b, eq, "equality with the first buffer");
    }
  }
  // Hashes and fingerprints describe the contents.
  if constexpr (V<T>::kDefined) {
    typename Buffer<T>::Builder bl(m.size());
    for (size_t i = 0; i < m.size(); ++i) bl.Set(i, V<T>::at(m[i]));
    Buffer<T> same = std::move(bl).Build();
    MC_CHECK((same == b && b == same), "not equal to a buffer with the same elements");
    MC_CHECK(absl::HashOf(b) == absl::HashOf(same), "equal buffers have different hashes");
    if constexpr (!std::is_same_v<T, std::shared_ptr<int>> && !std::is_same_v<T, std::monostate>) {
      auto fp = [](const Buffer<T>& x) { return arolla::FingerprintHasher("b").Combine(x).Finish(); };
      MC_CHECK(original == b || fp(original) != fp(b), "buffers with different elements have the same fingerprint");
    }
  }
  mc::state(mc::cat(f.kind, n, m.size(), first.size()));
}

MC_HARNESS(history_int) { History<int>(mc::range(0, 2), mc::tier(1, 2), 1); }
MC_HARNESS(history_int_twice) { History<int>(mc::range(0, 3), -1, 2); }
MC_HARNESS(history_bool) { History<bool>(mc::range(0, 2), 1, mc::tier(1, 2)); }
MC_HARNESS(history_strings) { History<std::string>(mc::range(0, 2), mc::tier(1, 2), 1, mc::tier(3, 2)); }
MC_HARNESS(history_strings_twice) { History<Text>(mc::range(1, 3), -1, 2, mc::tier(1, 5)); }
MC_HARNESS(history_strings_thrice) { History<Text>(mc::range(1, 3), -1, 3, mc::tier(2, 5)); }
MC_HARNESS(history_unit) { History<std::monostate>(mc::range(0, 2), 1, mc::tier(1, 2)); }
MC_HARNESS(history_objects) { History<std::shared_ptr<int>>(mc::range(0, 2), mc::tier(1, 2), 1); }
// More builder operations, nothing derived.
MC_HARNESS(build_int) { History<int>(mc::range(1, mc::tier(2, 3)), 3, 0); }
MC_HARNESS(build_bool) { History<bool>(mc::range(1, 2), 3, 0); }
MC_HARNESS(build_strings) { History<std::string>(mc::range(1, mc::tier(2, 3)), 3, 0); }
MC_HARNESS(build_unit) { History<std::monostate>(mc::range(1, 2), 3, 0); }
MC_HARNESS(build_objects) { History<std::shared_ptr<int>>(mc::range(1, 2), 3, 0); }

// Two string buffers with the same bytes in a different layout.
MC_HARNESS(strings_layout) {
  std::string text;
  for (int i = 0; i < 6; ++i) text += char('a' + mc::choose(2));
  // Cut the text into pieces, skip some of them, and rebase.
  int at = 0;
  std::vector<std::string> v;
  int pieces = mc::range(1, mc::tier(3, 4));
  for (int i = 0; i < pieces; ++i) {
    int n = mc::range(0, std::min<int>(3, 6 - at));
    v.emplace_back(text.data() + at, n);
    at += n;
  }
  StringsBuffer b = StringsBuffer::Create(v.begin(), v.end());
  for (int k = 0; k < 2; ++k) {
    int from = mc::choose((int)v.size()), n = 1 + mc::choose((int)v.size() - from);
    MC_SAY("slice " << from << "+" << n << " of " << v.size());
    b = b.Slice(from, n);
    v = std::vector<std::string>(v.begin() + from, v.begin() + from + n);
    if (mc::flag()) {
      MC_SAY("deep copy");
      b = b.DeepCopy();
    }
    mc::step();
    MC_EQ(b.size(), (int64_t)v.size(), "size");
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(b[i] == v[i], "string " << i);
    StringsBuffer w = StringsBuffer::Create(v.begin(), v.end());
    MC_CHECK(absl::HashOf(w) == absl::HashOf(b), "equal buffers have different hashes");
    // The same offsets and characters with another base are other strings.
    bool valid = true;
    for (const auto& o : b.offsets()) valid &= o.end <= b.characters().size();
    if (valid) {
      StringsBuffer c(b.offsets(), b.characters(), 0);
      auto fp = [](const StringsBuffer& x) { return arolla::FingerprintHasher("b").Combine(x).Finish(); };
      MC_CHECK(c == b || fp(c) != fp(b), "buffers with different strings have the same fingerprint");
      MC_CHECK(!(c == b) || absl::HashOf(c) == absl::HashOf(b), "equal buffers have different hashes");
    }
    MC_CHECK(b == w && w == b && !(b != w), "not equal to a buffer of the same strings");
  }
}

// Creation from containers and the sizes at which the representation changes.
template <class T>
void Sizes() {
  static const int kSizes[] = {0, 1, 2, 63, 64, 127, 255, 256, 257, 1000, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385};
  Factory f(mc::choose(3));
  int n = mc::pick(kSizes);
  int last = mc::pick(kSizes);
  if (last > n) mc::abandon();
  int how = mc::choose(3);
  MC_SAY("factory " << f.kind << ", " << n << " elements, " << last << " kept, way " << how);
  mc::state(mc::cat(n, ",", last, how));
  Buffer<T> b;
  Model m(n);
  for (int i = 0; i < n; ++i) m[i] = i % 23;
  if (how == 0) {
    typename Buffer<T>::Builder bl(n, f.get());
    for (int i = 0; i < n; ++i) bl.Set(i, V<T>::at(m[i]));
    b = std::move(bl).Build(last);
    m.resize(last);
  } else if (how == 1) {
    std::vector<decltype(V<T>::at(0))> v;
    for (int i = 0; i < last; ++i) v.push_back(V<T>::at(m[i]));
    b = Buffer<T>::Create(v.begin(), v.end(), f.get());
    m.resize(last);
  } else {
    if (last != 0 && last != n) mc::abandon();
    b = Buffer<T>::CreateUninitialized(n, f.get());
    if (V<T>::kDefined) m.assign(n, kUnset);
    else MC_EQ(b.size(), n, "size");
    if (V<T>::kDefined) Check<T>(b, m, "CreateUninitialized");
    return;
  }
  Check<T>(b, m, "creation");
}
MC_HARNESS(sizes_int) { Sizes<int>(); }
MC_HARNESS(sizes_bool) { Sizes<bool>(); }
MC_HARNESS(sizes_strings) { Sizes<std::string>(); }
MC_HARNESS(sizes_unit) { Sizes<std::monostate>(); }

MC_HARNESS(from_containers) {
  int n = mc::choose(6), how = mc::choose(4);
  Model m(n);
  for (int i = 0; i < n; ++i) m[i] = i;
  std::vector<int> v;
  for (int i = 0; i < n; ++i) v.push_back(V<int>::at(i));
  std::vector<int> w = v;
  Buffer<int> b;
  switch (how) {
    case 0: b = Buffer<int>::Create(std::move(w)); break;
    case 1: b = Buffer<int>::Create(absl::InlinedVector<int, 3>(v.begin(), v.end())); break;
    case 2: b = arolla::CreateBuffer<int>(v); break;
    case 3: b = Buffer<int>(nullptr, v); break;
  }
  Check<int>(b, m, "creation from a container");
  MC_EQ(b.is_owner(), how != 3 || n == 0, "ownership");
  MC_CHECK(b == v && v == b, "comparison with a container");
  v.push_back(1);
  if (how != 3) MC_CHECK(!(b == v), "comparison with a longer container");
}

// Long strings: the character buffer grows while it is filled.
MC_HARNESS(strings_growth) {
  Factory f(mc::choose(3));
  int n = mc::range(1, mc::tier(3, 4));
  int initial = mc::pick({-1, 0, 1, 16, 100});
  std::vector<std::string> v;
  auto bl = initial < 0 ? StringsBuffer::Builder(n, f.get()) : StringsBuffer::Builder(n, initial, f.get());
  for (int i = 0; i < n; ++i) {
    int len = mc::pick({0, 1, 15, 16, 17, 64, 65, 1000});
    v.push_back(std::string(len, char('a' + i)));
  }
  bool cord = mc::flag();
  bool reverse = mc::flag();
  for (int k = 0; k < n; ++k) {
    int i = reverse ? n - 1 - k : k;
    if (cord) bl.Set(i, absl::Cord(v[i]));
    else bl.Set(i, v[i]);
  }
  int size = mc::choose(n + 1);
  StringsBuffer b = std::move(bl).Build(size);
  MC_EQ(b.size(), size, "size");
  for (int i = 0; i < size; ++i) MC_CHECK(b[i] == v[i], "string " << i);
  mc::step();
  mc::state(mc::cat(n, initial, size, v[0].size()));
}

// ---- The arena

// Memory handed out is aligned, disjoint from all live blocks and keeps its contents.
struct Page {
  size_t size;
  void* p;
};
struct RecordingFactory : RawBufferFactory {
  std::vector<Page> pages;
  int live = 0;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override {
    pages.push_back({n, ::operator new(n)});
    ++live;
    return {std::shared_ptr<void>(pages.back().p, [this](void* p) { ::operator delete(p); --live; }), pages.back().p};
  }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&&, void*, size_t, size_t) override {
    mc::fail("", "the arena reallocates a page");
    return {};
  }
};
struct BlockRec {
  char* p;
  size_t n;
  char fill;
  RawBufferPtr hold;
};

void ArenaHistory(RawBufferFactory& f, UnsafeArenaBufferFactory* arena, int len, bool own) {
  static const size_t kSizes[] = {0, 1, 8, 24, 31, 32, 33, 63, 64, 65, 200};
  std::vector<BlockRec> live;
  int next = 1;
  std::string st;
  auto check = [&] {
    mc::step();
    for (size_t i = 0; i < live.size(); ++i) {
      for (size_t k = 0; k < live[i].n; ++k) MC_CHECK(live[i].p[k] == live[i].fill, "block " << i << " lost byte " << k);
      for (size_t j = 0; j < i; ++j)
        MC_CHECK(live[i].n == 0 || live[j].n == 0 || live[i].p + live[i].n <= live[j].p || live[j].p + live[j].n <= live[i].p, "blocks " << i << " and " << j << " overlap");
    }
  };
  for (int k = 0; k < len; ++k) {
    int op = mc::choose(arena ? 4 : 3);
    if (op == 0) break;
    if (op == 1) {
      size_t n = mc::pick(kSizes);
      MC_SAY("create " << n);
      auto [h, p] = f.CreateRawBuffer(n);
      MC_CHECK(n == 0 || reinterpret_cast<uintptr_t>(p) % 8 == 0, "a buffer is not aligned");
      MC_EQ(h != nullptr, own && n != 0, "ownership of a buffer");
      live.push_back({static_cast<char*>(p), n, char(next++), std::move(h)});
      if (n) memset(p, live.back().fill, n);
      st += mc::cat("c", n);
    } else if (op == 2) {
      if (live.empty()) break;
      int i = mc::choose((int)live.size());
      size_t n = mc::pick(kSizes);
      MC_SAY("resize block " << i << " from " << live[i].n << " to " << n);
      BlockRec& b = live[i];
      auto [h, p] = f.ReallocRawBuffer(std::move(b.hold), b.p, b.n, n);
      char* q = static_cast<char*>(p);
      for (size_t k = 0; k < std::min(n, b.n); ++k) MC_CHECK(q[k] == b.fill, "resizing lost byte " << k);
      MC_CHECK(n == 0 || reinterpret_cast<uintptr_t>(p) % 8 == 0, "a resized buffer is not aligned");
      b.hold = std::move(h);
      b.p = q;
      b.n = n;
      if (n) memset(q, b.fill, n);
      st += mc::cat("r", i, ".", n);
    } else {
      MC_SAY("reset");
      arena->Reset();
      live.clear();
      st += "x";
    }
    check();
  }
  mc::state(st);
}
MC_HARNESS(arena_history) {
  RecordingFactory base;
  UnsafeArenaBufferFactory a(64, base);
  ArenaHistory(a, &a, mc::tier(4, 5), false);
}
MC_HARNESS(heap_history) {
  HeapBufferFactory f;
  ArenaHistory(f, nullptr, mc::tier(3, 4), true);
}
MC_HARNESS(protobuf_arena_history) {
  google::protobuf::Arena arena;
  ProtobufArenaBufferFactory f(arena);
  ArenaHistory(f, nullptr, mc::tier(3, 4), false);
}
// Resetting makes the pages available again: no growth over the rounds.
MC_HARNESS(arena_reuse) {
  RecordingFactory base;
  UnsafeArenaBufferFactory a(64, base);
  std::vector<size_t> sizes;
  int n = mc::range(0, 4);
  for (int i = 0; i < n; ++i) sizes.push_back(mc::pick({0, 1, 8, 17, 32, 64, 65}));
  size_t small_pages = 0;
  int kept = -1;
  for (int round = 0; round < 3; ++round) {
    for (size_t s : sizes) {
      auto [h, p] = a.CreateRawBuffer(s);
      if (s) memset(p, round, s);
    }
    size_t now = 0;
    for (auto& p : base.pages) now += p.size == 64;
    // A block of a page's size may be allocated apart.
    bool apart = false;
    for (size_t s : sizes) apart |= s >= 32;
    if (round == 0) small_pages = now;
    else if (!apart) MC_EQ(now, small_pages, "pages in round " << round);
    a.Reset();
    mc::step();
    if (round == 0) kept = base.live;
    else MC_EQ(base.live, kept, "buffers held after a reset in round " << round);
    MC_CHECK(base.live <= (int)now, "a block that is no page is kept after a reset");
  }
}

MC_HARNESS(make_owned) {
  // A value made in an arena survives it after MakeOwned.
  int n = mc::range(0, 4);
  std::vector<std::string> v;
  StringsBuffer s;
  Buffer<int> b;
  {
    UnsafeArenaBufferFactory a(mc::pick({16, 64, 1024}));
    StringsBuffer::Builder bl(n, &a);
    Buffer<int>::Builder bi(n, &a);
    for (int i = 0; i < n; ++i) {
      v.push_back(V<std::string>::at(mc::choose(5)));
      bl.Set(i, v.back());
      bi.Set(i, i);
    }
    int from = mc::choose(n + 1);
    s = std::move(bl).Build().Slice(from);
    b = std::move(bi).Build().Slice(from);
    v.erase(v.begin(), v.begin() + from);
    s = arolla::ArenaTraits<StringsBuffer>::MakeOwned(std::move(s), GetHeapBufferFactory());
    b = arolla::ArenaTraits<Buffer<int>>::MakeOwned(std::move(b), GetHeapBufferFactory());
    n = v.size() ? (int)v.size() : 0;
    for (int i = 0; i < n; ++i) MC_EQ(b[i], from + i, "");
  }
  MC_CHECK(s.is_owner() && b.is_owner(), "not owned");
  MC_EQ(s.size(), (int64_t)v.size(), "size");
  for (size_t i = 0; i < v.size(); ++i) MC_CHECK(s[i] == v[i], "string " << i);
  mc::step();
}

}  // namespace

MC_MAIN()
