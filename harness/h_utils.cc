// Caches, identifiers, class hierarchies.
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>

#include "arolla/util/class_info.h"
#include "arolla/util/lru_cache.h"
#include "arolla/util/operator_name.h"
#include "arolla/util/string.h"
#include "mc.h"

namespace {

// ---- LRU cache

struct Rec {
  int key, value;
  size_t weight;
};
struct Counted {
  static inline int alive = 0;
  int v;
  explicit Counted(int v) : v(v) { ++alive; }
  Counted(const Counted& o) : v(o.v) { ++alive; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --alive; }
};
struct CollidingHash {
  using is_transparent = void;
  size_t operator()(int) const { return 42; }
};

template <class Hash>
void LruHistory(int depth, int keys) {
  const size_t capacity = 1 + mc::choose(mc::tier(3, 4));
  std::string log = mc::cat("capacity ", capacity, ":");
  Counted::alive = 0;
  {
    arolla::LruCache<int, Counted, Hash, std::equal_to<>> cache(capacity);
    std::list<Rec> model;  // Most recently used first.
    int next = 1;
    for (int i = 0; i < depth; ++i) {
      const int op = mc::choose(2 * keys + keys + 1);
      if (op < 2 * keys) {
        const int k = op / 2;
        const size_t w = op % 2 ? 2 : 1;
        const int v = next++;
        log += mc::cat(" put(", k, ",w", w, ")");
        MC_SAY(log);
        const Counted* p = cache.Put(k, Counted(v), w);
        model.remove_if([&](const Rec& r) { return r.key == k; });
        model.push_front({k, v, w});
        auto used = [&] {
          size_t s = 0;
          for (auto& r : model) s += r.weight;
          return s;
        };
        while (used() > capacity && model.size() > 1) model.pop_back();
        MC_EQ(p->v, v, "value returned by put;" << log);
      } else if (op < 3 * keys) {
        const int k = op - 2 * keys;
        log += mc::cat(" get(", k, ")");
        MC_SAY(log);
        const Counted* p = cache.LookupOrNull(k);
        auto it = std::find_if(model.begin(), model.end(), [&](const Rec& r) { return r.key == k; });
        MC_EQ(p != nullptr, it != model.end(), "presence of " << k << ";" << log);
        if (p) {
          MC_EQ(p->v, it->value, "value of " << k << ";" << log);
          model.splice(model.begin(), model, it);
        }
      } else {
        log += " clear";
        cache.Clear();
        model.clear();
      }
      mc::step();
      MC_EQ(Counted::alive, static_cast<int>(model.size()), "values held;" << log);
      std::string s = mc::cat(capacity);
      for (auto& r : model) s += mc::cat(" ", r.key, ":", r.weight);
      mc::state(s);
    }
    // Everything the model holds is there, from the least recently used on.
    std::vector<int> order;
    for (auto it = model.rbegin(); it != model.rend(); ++it) {
      const Counted* p = cache.LookupOrNull(it->key);
      MC_CHECK(p != nullptr && p->v == it->value, "final value of " << it->key << ";" << log);
    }
  }
  MC_EQ(Counted::alive, 0, "values alive after destruction;" << log);
}
MC_HARNESS(lru) { LruHistory<absl::Hash<int>>(mc::tier(5, 6), 3); }
MC_HARNESS(lru_collisions) { LruHistory<CollidingHash>(mc::tier(4, 5), 3); }
MC_HARNESS(lru_string_keys) {
  // Looked up by another type than the key type; the key passed to Put may be one that is about to be evicted.
  struct StrHash {
    using is_transparent = void;
    size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); }
  };
  arolla::LruCache<std::string, std::string, StrHash> c(2);
  std::vector<std::string> keys = {"a", std::string(50, 'k'), ""};
  std::string log;
  std::list<std::pair<std::string, std::string>> model;
  for (int i = 0; i < mc::tier(4, 5); ++i) {
    const std::string& k = mc::pick(keys);
    if (mc::flag()) {
      std::string v = mc::cat(k, "=", i);
      log += " put";
      const std::string* p = c.Put(std::string_view(k), v);
      MC_EQ(*p, v, "put" << log);
      model.remove_if([&](auto& r) { return r.first == k; });
      model.push_front({k, v});
      if (model.size() > 2) model.pop_back();
    } else {
      log += " get";
      const std::string* p = c.LookupOrNull(std::string_view(k));
      auto it = std::find_if(model.begin(), model.end(), [&](auto& r) { return r.first == k; });
      MC_EQ(p != nullptr, it != model.end(), "presence" << log);
      if (p) {
        MC_EQ(*p, it->second, "value" << log);
        model.splice(model.begin(), model, it);
      }
    }
    mc::step();
    std::string s;
    for (auto& r : model) s += r.first + "|";
    mc::state(s);
  }
}

// ---- identifiers

std::string GenString(const std::vector<char>& alphabet, int max) {
  int n = mc::choose(max + 1);
  std::string s;
  for (int i = 0; i < n; ++i) s += alphabet[mc::choose((int)alphabet.size())];
  return s;
}

bool ModelIdent(const std::string& s) {
  if (s.empty() || (s[0] >= '0' && s[0] <= '9')) return false;
  for (char c : s)
    if (!strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_0123456789", c) || !c) return false;
  return true;
}

MC_HARNESS(identifiers) {
  static const std::vector<char> al = {'a', 'Z', '_', '0', '9', '.', ' ', '\0', '-', '\x80'};
  std::string s = GenString(al, mc::tier(4, 6));
  MC_SAY(s);
  mc::step(3);
  mc::state(s);
  MC_EQ(arolla::IsIdentifier(s), ModelIdent(s), "identifier " << s);
  bool q = !s.empty();
  size_t at = 0;
  for (;;) {
    size_t dot = s.find('.', at);
    q = q && ModelIdent(s.substr(at, dot == std::string::npos ? dot : dot - at));
    if (dot == std::string::npos) break;
    at = dot + 1;
  }
  MC_EQ(arolla::IsQualifiedIdentifier(s), q, "qualified identifier " << s);
  MC_EQ(arolla::IsOperatorName(s), q, "operator name " << s);
}

MC_HARNESS(characters) {
  const char c = static_cast<char>(mc::choose(256));
  const bool alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), digit = c >= '0' && c <= '9';
  MC_EQ(arolla::IsAlpha(c), alpha, "char " << int(c));
  MC_EQ(arolla::IsDigit(c), digit, "char " << int(c));
  MC_EQ(arolla::IsAlnum(c), alpha || digit, "char " << int(c));
  std::string s(1, c);
  MC_EQ(arolla::IsIdentifier(s), alpha || c == '_', "char " << int(c));
  MC_EQ(arolla::IsIdentifier("_" + s), alpha || digit || c == '_', "char " << int(c));
  MC_EQ(arolla::IsQualifiedIdentifier(s), alpha || c == '_', "char " << int(c));
  MC_EQ(arolla::IsQualifiedIdentifier("x" + s), alpha || digit || c == '_', "char " << int(c));
  mc::state(s);
  // Access strings: an attribute, or a quoted subscript that decodes to the key.
  std::string acc = arolla::ContainerAccessString(s);
  if (alpha || c == '_') {
    MC_EQ(acc, "." + s, "access");
  } else {
    MC_CHECK(acc.size() >= 5 && acc.substr(0, 2) == "['" && acc.substr(acc.size() - 2) == "']", acc);
  }
}

MC_HARNESS(prefix_truncate) {
  static const std::vector<char> al = {'a', 'b', '\xd0'};
  std::string s = GenString(al, mc::tier(5, 7)), p = GenString(al, 3);
  MC_SAY(s << " " << p);
  MC_EQ(arolla::starts_with(s, p), s.compare(0, p.size(), p) == 0 && s.size() >= p.size(), s << " starts with " << p);
  for (size_t max = 4; max < 10; ++max) {
    std::string want = s.size() <= max ? s : s.substr(0, max - 3) + "...";
    MC_EQ(arolla::Truncate(s, max), want, "truncate to " << max);
    mc::step();
  }
  mc::state(s + "|" + p);
  bool first = mc::flag();
  const bool was = first;
  auto d = arolla::NonFirstComma(first, "; ");
  MC_EQ(std::string(d), std::string(was ? "" : "; "), "delimiter");
  MC_CHECK(!first, "the flag stays set");
  MC_EQ(std::string(arolla::NonFirstComma(first)), std::string(", "), "default delimiter");
}

bool ModelOneTypo(const std::string& a, const std::string& b) {
  if (a == b) return true;
  const std::string* s = &a;
  const std::string* l = &b;
  if (s->size() > l->size()) std::swap(s, l);
  for (size_t i = 0; i < l->size(); ++i) {
    if (l->substr(0, i) + l->substr(i + 1) == *s) return true;
    if (l->size() == s->size()) {
      std::string t = *l;
      t[i] = (*s)[i];
      if (t == *s) return true;
      if (i + 1 < l->size()) {
        t = *l;
        std::swap(t[i], t[i + 1]);
        if (t == *s) return true;
      }
    }
  }
  return false;
}

MC_HARNESS(one_typo) {
  static const std::vector<char> al = {'a', 'b', 'c'};
  const int n = mc::tier(4, 5);
  std::string a = GenString(al, n), b = GenString(al, n);
  MC_SAY(a << " " << b);
  MC_EQ(arolla::IsWithinOneTypo(a, b), ModelOneTypo(a, b), "'" << a << "' and '" << b << "'");
  mc::step();
  mc::state(a + "|" + b);
}

// ---- class hierarchies

struct FakeType : std::type_info {
  explicit FakeType(const char* n) : std::type_info(n) {}
};
std::deque<std::string> g_names;
std::deque<FakeType> g_types;
int g_counter = 0;

MC_HARNESS(class_info) {
  const int n = 2 + mc::choose(mc::tier(4, 5));
  std::vector<int> parent(n);
  std::vector<const FakeType*> types(n);
  std::vector<std::optional<arolla::ClassInfo>> info(n);
  std::string log;
  // Registered in an order in which a parent comes before its children, with a repetition after each step.
  for (int i = 0; i < n; ++i) {
    parent[i] = mc::choose(i + 1) - 1;
    log += mc::cat(" ", i, "<-", parent[i]);
    g_names.push_back(mc::cat("N", g_counter, "x"));
    g_names.back() = mc::cat("4T", 100 + g_counter % 900, "z", g_counter);
    ++g_counter;
    types[i] = &g_types.emplace_back(g_names.back().c_str());
    info[i] = parent[i] < 0 ? arolla::RegisterRootClass(*types[i]) : arolla::RegisterSubclass(*types[i], *info[parent[i]]);
    const int again = i / 2;
    auto r = parent[again] < 0 ? arolla::RegisterRootClass(*types[again]) : arolla::RegisterSubclass(*types[again], *info[parent[again]]);
    MC_CHECK(r == *info[again], "registered again, the class " << again << " changed;" << log);
  }
  MC_SAY(log);
  mc::state(log);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      bool want = false;
      for (int a = i; a >= 0; a = parent[a]) want |= a == j;
      MC_EQ(info[i]->is_subclass_of(*info[j]), want, i << " subclass of " << j << ";" << log);
      MC_EQ(*info[i] == *info[j], i == j, "identity of " << i << " and " << j);
      mc::step();
    }
    MC_EQ(info[i]->name(), std::string(types[i]->name()), "name");
    MC_EQ(info[i]->stringify(), mc::cat("ClassInfo{'", types[i]->name(), "'}"), "stringify");
  }
}

struct R0 {
  explicit R0(arolla::ClassInfo c) : ci(c) {}
  arolla::ClassInfo ci;
  AROLLA_DECLARE_ROOT_CLASS_INFO(R0, ci);
};
struct R1 : R0 {
  R1() : R0(arolla::GetClassInfo<R1>()) {}
  explicit R1(arolla::ClassInfo c) : R0(c) {}
  AROLLA_DECLARE_SUBCLASS_INFO(R1, R0);
};
struct R2 : R1 {
  R2() : R1(arolla::GetClassInfo<R2>()) {}
  AROLLA_DECLARE_SUBCLASS_INFO(R2, R1);
};
struct R3 : R0 {
  R3() : R0(arolla::GetClassInfo<R3>()) {}
  AROLLA_DECLARE_SUBCLASS_INFO(R3, R0);
};
struct R4 : R1 {
  R4() : R1(arolla::GetClassInfo<R4>()) {}
  AROLLA_DECLARE_SUBCLASS_INFO(R4, R1);
};

MC_HARNESS(downcasts) {
  // The classes are registered lazily, in every order.
  const int k = mc::choose(5);
  std::unique_ptr<R1> r1 = std::make_unique<R1>();
  R2 r2;
  R3 r3;
  R4 r4;
  R0 r0(arolla::GetClassInfo<R0>());
  R0* p = k == 0 ? &r0 : k == 1 ? r1.get() : k == 2 ? static_cast<R0*>(&r2) : k == 3 ? static_cast<R0*>(&r3) : &r4;
  MC_EQ(arolla::FastDowncast<R1>(p) != nullptr, k == 1 || k == 2 || k == 4, "to R1");
  MC_EQ(arolla::FastDowncast<R2>(p) != nullptr, k == 2, "to R2");
  MC_EQ(arolla::FastDowncast<R3>(p) != nullptr, k == 3, "to R3");
  MC_EQ(arolla::FastDowncast<R4>(p) != nullptr, k == 4, "to R4");
  MC_CHECK(arolla::IsInstanceOf<R0>(p) && arolla::IsInstanceOf<R0>(*p), "root");
  R0* null = nullptr;
  MC_CHECK(arolla::FastDowncast<R1>(null) == nullptr && !arolla::IsInstanceOf<R1>(null), "null");
  const R0* c = p;
  MC_CHECK(arolla::FastDowncast<R1>(c) == arolla::FastDowncast<R1>(p), "const");
  mc::state(mc::cat(k));
  mc::step(8);
}

}  // namespace

MC_MAIN()
