// Frame layouts, slots, values of dynamic types.
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <typeindex>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/status/status.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "mc.h"

namespace {
// Objects which know where they live.
struct Counted {
  static std::set<const void*>& Live() {
    static auto* s = new std::set<const void*>();
    return *s;
  }
  static std::string& Trouble() {
    static auto* s = new std::string();
    return *s;
  }
  int64_t value = 77;
  const void* self = this;
  Counted() { Born(); }
  explicit Counted(int64_t v) : value(v) { Born(); }
  Counted(const Counted& o) : value(o.value) { Born(), o.Check(); }
  Counted& operator=(const Counted& o) {
    Check(), o.Check();
    value = o.value;
    return *this;
  }
  ~Counted() {
    Check();
    Live().erase(this);
    self = nullptr;
  }
  void Born() {
    if (!Live().insert(this).second) Trouble() = "an object is constructed twice";
  }
  void Check() const {
    if (!Live().count(this) || self != this) Trouble() = "an object that does not exist is used";
  }
};
struct Small : Counted {  // another type with the same behaviour
  using Counted::Counted;
};
struct Tiny {  // a byte that has to be constructed
  char value = 77;
  Tiny() { Born(); }
  explicit Tiny(int v) : value(v) { Born(); }
  Tiny(const Tiny& o) : value(o.value) { Born(), o.Check(); }
  Tiny& operator=(const Tiny& o) {
    Check(), o.Check();
    value = o.value;
    return *this;
  }
  ~Tiny() {
    Check();
    Counted::Live().erase(this);
  }
  void Born() {
    if (!Counted::Live().insert(this).second) Counted::Trouble() = "an object is constructed twice";
  }
  void Check() const {
    if (!Counted::Live().count(this)) Counted::Trouble() = "an object that does not exist is used";
  }
};
}  // namespace

namespace arolla {
AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(Counted);
void FingerprintHasherTraits<Counted>::operator()(FingerprintHasher* h, const Counted& c) const { h->Combine(c.value); }
AROLLA_DECLARE_QTYPE(Counted);
AROLLA_DEFINE_SIMPLE_QTYPE(COUNTED, Counted);
}  // namespace arolla

namespace {
using namespace arolla;

// ---- Frames

struct Field {
  size_t offset;
  int type;  // index into Ops
};

template <class T>
constexpr bool kCounted = std::is_base_of_v<Counted, T> || std::is_same_v<T, Tiny>;

struct TypeOps {
  const char* name;
  const std::type_info& info;
  size_t size, align;
  bool counted, zero;
  size_t (*add)(FrameLayout::Builder&);
  void (*set)(FramePtr, size_t, int);
  bool (*is)(ConstFramePtr, size_t, int);
};
template <class T>
T Val(int k) {
  if constexpr (kCounted<T>) return T(k);
  else if constexpr (std::is_same_v<T, std::string>) return std::string(30 + k % 5, char('a' + k % 26));
  else if constexpr (std::is_same_v<T, OptionalValue<std::string>>) return Val<std::string>(k);
  else if constexpr (std::is_same_v<T, OptionalValue<float>>) return float(k);
  else return T(k);
}
template <class T>
bool Same(const T& a, int k) {
  if constexpr (kCounted<T>) return a.Check(), a.value == T(k).value;
  else return a == Val<T>(k);
}
template <class T>
TypeOps Make(const char* name, bool zero) {
  return {name, typeid(T), sizeof(T), alignof(T), kCounted<T>, zero,
          [](FrameLayout::Builder& b) { return b.AddSlot<T>().byte_offset(); },
          [](FramePtr f, size_t o, int k) { f.Set(FrameLayout::Slot<T>::UnsafeSlotFromOffset(o), Val<T>(k)); },
          [](ConstFramePtr f, size_t o, int k) { return Same<T>(f.Get(FrameLayout::Slot<T>::UnsafeSlotFromOffset(o)), k); }};
}
const std::vector<TypeOps>& Ops() {
  static const auto* r = new std::vector<TypeOps>{
      Make<char>("char", true), Make<Counted>("counted", false), Make<double>("double", true), Make<OptionalValue<float>>("optional float", true),
      Make<Small>("small", false), Make<std::string>("string", false), Make<long double>("long double", true), Make<int16_t>("int16", true),
      Make<OptionalValue<std::string>>("optional string", false), Make<bool>("bool", true), Make<float>("float", true), Make<Tiny>("tiny", false)};
  return *r;
}
constexpr int kTiny = 11, kOptFloat = 3, kString = 5, kOptString = 8, kBool = 9, kFloat = 10;

struct Frame {
  FrameLayout layout;
  std::vector<Field> fields;    // with memory of their own
  std::vector<Field> registered;  // everything that HasField reports
  size_t end = 0, align = 1;
};
struct Building {
  FrameLayout::Builder b;
  Frame f;
  int last = -1;

  void Add(int t) {
    const auto& o = Ops()[t];
    size_t at = o.add(b);
    MC_EQ(at % o.align, 0, "offset of a slot is not aligned");
    MC_CHECK(at >= f.end, "a slot overlaps with earlier ones");
    MC_CHECK(at < f.end + o.align, "padding is larger than needed");
    if (last == t) MC_EQ(at, f.end, "consecutive slots of one type are not an array");
    f.fields.push_back({at, t});
    Registered(at, t);
    f.end = at + o.size;
    f.align = std::max(f.align, o.align);
    last = t;
  }
  void Registered(size_t at, int t) {
    f.registered.push_back({at, t});
    if (t == kOptFloat) f.registered.push_back({at, kBool}), f.registered.push_back({at + offsetof(OptionalValue<float>, value), kFloat});
    if (t == kOptString) f.registered.push_back({at, kBool}), f.registered.push_back({at + offsetof(OptionalValue<std::string>, value), kString});
  }
  void Sub(const Frame& s) {
    size_t at = b.AddSubFrame(s.layout).byte_offset();
    MC_EQ(at % s.layout.AllocAlignment(), 0, "offset of a subframe is not aligned");
    MC_CHECK(at >= f.end, "a subframe overlaps with earlier slots");
    for (auto& x : s.fields) f.fields.push_back({at + x.offset, x.type});
    for (auto& x : s.registered) f.registered.push_back({at + x.offset, x.type});
    f.end = at + s.layout.AllocSize();
    f.align = std::max(f.align, s.layout.AllocAlignment());
    last = -1;
  }
  Frame Build() {
    f.layout = std::move(b).Build();
    MC_EQ(f.layout.AllocAlignment(), f.align, "alignment of the layout");
    MC_EQ(f.layout.AllocSize(), (f.end + f.align - 1) / f.align * f.align, "size of the layout");
    return std::move(f);
  }
};
Frame MakeFrame(std::vector<int> types, const Frame* sub = nullptr) {
  Building b;
  for (int t : types) b.Add(t);
  if (sub) b.Sub(*sub);
  return b.Build();
}

// Every object of the frame at p exists and nothing else does.
void Objects(const Frame& f, const char* p, int n, const std::string& what) {
  std::set<const void*> want;
  for (int i = 0; i < n; ++i)
    for (auto& x : f.fields)
      if (Ops()[x.type].counted) want.insert(p + i * f.layout.AllocSize() + x.offset);
  MC_CHECK(Counted::Live() == want, "constructed objects: " << Counted::Live().size() << ", expected " << want.size() << ": " << what);
  MC_CHECK(Counted::Trouble().empty(), Counted::Trouble() << ": " << what);
}

void UseFrame(const Frame& f, FramePtr p, const std::string& what, int base) {
  for (auto& x : f.fields)
    if (Ops()[x.type].zero) MC_CHECK(Ops()[x.type].is(p, x.offset, 0) || x.type == kOptFloat, "memory is not zero: " << Ops()[x.type].name << ": " << what);
  for (auto& x : f.fields)
    if (x.type == kOptFloat) MC_CHECK(!p.Get(FrameLayout::Slot<OptionalValue<float>>::UnsafeSlotFromOffset(x.offset)).present, "an optional is present: " << what);
  for (size_t i = 0; i < f.fields.size(); ++i) Ops()[f.fields[i].type].set(p, f.fields[i].offset, base + i);
  for (size_t i = 0; i < f.fields.size(); ++i) MC_CHECK(Ops()[f.fields[i].type].is(p, f.fields[i].offset, base + i), "a slot has lost its value: " << Ops()[f.fields[i].type].name << ": " << what);
}

void Start() {
  Counted::Live().clear();
  Counted::Trouble().clear();
}

MC_HARNESS(frames) {
  Start();
  static const auto* f1 = new Frame(MakeFrame({0}));
  static const auto* f2 = new Frame(MakeFrame({1, 0, 1}));
  static const auto* f3 = new Frame(MakeFrame({5, 6}, f2));
  static const auto* f0 = new Frame(MakeFrame({}));
  static const auto* f4 = new Frame(MakeFrame({4, kOptFloat}));
  static const auto* f5 = new Frame(MakeFrame({kTiny, kTiny}));
  const Frame* subs[] = {f1, f2, f3, f0, f4, f5};
  Building b;
  std::string what;
  int n = mc::tier(3, 4);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(10 + 6 + 1);
    if (k == 16) break;
    if (k == 9) k = kTiny;
    else if (k > 9) k += 10;
    if (k < 20) b.Add(k), what += std::string(Ops()[k].name) + ", ";
    else b.Sub(*subs[k - 20]), what += mc::cat("frame ", k - 20, ", ");
    mc::step();
  }
  MC_SAY(what);
  Frame f = b.Build();
  // Registered fields.
  std::set<std::pair<size_t, int>> reg;
  for (auto& x : f.registered) reg.insert({x.offset, x.type});
  std::set<size_t> offsets = {0, f.layout.AllocSize()};
  for (auto& x : f.registered) offsets.insert(x.offset), offsets.insert(x.offset + 1), offsets.insert(x.offset + 4);
  for (size_t o : offsets)
    for (int t = 0; t < int(Ops().size()); ++t) MC_EQ(f.layout.HasField(o, Ops()[t].info), reg.count({o, t}) > 0, "HasField of " << Ops()[t].name << " at " << o << ": " << what);
  // One frame; its surroundings stay as they are.
  size_t size = f.layout.AllocSize(), al = f.layout.AllocAlignment();
  for (int blocks : {-1, 0, 1, 3}) {
    int m = blocks < 0 ? 1 : blocks;
    std::vector<char> mem(size * m + 3 * 32, char(0xAB));
    char* p = mem.data() + 32;
    while (reinterpret_cast<uintptr_t>(p) % al) ++p;
    if (blocks < 0) f.layout.InitializeAlignedAlloc(p);
    else f.layout.InitializeAlignedAllocN(p, m);
    Objects(f, p, m, "after construction: " + what);
    for (int i = 0; i < m; ++i) UseFrame(f, FramePtr(p + i * size, &f.layout), what, i * 40 + 1);
    for (char* q = mem.data(); q < mem.data() + mem.size(); ++q) {
      if (q < p || q >= p + size * m) MC_CHECK(*q == char(0xAB), "memory outside of the frame is written: " << what);
    }
    Objects(f, p, m, "after use: " + what);
    if (blocks < 0) f.layout.DestroyAlloc(p);
    else f.layout.DestroyAllocN(p, m);
    Objects(f, p, 0, "after destruction: " + what);
  }
  mc::state(what);
}

MC_HARNESS(allocations) {
  Start();
  static const auto* f2 = new Frame(MakeFrame({1, 0, 1}));
  static const auto* f3 = new Frame(MakeFrame({5, 6, 4}, f2));
  static const auto* f0 = new Frame(MakeFrame({}));
  const Frame* fs[] = {f0, f2, f3};
  // Histories over three allocations.
  std::vector<MemoryAllocation> a(3);
  int of[3] = {-1, -1, -1};
  int base[3] = {0, 0, 0};
  std::string what;
  int n = mc::tier(3, 5);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(3), op = mc::choose(6);
    what += mc::cat(k, ":", op, " ");
    if (op < 3) {
      a[k] = MemoryAllocation(&fs[op]->layout);
      of[k] = op;
      base[k] = 10 * i + 1;
      auto p = a[k].frame();
      MC_EQ(reinterpret_cast<uintptr_t>(p.GetRawPointer(0)) % fs[op]->layout.AllocAlignment(), 0, "alignment");
      UseFrame(*fs[op], p, what, base[k]);
    } else if (op == 3) {
      a[k] = MemoryAllocation();
      of[k] = -1;
    } else {
      int j = (k + op - 3) % 3;
      a[k] = std::move(a[j]);
      of[k] = of[j], base[k] = base[j];
      of[j] = -1;
    }
    mc::step();
    std::set<const void*> want;
    for (int j = 0; j < 3; ++j) {
      MC_EQ(a[j].IsValid(), of[j] >= 0, "IsValid: " << what);
      if (of[j] < 0) continue;
      const auto& f = *fs[of[j]];
      const auto& ca = a[j];
      for (size_t x = 0; x < f.fields.size(); ++x) {
        MC_CHECK(Ops()[f.fields[x].type].is(ca.frame(), f.fields[x].offset, base[j] + x), "an allocation has lost its values: " << what);
        if (Ops()[f.fields[x].type].counted) want.insert(ca.frame().GetRawPointer(f.fields[x].offset));
      }
    }
    MC_CHECK(Counted::Live() == want, "objects: " << Counted::Live().size() << ", expected " << want.size() << ": " << what);
    MC_CHECK(Counted::Trouble().empty(), Counted::Trouble() << ": " << what);
  }
  mc::state(what);
  a.clear();
  MC_CHECK(Counted::Live().empty() && Counted::Trouble().empty(), "objects stay after the allocations: " << what);
}

MC_HARNESS(register_unsafe) {
  Start();
  FrameLayout::Builder b;
  auto s = b.AddSlot<int64_t>();
  auto c = b.AddSlot<char>();
  (void)s;
  size_t end = c.byte_offset() + 1;
  struct T1 {};
  struct T2 {};
  std::set<std::pair<size_t, int>> reg = {{0, 0}, {8, 1}};
  const std::type_info* types[] = {&typeid(int64_t), &typeid(char), &typeid(T1), &typeid(T2)};
  std::string what;
  for (int i = 0; i < mc::tier(2, 3); ++i) {
    static const size_t kOffsets[] = {0, 8, 9, 10, ~size_t(0) - 1, ~size_t(0)};
    static const size_t kSizes[] = {0, 1, 8, ~size_t(0)};
    size_t o = kOffsets[mc::choose(6)], n = kSizes[mc::choose(4)];
    int t = mc::choose(4);
    auto st = b.RegisterUnsafeSlot(o, n, *types[t]);
    bool fits = o <= end && n <= end - o && o != ~size_t(0);
    bool dup = reg.count({o, t});
    MC_EQ(st.ok(), fits && !dup, "RegisterUnsafeSlot(" << o << ", " << n << ") of type " << t << ": " << what);
    if (fits) reg.insert({o, t});
    what += mc::cat(o, ",", n, ",", t, " ");
    mc::step();
  }
  auto l = std::move(b).Build();
  for (size_t o = 0; o <= 17; ++o)
    for (int t = 0; t < 4; ++t) MC_EQ(l.HasField(o, *types[t]), reg.count({o, t}) > 0, "HasField(" << o << ") of type " << t << ": " << what);
  mc::state(what);
}

// ---- Values

// A value and what it is: the name of its type and its contents.
struct V {
  TypedValue v;
  std::string type, text;
  std::vector<V> fields;
  std::string Id() const { return type + " " + text; }
  int counted = 0;  // objects inside
};
V Atom(TypedValue v, std::string type, std::string text, int counted = 0) { return {std::move(v), std::move(type), std::move(text), {}, counted}; }

std::vector<V> Atoms() {
  static bool init = (InitArolla(), true);
  (void)init;
  std::vector<V> r;
  r.push_back(Atom(TypedValue::FromValue(1), "INT32", "1"));
  r.push_back(Atom(TypedValue::FromValue(Text("a")), "TEXT", "'a'"));
  r.push_back(Atom(TypedValue::FromValue(Counted(5)), "COUNTED", "5", 1));
  r.push_back(Atom(TypedValue::FromValue(OptionalValue<float>(2.5f)), "OPTIONAL_FLOAT32", "optional_float32{2.5}"));
  r.back().fields = {Atom(TypedValue::FromValue(true), "BOOLEAN", "true"), Atom(TypedValue::FromValue(2.5f), "FLOAT32", "2.5")};
  r.push_back(Atom(TypedValue::FromValue(kUnit), "UNIT", "unit"));
  r.push_back(Atom(TypedValue::FromValue(true), "BOOLEAN", "true"));
  r.push_back(Atom(TypedValue::FromValue(OptionalValue<float>()), "OPTIONAL_FLOAT32", "optional_float32{NA}"));
  r.back().fields = {Atom(TypedValue::FromValue(false), "BOOLEAN", "false"), Atom(TypedValue::FromValue(0.f), "FLOAT32", "0.")};
  r.push_back(Atom(TypedValue::FromValue(Bytes("a")), "BYTES", "b'a'"));
  r.push_back(Atom(TypedValue::FromValue(int64_t{1}), "INT64", "int64{1}"));
  r.push_back(Atom(TypedValue::FromValue(GetQType<int>()), "QTYPE", "INT32"));
  r.push_back(Atom(TypedValue::FromValue(Counted(6)), "COUNTED", "6", 1));
  r.push_back(Atom(TypedValue::FromValue(0), "INT32", "0"));
  r.push_back(Atom(*TypedValue::FromValueWithQType(2.5, GetWeakFloatQType()), "WEAK_FLOAT", "weak_float{2.5}"));
  r.push_back(Atom(TypedValue::FromValue(2.5), "FLOAT64", "float64{2.5}"));
  r.push_back(Atom(GetUnspecifiedQValue(), "UNSPECIFIED", "unspecified"));
  return r;
}

V Tuple(const std::vector<V>& f, int how) {
  std::vector<TypedRef> refs;
  std::vector<TypedValue> vals;
  V r = Atom(TypedValue::FromValue(0), "tuple<", "(");
  for (auto& x : f) {
    refs.push_back(x.v.AsRef());
    vals.push_back(x.v);
    if (&x != &f[0]) r.type += ",", r.text += ", ";
    r.type += x.type;
    r.text += x.text;
    r.counted += x.counted;
  }
  r.type += ">";
  r.text += ")";
  r.fields = f;
  r.v = how ? MakeTuple(refs) : MakeTuple(vals);
  return r;
}
std::vector<std::string> Names(int n, int set) {
  std::vector<std::string> r;
  for (int i = 0; i < n; ++i) r.push_back(set == 0 ? std::string(1, 'a' + i) : std::string(1, 'b' + i));
  return r;
}
V Named(const std::vector<V>& f, int set, int how) {
  V r = Tuple(f, 0);
  auto names = Names(f.size(), set);
  std::vector<TypedRef> refs;
  std::vector<TypedValue> vals;
  for (auto& x : f) refs.push_back(x.v.AsRef()), vals.push_back(x.v);
  auto v = how ? MakeNamedTuple(names, refs) : MakeNamedTuple(names, vals);
  MC_CHECK(v.ok(), v.status().message());
  r.v = *v;
  r.type = "namedtuple<";
  for (size_t i = 0; i < f.size() && i < 5; ++i) r.type += (i ? "," : "") + names[i] + "=" + f[i].type;
  if (f.size() > 5) r.type += mc::cat(", [", f.size() - 5, " fields]");
  r.type += ">";
  r.text = r.type + "{" + r.text + "}";
  return r;
}

V ChooseValue(int depth) {
  auto atoms = Atoms();
  int kind = depth == 0 ? 0 : mc::choose(3);
  if (kind == 0) return atoms[mc::choose(depth == mc::tier(2, 2) ? atoms.size() : mc::tier(5, 8))];
  int n = mc::range(0, 2);
  std::vector<V> f;
  for (int i = 0; i < n; ++i) f.push_back(ChooseValue(depth - 1));
  if (kind == 1) return Tuple(f, 1);
  return Named(f, mc::tier(1, 2) == 1 ? n % 2 : mc::choose(2), n % 2);
}

void Is(TypedRef r, const V& v, const std::string& what) {
  MC_EQ(r.GetType()->name(), v.type, "type: " << what);
  MC_EQ(r.GetType(), v.v.GetType(), "type: " << what);
  if (v.text.find("COUNTED") == std::string::npos && v.counted == 0) MC_EQ(r.Repr(), v.text, "text: " << what);
  MC_EQ(TypedValue(r).GetFingerprint(), v.v.GetFingerprint(), "fingerprint: " << what);
  MC_EQ(r.GetFieldCount(), v.fields.size(), "number of fields: " << what);
  for (size_t i = 0; i < v.fields.size(); ++i) Is(r.GetField(i), v.fields[i], what);
}

template <class T>
void As(const TypedValue& v, const std::string& what) {
  bool same = v.GetType()->type_info() == typeid(T);
  MC_EQ(v.As<T>().ok(), same, "As of the value: " << what);
  MC_EQ(v.AsRef().As<T>().ok(), same, "As of the reference: " << what);
  if (same) MC_EQ(static_cast<const void*>(&*v.As<T>()), v.GetRawPointer(), "As: " << what);
}

MC_HARNESS(values) {
  Start();
  int expected = 0;
  {
    V v = ChooseValue(2);
    auto what = v.Id();
    MC_SAY(what);
    Is(v.v.AsRef(), v, what);
    size_t before = Counted::Live().size();
    QTypePtr t = v.v.GetType();
    As<int>(v.v, what), As<double>(v.v, what), As<Text>(v.v, what), As<Counted>(v.v, what), As<Unit>(v.v, what), As<OptionalValue<float>>(v.v, what);
    // Copies share, references do not.
    {
      TypedValue a = v.v, b = a, c(v.v.AsRef());
      MC_EQ(Counted::Live().size(), before + v.counted, "a copy of a value copies: " << what);
      a = b;
      a = *&a;
      b = std::move(a);
      a = b;
      Is(a.AsRef(), v, what);
      Is(b.AsRef(), v, what);
      Is(c.AsRef(), v, what);
      c = b;
      MC_EQ(Counted::Live().size(), before, "an overwritten value stays: " << what);
      mc::step();
    }
    MC_EQ(Counted::Live().size(), before, "values stay: " << what);
    // Slots between other slots.
    {
      FrameLayout::Builder b;
      auto s0 = b.AddSlot<char>();
      auto s1 = AddSlot(t, &b);
      auto s2 = b.AddSlot<std::string>();
      auto s3 = AddSlot(t, &b);
      auto s4 = AddSlot(GetQType<int64_t>(), &b);
      auto l = std::move(b).Build();
      {
        MemoryAllocation m(&l);
        auto f = m.frame();
        MC_EQ(Counted::Live().size(), before + 2 * v.counted, "objects of a frame: " << what);
        f.Set(s0, 'x');
        f.Set(s2, std::string(40, 'y'));
        f.Set(*s4.ToSlot<int64_t>(), int64_t{-1});
        auto dflt = TypedValue::UnsafeFromTypeDefaultConstructed(t);
        auto others = [&] { return f.Get(s0) == 'x' && f.Get(s2) == std::string(40, 'y') && f.Get(*s4.ToSlot<int64_t>()) == -1; };
        MC_EQ(TypedValue::FromSlot(s1, f).GetFingerprint(), dflt.GetFingerprint(), "a new slot: " << what);
        MC_CHECK(v.v.CopyToSlot(s1, f).ok(), "CopyToSlot: " << what);
        Is(TypedRef::FromSlot(s1, f), v, what);
        MC_EQ(TypedValue::FromSlot(s3, f).GetFingerprint(), dflt.GetFingerprint(), "another slot: " << what);
        // Onto itself, to another slot, and wrong types.
        MC_CHECK(TypedRef::FromSlot(s1, f).CopyToSlot(s1, f).ok(), "CopyToSlot of itself: " << what);
        Is(TypedRef::FromSlot(s1, f), v, what);
        s1.CopyTo(f, s3, f);
        Is(TypedRef::FromSlot(s3, f), v, what);
        MC_EQ(v.v.CopyToSlot(s4, f).ok(), t == s4.GetType(), "CopyToSlot to a slot of another type: " << what);
        if (t == s4.GetType()) f.Set(*s4.ToSlot<int64_t>(), int64_t{-1});
        auto other = TypedValue::FromValue(int64_t{9});
        if (t != s4.GetType()) MC_CHECK(!other.CopyToSlot(s1, f).ok(), "CopyToSlot of another type: " << what);
        MC_CHECK(others(), "other slots have changed: " << what);
        // Subslots.
        MC_EQ(s3.SubSlotCount(), v.fields.size(), "SubSlotCount: " << what);
        for (size_t i = 0; i < v.fields.size(); ++i) {
          auto sub = s3.SubSlot(i);
          MC_CHECK(sub.byte_offset() >= s3.byte_offset() && sub.byte_offset() + sub.GetType()->type_layout().AllocSize() <= s3.byte_offset() + t->type_layout().AllocSize(), "a subslot is outside: " << what);
          Is(TypedRef::FromSlot(sub, f), v.fields[i], what);
        }
        // Reset of a part and of the whole.
        if (!v.fields.empty() && t->name().substr(0, 8) != "OPTIONAL") {
          auto sub = s3.SubSlot(v.fields.size() - 1);
          sub.Reset(f);
          MC_EQ(TypedValue::FromSlot(sub, f).GetFingerprint(), TypedValue::UnsafeFromTypeDefaultConstructed(sub.GetType()).GetFingerprint(), "Reset of a subslot: " << what);
          if (v.fields.size() > 1) Is(TypedRef::FromSlot(s3.SubSlot(0), f), v.fields[0], what);
          s1.CopyTo(f, s3, f);
        }
        s1.Reset(f);
        MC_EQ(TypedValue::FromSlot(s1, f).GetFingerprint(), dflt.GetFingerprint(), "Reset: " << what);
        Is(TypedRef::FromSlot(s3, f), v, what);
        MC_CHECK(others(), "other slots have changed by Reset: " << what);
        mc::step();
      }
      MC_EQ(Counted::Live().size(), before, "objects stay after the frame: " << what);
    }
    // From fields.
    if (!v.fields.empty()) {
      std::vector<TypedRef> refs;
      std::vector<TypedValue> vals;
      for (auto& x : v.fields) refs.push_back(x.v.AsRef()), vals.push_back(x.v);
      auto a = TypedValue::FromFields(t, absl::MakeConstSpan(refs));
      auto b = TypedValue::FromFields(t, absl::MakeConstSpan(vals));
      MC_CHECK(a.ok() && b.ok(), "FromFields: " << what);
      Is(a->AsRef(), v, what);
      Is(b->AsRef(), v, what);
      refs.pop_back();
      MC_CHECK(!TypedValue::FromFields(t, absl::MakeConstSpan(refs)).ok(), "FromFields accepts a missing field: " << what);
      auto odd = TypedValue::FromValue(GetQType<float>());
      refs.push_back(odd.AsRef());
      MC_EQ(TypedValue::FromFields(t, absl::MakeConstSpan(refs)).ok(), v.fields.back().type == "QTYPE", "FromFields accepts a field of another type: " << what);
      refs.push_back(odd.AsRef());
      MC_CHECK(!TypedValue::FromFields(t, absl::MakeConstSpan(refs)).ok(), "FromFields accepts an extra field: " << what);
    }
    // Named fields and decay.
    bool named = v.type.rfind("namedtuple", 0) == 0, tuple = v.type.rfind("tuple", 0) == 0;
    MC_EQ(IsTupleQType(t), tuple, "IsTupleQType: " << what);
    MC_EQ(IsNamedTupleQType(t), named, "IsNamedTupleQType: " << what);
    MC_EQ(IsOptionalQType(t), v.type.rfind("OPTIONAL", 0) == 0, "IsOptionalQType: " << what);
    auto d = DecayDerivedQValue(v.v);
    if (named) {
      MC_CHECK(IsTupleQType(d.GetType()), "a decayed named tuple is a tuple: " << what);
      MC_EQ(d.GetFingerprint(), Tuple(v.fields, 0).v.GetFingerprint(), "a decayed named tuple: " << what);
      MC_CHECK(d.GetFingerprint() != v.v.GetFingerprint(), "fingerprint of a named tuple and a tuple: " << what);
      auto back = UnsafeDowncastDerivedQValue(t, d);
      Is(back.AsRef(), v, what);
      auto names = GetFieldNames(t);
      MC_EQ(names.size(), v.fields.size(), "number of names: " << what);
      for (size_t i = 0; i < names.size(); ++i) {
        MC_EQ(GetFieldIndexByName(t, names[i]).value_or(-1), i, "index of " << names[i] << ": " << what);
        MC_EQ(GetFieldQTypeByName(t, names[i]), v.fields[i].v.GetType(), "type of " << names[i] << ": " << what);
        auto fv = GetFieldByName(v.v.AsRef(), names[i]);
        MC_CHECK(fv.ok(), "GetFieldByName: " << what);
        Is(*fv, v.fields[i], what);
      }
      MC_CHECK(!GetFieldIndexByName(t, "zz").has_value() && GetFieldQTypeByName(t, "zz") == nullptr && !GetFieldByName(v.v.AsRef(), "zz").ok(), "an unknown name: " << what);
    } else if (v.type == "WEAK_FLOAT") {
      MC_EQ(d.GetType(), GetQType<double>(), "a decayed weak float");
    } else {
      MC_EQ(d.GetType(), t, "DecayDerivedQValue of a plain type: " << what);
    }
    mc::state(what);
    (void)expected;
  }
  MC_CHECK(Counted::Live().empty(), "objects stay");
  MC_CHECK(Counted::Trouble().empty(), Counted::Trouble());
}

// Two values have the same fingerprint exactly if they are the same, and types are unique.
MC_HARNESS(pairs) {
  Start();
  {
    auto pick = [](int salt) {
      auto atoms = Atoms();
      int kind = mc::choose(4);
      if (kind == 0) return atoms[mc::choose(atoms.size())];
      int n = mc::range(0, 2);
      std::vector<V> f;
      for (int i = 0; i < n; ++i) {
        int k = mc::choose(mc::tier(5, 8));
        static const int kAt[] = {0, 11, 3, 6, 2, 8, 9, 4};
        f.push_back(atoms[kAt[k]]);
      }
      if (kind == 1) return Tuple(f, salt);
      if (kind == 2) return Named(f, 1, salt);
      // One level more.
      return Tuple({Tuple(f, salt)}, salt);
    };
    V a = pick(0), b = pick(1);
    MC_SAY(a.Id() << " and " << b.Id());
    MC_EQ(a.v.GetFingerprint() == b.v.GetFingerprint(), a.Id() == b.Id(), "fingerprints of " << a.Id() << " and " << b.Id());
    MC_EQ(a.v.GetType() == b.v.GetType(), a.type == b.type, "types of " << a.Id() << " and " << b.Id());
    // Slots of these types.
    FrameLayout::Builder bl;
    auto s = AddSlot(a.v.GetType(), &bl), s2 = AddSlot(b.v.GetType(), &bl);
    auto l = std::move(bl).Build();
    {
      MemoryAllocation m(&l);
      MC_CHECK(a.v.CopyToSlot(s, m.frame()).ok() && b.v.CopyToSlot(s2, m.frame()).ok(), "CopyToSlot");
      MC_EQ(b.v.CopyToSlot(s, m.frame()).ok(), a.type == b.type, "CopyToSlot of another type: " << a.Id() << ", " << b.Id());
      Is(TypedRef::FromSlot(s, m.frame()), a.type == b.type ? b : a, "slot");
      Is(TypedRef::FromSlot(s2, m.frame()), b, "slot");
    }
    mc::state(a.Id() + b.Id());
  }
  MC_CHECK(Counted::Live().empty(), "objects stay");
}

// Long named tuples differ in names that their type name does not show.
MC_HARNESS(long_names) {
  Start();
  auto atoms = Atoms();
  int n = mc::range(4, 7);
  int change = mc::range(-1, n - 1);
  int how = mc::choose(3);
  std::vector<V> f(n, atoms[0]);
  auto a = Names(n, 0), b = a;
  auto g = f;
  if (change >= 0) {
    if (how == 0) b[change] = "z";
    if (how == 1) g[change] = atoms[11];
    if (how == 2) g[change] = atoms[8];
  }
  auto make = [](std::vector<std::string> names, const std::vector<V>& f) {
    std::vector<TypedValue> v;
    for (auto& x : f) v.push_back(x.v);
    return *MakeNamedTuple(names, v);
  };
  auto x = make(a, f), y = make(b, g);
  MC_EQ(x.GetFingerprint() == y.GetFingerprint(), change < 0, "fingerprints of long named tuples");
  MC_EQ(x.GetType() == y.GetType(), change < 0 || how == 1, "types of long named tuples");
  // Invalid names.
  auto dup = a;
  if (change > 0) dup[change] = a[change - 1];
  auto tt = DecayDerivedQType(x.GetType());
  MC_EQ(MakeNamedTupleQType(dup, tt).ok(), change <= 0, "duplicated names");
  auto less = a;
  less.pop_back();
  MC_CHECK(!MakeNamedTupleQType(less, tt).ok(), "too few names");
  MC_CHECK(!MakeNamedTupleQType(a, x.GetType()).ok(), "a named tuple of a named tuple");
  MC_CHECK(!MakeNamedTupleQType(a, GetQType<int>()).ok(), "a named tuple of a scalar");
  MC_EQ(*MakeNamedTupleQType(a, tt), x.GetType(), "a named tuple type is unique");
  mc::state(mc::cat(n, change, how));
}

// Requested types and existing slots.
MC_HARNESS(slot_maps) {
  QTypePtr types[] = {nullptr, GetQType<int>(), GetQType<float>()};
  absl::flat_hash_map<std::string, QTypePtr> want;
  std::vector<std::pair<std::string, QTypePtr>> order;
  absl::flat_hash_map<std::string, QTypePtr> have;
  std::string what;
  bool missed = false, mismatch = false, unwanted = false;
  for (auto n : {"a", "b", "c"}) {
    int w = mc::choose(3), h = mc::choose(3);
    if (w) want[n] = types[w], order.emplace_back(n, types[w]);
    if (h) have[n] = types[h];
    missed |= w && !h;
    unwanted |= h && !w;
    mismatch |= w && h && w != h;
    what += mc::cat(n, w, h, " ");
  }
  if (mc::flag()) std::reverse(order.begin(), order.end());
  MC_SAY(what);
  FrameLayout::Builder b;
  auto slots = AddSlotsMap(have, &b);
  auto l = std::move(b).Build();
  MC_CHECK(SlotsToTypes(slots) == have, "SlotsToTypes: " << what);
  for (auto& [n, s] : slots) MC_CHECK(l.HasField(s.byte_offset(), s.GetType()->type_info()), "a slot is not in the layout: " << what);
  for (int f = 0; f < 4; ++f) {
    MC_EQ(VerifySlotTypes(want, slots, f & 1, f & 2).ok(), !mismatch && !((f & 1) && unwanted) && !((f & 2) && missed), "VerifySlotTypes " << f << ": " << what);
  }
  auto r = FindSlotsAndVerifyTypes(order, slots);
  MC_EQ(r.ok(), !mismatch && !missed, "FindSlotsAndVerifyTypes: " << what);
  if (r.ok()) {
    MC_EQ(r->size(), order.size(), "number of slots: " << what);
    for (size_t i = 0; i < order.size(); ++i) MC_CHECK((*r)[i] == slots.at(order[i].first), "slot of " << order[i].first << ": " << what);
  }
  auto q = MaybeFindSlotsAndVerifyTypes(order, slots);
  MC_EQ(q.ok(), !mismatch, "MaybeFindSlotsAndVerifyTypes: " << what);
  if (q.ok()) {
    MC_EQ(q->size(), order.size(), "number of slots: " << what);
    for (size_t i = 0; i < order.size(); ++i) {
      bool has = slots.contains(order[i].first);
      MC_EQ((*q)[i].has_value(), has, "slot of " << order[i].first << ": " << what);
      if (has) MC_CHECK(*(*q)[i] == slots.at(order[i].first), "slot of " << order[i].first << ": " << what);
    }
  }
  // By position.
  std::vector<QTypePtr> ts;
  for (auto& [n, t] : order) ts.push_back(t);
  FrameLayout::Builder b2;
  auto v = AddSlots(ts, &b2);
  auto nv = AddNamedSlots(order, &b2);
  auto l2 = std::move(b2).Build();
  MC_CHECK(SlotsToTypes(v) == ts, "AddSlots: " << what);
  std::set<size_t> offs;
  for (size_t i = 0; i < ts.size(); ++i) {
    MC_EQ(nv[i].first, order[i].first, "AddNamedSlots: " << what);
    MC_EQ(nv[i].second.GetType(), ts[i], "AddNamedSlots: " << what);
    offs.insert(v[i].byte_offset());
    offs.insert(nv[i].second.byte_offset());
  }
  MC_EQ(offs.size(), 2 * ts.size(), "slots share memory: " << what);
  bool ii = ts.size() == 2 && ts[0] == types[1] && ts[1] == types[2];
  MC_EQ((TypedSlot::ToSlots<int, float>(v).ok()), ii, "ToSlots: " << what);
  if (ii) MC_EQ(std::get<1>(*TypedSlot::ToSlots<int, float>(v)).byte_offset(), v[1].byte_offset(), "ToSlots: " << what);
  mc::state(what);
}

// Optional types: every base type has one.
template <class T>
void Optional(T a, const char* name) {
  QTypePtr t = GetQType<T>(), o = GetQType<OptionalValue<T>>();
  MC_EQ(*ToOptionalQType(t), o, name);
  MC_EQ(*ToOptionalQType(o), o, name);
  MC_EQ(DecayOptionalQType(o), t, name);
  MC_EQ(DecayOptionalQType(t), t, name);
  MC_CHECK(IsOptionalQType(o) && !IsOptionalQType(t), name);
  MC_EQ(o->value_qtype(), t, name);
  auto v = TypedValue::FromValue(OptionalValue<T>(a)), m = *CreateMissingValue(o);
  MC_CHECK(UnsafeIsPresent(v.AsRef()) && !UnsafeIsPresent(m.AsRef()), name);
  MC_CHECK(!CreateMissingValue(t).ok(), name);
  MC_EQ(m.GetFingerprint(), TypedValue::FromValue(OptionalValue<T>()).GetFingerprint(), name);
  MC_CHECK(m.GetFingerprint() != v.GetFingerprint(), name);
  MC_CHECK(m.GetFingerprint() != TypedValue::FromValue(OptionalValue<T>(T())).GetFingerprint(), name);
  FrameLayout::Builder b;
  auto s = AddSlot(o, &b), st = AddSlot(t, &b);
  auto l = std::move(b).Build();
  MemoryAllocation al(&l);
  MC_CHECK(v.CopyToSlot(s, al.frame()).ok(), name);
  MC_CHECK(al.frame().Get(*GetPresenceSubslotFromOptional(s)), name);
  MC_CHECK(!GetPresenceSubslotFromOptional(st).ok() && !GetValueSubslotFromOptional(st).ok(), name);
  if constexpr (!std::is_same_v<T, Unit>) {
    auto vs = *GetValueSubslotFromOptional(s);
    MC_EQ(vs.GetType(), t, name);
    MC_EQ(TypedValue::FromSlot(vs, al.frame()).GetFingerprint(), TypedValue::FromValue(a).GetFingerprint(), name);
  }
}
MC_HARNESS(optionals) {
  Atoms();
  switch (mc::choose(9)) {
    case 0: Optional<int>(3, "int"); break;
    case 1: Optional<int64_t>(3, "int64"); break;
    case 2: Optional<float>(3, "float"); break;
    case 3: Optional<double>(3, "double"); break;
    case 4: Optional<bool>(true, "bool"); break;
    case 5: Optional<Bytes>(Bytes("x"), "bytes"); break;
    case 6: Optional<Text>(Text("x"), "text"); break;
    case 7: Optional<uint64_t>(3, "uint64"); break;
    case 8: Optional<Unit>(kUnit, "unit"); break;
  }
  MC_CHECK(!ToOptionalQType(GetQType<Counted>()).ok() && !ToOptionalQType(MakeTupleQType({})).ok(), "types without optional");
  MC_EQ(*ToOptionalQType(GetWeakFloatQType()), GetOptionalWeakFloatQType(), "optional weak float");
  MC_EQ(DecayOptionalQType(GetOptionalWeakFloatQType()), GetWeakFloatQType(), "weak float");
  mc::state("x");
}

// ---- Derived types

class Derived final : public QType, public DerivedQTypeInterface {
 public:
  Derived(QTypePtr base, const std::type_info& info, FrameLayout layout, std::vector<TypedSlot> fields, QTypePtr value)
      : QType(ConstructorArgs{.name = "DERIVED", .type_info = info, .type_layout = std::move(layout), .type_fields = std::move(fields), .value_qtype = value}), base_(base) {}
  QTypePtr GetBaseQType() const final { return base_; }
  void UnsafeCopy(const void*, void*) const final {}
  void UnsafeCombineToFingerprintHasher(const void*, FingerprintHasher*) const final {}

 private:
  QTypePtr base_;
};

MC_HARNESS(derived) {
  Atoms();
  auto tuple = MakeTupleQType({GetQType<int>(), GetQType<double>()});
  QTypePtr bases[] = {nullptr, GetQType<int>(), tuple, GetQType<OptionalValue<double>>(), GetWeakFloatQType()};
  QTypePtr base = bases[mc::choose(5)];
  bool ok = base != nullptr && base != GetWeakFloatQType();
  QTypePtr like = base ? base : GetQType<int>();
  const std::type_info& info = mc::flag() ? like->type_info() : typeid(Counted);
  ok &= info == like->type_info();
  FrameLayout layout = like->type_layout();
  if (int k = mc::choose(3)) {
    FrameLayout::Builder b;
    b.AddSubFrame(like->type_layout());
    if (k == 1) b.AddSlot<char>();
    else b.AddSlot<long double>();
    layout = std::move(b).Build();
    ok = false;
  }
  std::vector<TypedSlot> fields = like->type_fields();
  size_t n = fields.size();
  std::string what;
  switch (mc::choose(6)) {
    case 0: break;
    case 1: fields.clear(); break;
    case 2:
      if (n) fields.pop_back(), ok &= n == 1;
      break;
    case 3:
      if (n) fields[1] = TypedSlot::UnsafeFromOffset(fields[1].GetType(), fields[1].byte_offset() - 1), ok = false;
      break;
    case 4:
      if (n) fields[0] = TypedSlot::UnsafeFromOffset(GetQType<float>(), fields[0].byte_offset()), ok = false;
      break;
    case 5:  // derived types of the fields are fine
      if (n) fields[1] = TypedSlot::UnsafeFromOffset(GetWeakFloatQType(), fields[1].byte_offset());
      break;
  }
  QTypePtr values[] = {nullptr, GetQType<double>(), GetWeakFloatQType(), GetQType<int>()};
  QTypePtr value = values[mc::choose(4)];
  if (base && value && base->value_qtype()) ok &= DecayDerivedQType(value) == DecayDerivedQType(base->value_qtype());
  Derived d(base, info, std::move(layout), fields, value);
  what = mc::cat(base ? base->name() : "null", " fields ", fields.size(), " value ", value ? value->name() : "null");
  MC_SAY(what);
  MC_EQ(VerifyDerivedQType(&d).ok(), ok, "VerifyDerivedQType: " << what << ": " << VerifyDerivedQType(&d).message());
  mc::state(what);
}
MC_HARNESS(slices) {
  auto atoms = Atoms();
  int i[3];
  std::vector<QTypePtr> t;
  std::vector<V> f;
  for (int k = 0; k < 3; ++k) f.push_back(atoms[i[k] = mc::choose(mc::tier(6, 12))]), t.push_back(f.back().v.GetType());
  auto s = MakeSliceQType(t[0], t[1], t[2]);
  MC_CHECK(IsSliceQType(s) && !IsSliceQType(t[0]), "IsSliceQType");
  MC_EQ(s, MakeSliceQType(t[0], t[1], t[2]), "a slice type is unique");
  MC_EQ(s == MakeSliceQType(t[1], t[0], t[2]), t[0] == t[1], "different slice types");
  MC_EQ(DecayDerivedQType(s), MakeTupleQType(t), "a slice is a tuple");
  MC_CHECK(VerifyDerivedQType(s).ok(), "a slice is a derived type");
  auto v = TypedValue::FromFields(s, std::vector<TypedValue>{f[0].v, f[1].v, f[2].v});
  MC_CHECK(v.ok(), "FromFields");
  for (int k = 0; k < 3; ++k) Is(v->GetField(k), f[k], "slice");
  MC_CHECK(v->GetFingerprint() != Tuple(f, 0).v.GetFingerprint(), "fingerprint of a slice and of a tuple");
  mc::state(mc::cat(i[0], ",", i[1], ",", i[2]));
}
}  // namespace

MC_MAIN()
