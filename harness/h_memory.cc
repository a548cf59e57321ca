// Raw memory facilities: alignment, zero memory, spans, overflow checks.
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "arolla/memory/optional_value.h"
#include "arolla/util/demangle.h"
#include "arolla/util/fast_dynamic_downcast_final.h"
#include "arolla/util/is_bzero_constructible.h"
#include "arolla/util/memory.h"
#include "arolla/util/overflow.h"
#include "arolla/util/preallocated_buffers.h"
#include "arolla/util/raw_span.h"
#include "arolla/util/struct_field.h"
#include "arolla/util/switch_index.h"
#include "arolla/util/traceme.h"
#include "arolla/util/unit.h"
#include "mc.h"

namespace {

using i128 = __int128;

MC_HARNESS(zero_buffer) {
  // Every byte of the shared buffer, read in every access width.
  const int width = 1 << mc::choose(4);
  const int block = mc::choose(64);
  const size_t size = arolla::kZeroInitializedBufferSize;
  const char* p = static_cast<const char*>(arolla::GetZeroInitializedBuffer());
  MC_CHECK(p == arolla::GetZeroInitializedBuffer(), "the buffer moves");
  MC_CHECK(reinterpret_cast<uintptr_t>(p) % arolla::kZeroInitializedBufferAlignment == 0, "alignment of the zero buffer");
  MC_CHECK(arolla::kZeroInitializedBufferAlignment >= 32 && size >= 16384, "size and alignment promised by the header");
  for (size_t i = size * block / 64; i + width <= size * (block + 1) / 64; i += width) {
    uint64_t v = 0;
    memcpy(&v, p + i, width);
    MC_EQ(v, 0u, "byte " << i);
    mc::step();
  }
  mc::state(mc::cat(width, " ", block));
}

MC_HARNESS(aligned_alloc) {
  const size_t align = size_t{1} << mc::choose(mc::tier(13, 16));
  const size_t size = align * mc::choose(5);
  MC_SAY("align " << align << " size " << size);
  mc::state(mc::cat(align, " ", size));
  auto p = arolla::AlignedAlloc(std::align_val_t{align}, size);
  MC_CHECK(p != nullptr, "allocation failed");
  MC_CHECK(reinterpret_cast<uintptr_t>(p.get()) % align == 0, "not aligned");
  MC_CHECK(static_cast<size_t>(p.get_deleter().alignment) == align, "the deleter forgot the alignment");
  memset(p.get(), 0xab, size);
  for (size_t a = 1; a <= align; a *= 2) MC_CHECK(arolla::IsAlignedPtr(a, p.get()), "IsAlignedPtr " << a);
  auto q = std::move(p);
  MC_CHECK(p == nullptr && q != nullptr, "move");
  mc::step();
}

MC_HARNESS(is_aligned_ptr) {
  const size_t align = size_t{1} << mc::choose(12);
  const uintptr_t addr = mc::choose(256) + (uintptr_t{1} << (8 + mc::choose(40)));
  MC_EQ(arolla::IsAlignedPtr(align, reinterpret_cast<const void*>(addr)), addr % align == 0, "address " << addr << " alignment " << align);
  MC_CHECK(arolla::IsAlignedPtr(align, nullptr), "null");
  mc::state(mc::cat(align, " ", addr));
}

// ---- types whose default value is all zero bytes

template <class T>
void CheckBzero(const char* name) {
  MC_SAY(name);
  if constexpr (arolla::is_bzero_constructible<T>()) {
    alignas(T) unsigned char a[sizeof(T)], b[sizeof(T)];
    memset(a, 0, sizeof a);
    memset(b, 0, sizeof b);
    T* v = new (a) T();
    const T* z = reinterpret_cast<const T*>(b);
    if constexpr (requires { *v == *z; }) MC_CHECK(*v == *z, name << ": zero bytes are not the default value");
    MC_CHECK(std::is_trivially_destructible_v<T>, name << ": needs a destructor");
  }
  mc::step();
  mc::state(std::string(name));
}
struct NonTrivial {
  int x = 5;
};
struct Pod {
  int x;
  double y;
};

MC_HARNESS(bzero) {
  using arolla::OptionalValue;
  switch (mc::choose(12)) {
    case 0: return CheckBzero<int>("int");
    case 1: return CheckBzero<double>("double");
    case 2: return CheckBzero<OptionalValue<float>>("optional float");
    case 3: return CheckBzero<OptionalValue<int64_t>>("optional int64");
    case 4: return CheckBzero<OptionalValue<arolla::Unit>>("optional unit");
    case 5: return CheckBzero<OptionalValue<bool>>("optional bool");
    case 6: MC_CHECK(!arolla::is_bzero_constructible<std::string>(), "std::string"); return;
    case 7: MC_CHECK(!arolla::is_bzero_constructible<NonTrivial>(), "member initializer"); return;
    case 8: MC_CHECK(!arolla::is_bzero_constructible<std::vector<int>>(), "vector"); return;
    case 9: MC_CHECK(!arolla::is_bzero_constructible<OptionalValue<std::string>>(), "optional string"); return;
    case 10: MC_CHECK(arolla::is_bzero_constructible<Pod>(), "plain struct"); return CheckBzero<Pod>("pod");
    default: MC_CHECK(!arolla::is_bzero_constructible<std::unique_ptr<int>>(), "unique_ptr"); return;
  }
}

// ---- overflow checks

template <class T>
std::vector<T> Grid() {
  using L = std::numeric_limits<T>;
  std::vector<T> g = {0, 1, 2, 3, 7, L::max(), static_cast<T>(L::max() - 1), static_cast<T>(L::max() / 2), static_cast<T>(L::max() / 2 + 1),
                      static_cast<T>(L::max() / 3), static_cast<T>(T{1} << (sizeof(T) * 4)), static_cast<T>(T{1} << (sizeof(T) * 4 - 1)), static_cast<T>((T{1} << (sizeof(T) * 4)) - 1)};
  if (std::is_signed_v<T>) {
    for (T x : std::vector<T>(g)) g.push_back(static_cast<T>(-x));
    g.push_back(L::min());
    g.push_back(static_cast<T>(L::min() / 2));
    g.push_back(static_cast<T>(L::min() / 2 - 1));
  }
  return g;
}
template <class T>
std::string Show(T x) {
  return std::to_string(static_cast<long long>(x));
}

template <class Res, class L, class R>
void CheckOverflow() {
  static const auto gl = Grid<L>();
  static const auto gr = Grid<R>();
  const L x = mc::pick(gl);
  const bool pre = mc::flag();
  for (R y : gr) {
    using Lim = std::numeric_limits<Res>;
    auto fits = [](i128 v) { return v >= i128(Lim::min()) && v <= i128(Lim::max()); };
    bool of = pre;
    i128 sum = i128(x) + i128(y);
    Res r = arolla::safe_add<Res>(x, y, &of);
    MC_EQ(of, pre || !fits(sum), "overflow of " << Show(x) << " + " << Show(y));
    MC_EQ(r, static_cast<Res>(sum), "value of " << Show(x) << " + " << Show(y));
    auto s = arolla::SafeAdd<Res>(x, y);
    MC_EQ(s.ok(), fits(sum), "status of " << Show(x) << " + " << Show(y));
    if (s.ok()) MC_EQ(*s, static_cast<Res>(sum), "sum");
    // |x|, |y| < 2^64: the product may not fit 128 bits, decide by magnitude.
    using u128 = unsigned __int128;
    u128 ax = x < 0 ? u128(-i128(x)) : u128(x), ay = y < 0 ? u128(-i128(y)) : u128(y);
    u128 ap = ax * ay;
    bool neg = (x < 0) != (y < 0) && ap != 0;
    bool pf = neg ? ap <= u128(-i128(Lim::min())) : ap <= u128(Lim::max());
    of = pre;
    r = arolla::safe_mul<Res>(x, y, &of);
    MC_EQ(of, pre || !pf, "overflow of " << Show(x) << " * " << Show(y));
    MC_EQ(r, static_cast<Res>(neg ? -ap : ap), "value of " << Show(x) << " * " << Show(y));
    s = arolla::SafeMul<Res>(x, y);
    MC_EQ(s.ok(), pf, "status of " << Show(x) << " * " << Show(y));
    if (s.ok()) MC_EQ(*s, static_cast<Res>(neg ? -ap : ap), "product");
    mc::step(4);
  }
  using Lim = std::numeric_limits<Res>;
  i128 a = x < 0 ? -i128(x) : i128(x);
  bool fits = a <= i128(Lim::max());
  bool of = pre;
  Res r = arolla::safe_abs<Res>(x, &of);
  MC_EQ(of, pre || !fits, "overflow of |" << Show(x) << "|");
  MC_EQ(r, static_cast<Res>(a), "|" << Show(x) << "|");
  auto s = arolla::SafeAbs<Res>(x);
  MC_EQ(s.ok(), fits, "status of |" << Show(x) << "|");
  if (s.ok()) MC_EQ(*s, static_cast<Res>(a), "absolute value");
}

template <class Res, class L>
void CheckOverflowL() {
  switch (mc::choose(5)) {
    case 0: return CheckOverflow<Res, L, int32_t>();
    case 1: return CheckOverflow<Res, L, int64_t>();
    case 2: return CheckOverflow<Res, L, uint32_t>();
    case 3: return CheckOverflow<Res, L, uint64_t>();
    default: return CheckOverflow<Res, L, int8_t>();
  }
}
template <class Res>
void CheckOverflowRes() {
  switch (mc::choose(5)) {
    case 0: return CheckOverflowL<Res, int32_t>();
    case 1: return CheckOverflowL<Res, int64_t>();
    case 2: return CheckOverflowL<Res, uint32_t>();
    case 3: return CheckOverflowL<Res, uint64_t>();
    default: return CheckOverflowL<Res, int8_t>();
  }
}
MC_HARNESS(overflow) {
  switch (mc::choose(4)) {
    case 0: return CheckOverflowRes<int64_t>();
    case 1: return CheckOverflowRes<int32_t>();
    case 2: return CheckOverflowRes<uint64_t>();
    default: return CheckOverflowRes<uint32_t>();
  }
}

// ---- spans

MC_HARNESS(raw_span) {
  const int n = mc::choose(mc::tier(5, 7));
  std::vector<int> data(n);
  for (int i = 0; i < n; ++i) data[i] = i * 3;
  auto buf = std::make_unique<int[]>(n);
  for (int i = 0; i < n; ++i) buf[i] = data[i];
  arolla::RawSpan<const int> s(buf.get(), n);
  int lo = 0, hi = n;
  std::string h;
  for (int k = 0; k < mc::tier(2, 3); ++k) {
    int len = hi - lo;
    int off = mc::choose(len + 1);
    if (mc::flag()) {
      s = s.subspan(off);
      lo += off;
    } else {
      int m = mc::choose(len - off + 1);
      s = s.subspan(off, m);
      lo += off;
      hi = lo + m;
    }
    h += mc::cat(" [", lo, ",", hi, ")");
    MC_SAY(h);
    MC_EQ(s.size(), static_cast<size_t>(hi - lo), "size after" << h);
    MC_EQ(s.empty(), hi == lo, "empty after" << h);
    MC_CHECK(s.data() == buf.get() + lo && s.end() - s.begin() == hi - lo, "position after" << h);
    for (int i = lo; i < hi; ++i) MC_EQ(s[i - lo], data[i], "element" << h);
    if (lo < hi) {
      MC_EQ(s.front(), data[lo], "front" << h);
      MC_EQ(s.back(), data[hi - 1], "back" << h);
    }
    absl::Span<const int> a = s;
    MC_CHECK(a.data() == s.data() && a.size() == s.size(), "conversion to a span");
    arolla::RawSpan<const int> c;
    MC_CHECK(c.empty() && c.data() == nullptr, "default span");
    arolla::RawSpan<int> mut(buf.get() + lo, hi - lo);
    c = mut;
    MC_CHECK(c.data() == s.data() && c.size() == s.size(), "mutable to const");
    mc::step();
  }
  mc::state(mc::cat(n, h));
}

MC_HARNESS(switch_index) {
  const bool big = mc::flag();
  const int n = mc::choose(big ? 64 : 32);
  int got = -1, calls = 0;
  auto cb = [&](auto c) {
    got = decltype(c)::value;
    ++calls;
    return got * 2;
  };
  int r = big ? arolla::switch_index<64>(n, cb) : arolla::switch_index<32>(n, cb);
  MC_EQ(got, n, "constant passed");
  MC_EQ(r, 2 * n, "result");
  MC_EQ(calls, 1, "calls");
  mc::state(mc::cat(big, n));
}

// ---- downcasts

struct Base {
  virtual ~Base() = default;
};
struct Mid : Base {};
struct LeafA final : Mid {};
struct LeafB final : Base {};
struct OtherBase {
  virtual ~OtherBase() = default;
  int pad = 1;
};
struct LeafC final : OtherBase, Mid {};

MC_HARNESS(downcast) {
  std::unique_ptr<Base> p;
  const int k = mc::choose(6);
  switch (k) {
    case 0: break;
    case 1: p = std::make_unique<Base>(); break;
    case 2: p = std::make_unique<Mid>(); break;
    case 3: p = std::make_unique<LeafA>(); break;
    case 4: p = std::make_unique<LeafB>(); break;
    default: p = std::make_unique<LeafC>(); break;
  }
  MC_CHECK(arolla::fast_dynamic_downcast_final<LeafA*>(p.get()) == dynamic_cast<LeafA*>(p.get()), "A");
  MC_CHECK(arolla::fast_dynamic_downcast_final<LeafB*>(p.get()) == dynamic_cast<LeafB*>(p.get()), "B");
  MC_CHECK(arolla::fast_dynamic_downcast_final<LeafC*>(p.get()) == dynamic_cast<LeafC*>(p.get()), "C");
  const Base* c = p.get();
  MC_CHECK(arolla::fast_dynamic_downcast_final<const LeafA*>(c) == dynamic_cast<const LeafA*>(c), "const A");
  MC_CHECK(arolla::fast_dynamic_downcast_final<const LeafC*>(c) == dynamic_cast<const LeafC*>(c), "const C");
  mc::state(mc::cat(k));
  mc::step(5);
}

// ---- struct fields: the declared list must be the complete, ordered one

template <class A, class B, class C>
struct S3 {
  A a;
  B b;
  C c;
};

template <class S, class FieldTuple>
void CheckFields(const FieldTuple& f, bool want, const std::string& what) {
  auto st = arolla::struct_field_impl::VerifyArollaStructFields<S>(f, std::make_index_sequence<std::tuple_size_v<FieldTuple>>());
  MC_EQ(st.ok(), want, what);
  mc::step();
}

inline size_t Up(size_t x, size_t a) { return (x + a - 1) / a * a; }

template <class A, class B, class C>
void CheckStruct() {
  using S = S3<A, B, C>;
  using arolla::StructField;
  struct F {
    size_t off, size, align;
  };
  StructField<A> a{offsetof(S, a), "a"};
  StructField<B> b{offsetof(S, b), "b"};
  StructField<C> c{offsetof(S, c), "c"};
  F fa{offsetof(S, a), sizeof(A), alignof(A)}, fb{offsetof(S, b), sizeof(B), alignof(B)}, fc{offsetof(S, c), sizeof(C), alignof(C)};
  // A list is accepted iff the struct made of just these members in this order has these offsets and this size.
  auto want = [&](std::vector<F> fs) {
    size_t pos = 0;
    for (auto& f : fs) {
      pos = Up(pos, f.align);
      if (f.off != pos) return false;
      pos += f.size;
    }
    return Up(pos, alignof(S)) == sizeof(S);
  };
  std::string w = mc::cat(sizeof(A), ",", sizeof(B), ",", sizeof(C));
  switch (mc::choose(9)) {
    case 0: return CheckFields<S>(std::tuple(a, b, c), true, w + ": abc");
    case 1: return CheckFields<S>(std::tuple(a, c, b), false, w + ": acb");
    case 2: return CheckFields<S>(std::tuple(b, a, c), false, w + ": bac");
    case 3: return CheckFields<S>(std::tuple(c, b, a), false, w + ": cba");
    case 4: return CheckFields<S>(std::tuple(a, b), want({fa, fb}), w + ": ab");
    case 5: return CheckFields<S>(std::tuple(a, c), want({fa, fc}), w + ": ac");
    case 6: return CheckFields<S>(std::tuple(b, c), false, w + ": bc");
    case 7: return CheckFields<S>(std::tuple(a), want({fa}), w + ": a");
    default: return CheckFields<S>(std::tuple(a, a, b, c), false, w + ": aabc");
  }
}
template <class A, class B>
void CheckStruct2() {
  switch (mc::choose(4)) {
    case 0: return CheckStruct<A, B, char>();
    case 1: return CheckStruct<A, B, int16_t>();
    case 2: return CheckStruct<A, B, int32_t>();
    default: return CheckStruct<A, B, double>();
  }
}
template <class A>
void CheckStruct1() {
  switch (mc::choose(4)) {
    case 0: return CheckStruct2<A, char>();
    case 1: return CheckStruct2<A, int16_t>();
    case 2: return CheckStruct2<A, int32_t>();
    default: return CheckStruct2<A, double>();
  }
}
MC_HARNESS(struct_fields) {
  switch (mc::choose(3)) {
    case 0: return CheckStruct1<char>();
    case 1: return CheckStruct1<int32_t>();
    default: return CheckStruct1<double>();
  }
}

template <class T>
struct Tmpl {};
MC_HARNESS(type_names) {
  mc::choose(1);
  MC_EQ(arolla::TypeName<int>(), std::string("int"), "int");
  MC_EQ(arolla::TypeName<arolla::Bytes>(), std::string("arolla::Bytes"), "bytes");
  MC_EQ(arolla::TypeName<Tmpl<int>>(), std::string("(anonymous namespace)::Tmpl<int>"), "template");
  MC_EQ(arolla::TypeName<arolla::Unit>(), std::string("std::monostate"), "unit");
  MC_EQ(arolla::TypeName<const unsigned long*>(), std::string("unsigned long const*"), "pointer");
  MC_EQ(arolla::TypeName<const int&>(), std::string("int"), "reference and cv are dropped");
  arolla::profiling::TraceMe t1("x"), t2([] { return std::string("never called"); }), t3(std::string("a"), 3);
  mc::state("names");
}

}  // namespace

MC_MAIN()
