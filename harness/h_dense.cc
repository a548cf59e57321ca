// Dense arrays: bitmaps, views, builders, pointwise operations.
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "arolla/dense_array/bitmap.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/dense_array/ops/util.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/unit.h"
#include "mc.h"

namespace {

using namespace arolla;
namespace bm = arolla::bitmap;
using bm::Word;

using Bits = std::vector<bool>;

// Sizes around the word limits.
int ChooseSize() {
  static const int kQuick[] = {0, 1, 2, 31, 32, 33, 63, 64, 65};
  static const int kThorough[] = {0, 1, 2, 3, 15, 16, 30, 31, 32, 33, 34, 47, 62, 63, 64, 65, 66, 95, 96, 97};
  return mc::tier(1, 2) == 1 ? mc::pick(kQuick) : mc::pick(kThorough);
}
int ChooseOffset() {
  static const int kQuick[] = {0, 1, 16, 31};
  return mc::tier(1, 2) == 1 ? mc::pick(kQuick) : mc::choose(32);
}

constexpr int kPatterns = 8;
bool PatternBit(int pattern, int i, int size) {
  switch (pattern) {
    case 0: return true;  // no bitmap at all
    case 1: return true;
    case 2: return false;
    case 3: return i % 2;
    case 4: return i != size - 1;
    case 5: return i == size - 1;
    case 6: return i != 0 && i != 31 && i != 32;
    default: return i % 3 == 0 || (i >= 32 && i < 40);
  }
}

// A bitmap with `offset` bits before and the rest of the last word after the pattern, filled with `garbage`.
Buffer<Word> MakeBitmap(const Bits& bits, int offset, bool garbage) {
  int64_t n = bm::BitmapSize(offset + bits.size());
  std::vector<Word> w(n, garbage ? ~Word(0) : 0);
  for (size_t i = 0; i < bits.size(); ++i) {
    int64_t b = offset + i;
    if (bits[i]) w[b / 32] |= Word(1) << (b % 32);
    else w[b / 32] &= ~(Word(1) << (b % 32));
  }
  return Buffer<Word>::Create(w.begin(), w.end());
}

template <class T>
T Val(int i);
template <>
int Val<int>(int i) { return 100 + i; }
template <>
int64_t Val<int64_t>(int i) { return 1000 + 3 * i; }
template <>
float Val<float>(int i) { return i * 0.5f; }
template <>
bool Val<bool>(int i) { return i % 2; }
template <>
std::string Val<std::string>(int i) { return std::string(i % 5, 'a' + i % 7); }
template <>
Unit Val<Unit>(int) { return {}; }

struct Shape {
  int size;
  int pattern;
  int offset;
  bool garbage;
  Bits present;
  std::string str() const { return mc::cat("size ", size, " pattern ", pattern, " offset ", offset, " garbage ", garbage); }
};
Shape ChooseShape(int size, bool no_offset = false) {
  Shape s;
  s.size = size;
  s.pattern = mc::choose(kPatterns);
  s.offset = s.pattern == 0 || no_offset ? 0 : ChooseOffset();
  s.garbage = s.pattern == 0 ? false : mc::flag();
  for (int i = 0; i < size; ++i) s.present.push_back(PatternBit(s.pattern, i, size));
  return s;
}
template <class T>
DenseArray<T> Make(const Shape& s) {
  DenseArray<T> r;
  typename Buffer<T>::Builder b(s.size);
  for (int i = 0; i < s.size; ++i) b.Set(i, Val<T>(i));
  r.values = std::move(b).Build();
  if (s.pattern != 0) {
    r.bitmap = MakeBitmap(s.present, s.offset, s.garbage);
    // An empty bitmap means that everything is present.
    r.bitmap_bit_offset = r.bitmap.empty() ? 0 : s.offset;
  }
  return r;
}
int Count(const Bits& b) {
  int n = 0;
  for (bool x : b) n += x;
  return n;
}

// ---- Bitmaps

MC_HARNESS(words) {
  int size = ChooseSize();
  Shape s = ChooseShape(size);
  if (s.pattern == 0) s.offset = 0;
  MC_SAY(s.str());
  Buffer<Word> b = s.pattern ? MakeBitmap(s.present, s.offset, s.garbage) : Buffer<Word>();
  auto bit = [&](int i) { return b.empty() || (b[i / 32] >> (i % 32) & 1); };
  // Words at every offset: bits outside of the bitmap are not specified.
  for (int w = 0; w <= (int)b.size(); ++w) {
    Word x = bm::GetWordWithOffset(b, w, s.offset);
    for (int i = 0; i < 32; ++i) {
      int64_t at = int64_t(w) * 32 + s.offset + i;
      if (at < (int64_t)b.size() * 32) MC_EQ(bm::GetBit(x, i), bit(at), "GetWordWithOffset " << w << " bit " << i);
    }
    MC_EQ(bm::GetWord(b, w), w < (int)b.size() ? b[w] : bm::kFullWord, "GetWord");
  }
  for (int i = 0; i < size; ++i) {
    MC_EQ(bm::GetBit(b, s.offset + i), bool(s.present[i]), "GetBit " << i);
    if (!b.empty()) MC_EQ(bm::GetBit(b.begin(), s.offset + i), bool(s.present[i]), "GetBit (pointer) " << i);
  }
  if (!b.empty()) {
    // From the first bit of the buffer.
    for (int n = 0; n <= (int)b.size() * 32; ++n) {
      bool all = true, none = true;
      for (int i = 0; i < n; ++i) (bit(i) ? none : all) = false;
      MC_EQ(bm::AreAllBitsSet(b.begin(), n), all, "AreAllBitsSet " << n);
      MC_EQ(bm::AreAllBitsUnset(b.begin(), n), none, "AreAllBitsUnset " << n);
    }
  }
  // Ranges: counting and iteration.
  for (int from = 0; from <= size; from += (mc::tier(1, 2) == 1 && size > 10 && from > 1 && from + 3 < size ? 3 : 1)) {
    int n = size - from;
    int64_t first = s.offset + from;
    std::vector<bool> seen;
    bm::Iterate(b, first, n, [&](bool p) { seen.push_back(p); });
    MC_EQ((int)seen.size(), n, "Iterate calls");
    int want = 0;
    for (int i = 0; i < n; ++i) {
      MC_EQ(bool(seen[i]), bool(s.present[from + i]), "Iterate at " << from + i);
      want += s.present[from + i];
    }
    MC_EQ(bm::CountBits(b, first, n), want, "CountBits from " << from);
    if (!b.empty()) {
      std::vector<int> starts;
      int next = 0;
      bm::IterateByGroups(b.begin(), first, n, [&](int64_t off) {
        MC_EQ(off, (int64_t)next, "start of a group");
        starts.push_back(off);
        return [&, off](int i, bool p) {
          MC_EQ(off + i, (int64_t)next, "position in a group");
          MC_CHECK(i >= 0 && i < 32, "index in a group");
          MC_EQ(p, bool(s.present[from + off + i]), "IterateByGroups at " << from + off + i);
          ++next;
        };
      });
      MC_EQ(next, n, "IterateByGroups calls");
      for (size_t k = 1; k < starts.size(); ++k) MC_CHECK((first + starts[k]) % 32 == 0, "a group crosses a word");
    }
  }
  mc::step();
  mc::state(s.str());
}

MC_HARNESS(count_outside) {
  // Everything outside of the bitmap counts as present.
  int words = mc::choose(4);
  Word fill = mc::pick({0u, ~0u, 0x80000001u});
  std::vector<Word> w(words, fill);
  auto b = Buffer<Word>::Create(w.begin(), w.end());
  int off = mc::range(-40, 100), n = mc::range(0, 140);
  int64_t want = 0;
  for (int i = off; i < off + n; ++i) want += i < 0 || i >= words * 32 || (fill >> (i % 32) & 1);
  MC_EQ(bm::CountBits(b, off, n), want, words << " words of " << fill << ", " << off << "+" << n);
  mc::step();
}

MC_HARNESS(intersect) {
  int size = ChooseSize();
  Shape a = ChooseShape(size), b = ChooseShape(size);
  if (a.pattern == 0 || b.pattern == 0) mc::abandon();
  auto x = MakeBitmap(a.present, a.offset, a.garbage), y = MakeBitmap(b.present, b.offset, b.garbage);
  size_t n = std::min(x.size(), y.size());
  int off = std::min(a.offset, b.offset);
  // Guard words on both sides of the result.
  std::vector<Word> r(n + 2, 0xA5A5A5A5);
  bm::Intersect(x, y, a.offset, b.offset, absl::Span<Word>(r.data() + 1, n));
  MC_CHECK(r[0] == 0xA5A5A5A5 && r[n + 1] == 0xA5A5A5A5, "wrote outside of the result");
  for (int i = 0; i < size; ++i) {
    bool want = a.present[i] && b.present[i];
    MC_EQ(bm::GetBit(r.data() + 1, off + i), want, "bit " << i << ": " << a.str() << " and " << b.str());
  }
  mc::step();
  mc::state(mc::cat(size, a.pattern, a.offset, b.pattern, b.offset));
}

MC_HARNESS(bitmap_builder) {
  // Bits are added in parts of any size, by groups.
  int parts = mc::range(0, mc::tier(3, 4));
  static const int kSizes[] = {0, 1, 5, 31, 32, 33, 64, 70};
  std::vector<int> part;
  int total = 0;
  for (int i = 0; i < parts; ++i) part.push_back(mc::pick(kSizes)), total += part.back();
  int pattern = 1 + mc::choose(kPatterns - 1);
  int extra = mc::pick({0, 1, 40});
  bm::Builder b(total + extra);
  int pos = 0;
  Bits want;
  for (int i = 0; i < total; ++i) want.push_back(PatternBit(pattern, i, total));
  for (size_t k = 0; k < part.size(); ++k) {
    int base = pos, calls = 0;
    if (k % 2 == 0) {
      b.AddByGroups(part[k], [&](int64_t off) {
        MC_EQ(off % 32, 0, "start of a group");
        return [&, off](int i) {
          MC_EQ(off + i, (int64_t)calls, "order of the calls");
          ++calls;
          return bool(want[base + off + i]);
        };
      });
      MC_EQ(calls, part[k], "calls");
    } else {
      std::vector<int> c(want.begin() + base, want.begin() + base + part[k]);
      b.AddForEach(c, [&](int v) { return v != 0; });
    }
    pos += part[k];
  }
  auto r = std::move(b).Build();
  bool all = true;
  for (bool x : want) all &= x;
  if (all) {
    MC_CHECK(r.empty(), "a full bitmap is not empty");
  } else {
    MC_EQ(r.size(), bm::BitmapSize(total + extra), "words");
    for (int i = 0; i < total; ++i) MC_EQ(bm::GetBit(r, i), bool(want[i]), "bit " << i << " of " << total << " pattern " << pattern);
  }
  mc::step();
  mc::state(mc::cat(total, pattern, parts));
}

MC_HARNESS(almost_full) {
  int size = 1 + mc::choose(70);
  int n = mc::choose(4);
  std::set<int> missed;
  bm::AlmostFullBuilder b(size);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(3);
    int id = k == 0 ? 0 : k == 1 ? size - 1 : size / 2;
    b.AddMissed(id);
    missed.insert(id);
  }
  int keep = mc::flag() ? -1 : size - mc::choose(std::min(size, 34));
  auto r = keep < 0 ? std::move(b).Build() : std::move(b).Build(keep);
  if (keep < 0) keep = size;
  if (n == 0) MC_CHECK(r.empty(), "a full bitmap is not empty");
  else MC_EQ(r.size(), bm::BitmapSize(keep), "words");
  for (int i = 0; i < keep; ++i) MC_EQ(bm::GetBit(r, i), !missed.count(i), "bit " << i << " of " << size);
  mc::step();
}

MC_HARNESS(empty_bitmap) {
  static const int kSizes[] = {0, 1, 31, 32, 33, 1024, 16 * 1024 * 8 - 1, 16 * 1024 * 8, 16 * 1024 * 8 + 1, 200000};
  int n = mc::pick(kSizes);
  auto b = bm::CreateEmptyBitmap(n);
  MC_EQ(b.size(), bm::BitmapSize(n), "words");
  for (Word w : b) MC_EQ(w, 0u, "a bit is set");
  auto a = CreateEmptyDenseArray<int>(n);
  MC_EQ(a.size(), n, "size");
  MC_EQ(a.PresentCount(), 0, "present");
  mc::step();
}

// ---- Views of an array

template <class T>
void CheckArray(const DenseArray<T>& a, const Bits& present, int first, const std::string& what) {
  int n = present.size();
  mc::step();
  MC_CHECK(a.CheckBitmapMatchesValues(), "the bitmap does not match the values: " << what);
  MC_EQ(a.size(), (int64_t)n, "size: " << what);
  MC_EQ(a.empty(), n == 0, "empty: " << what);
  int count = Count(present);
  MC_EQ(a.PresentCount(), (int64_t)count, "PresentCount: " << what);
  MC_EQ(a.IsFull(), count == n, "IsFull: " << what);
  MC_EQ(a.IsAllPresent(), count == n, "IsAllPresent: " << what);
  MC_EQ(a.IsAllMissing(), count == 0, "IsAllMissing: " << what);
  for (int i = 0; i < n; ++i) {
    MC_EQ(a.present(i), bool(present[i]), "present " << i << ": " << what);
    auto v = a[i];
    MC_EQ(v.present, bool(present[i]), "element " << i << ": " << what);
    if (v.present) MC_CHECK(v.value == Val<T>(first + i), "value " << i << ": " << what);
  }
  int next = 0;
  a.ForEach([&](int64_t id, bool p, view_type_t<T> v) {
    MC_EQ(id, (int64_t)next, "ForEach id: " << what);
    MC_EQ(p, bool(present[id]), "ForEach presence " << id << ": " << what);
    if (p) MC_CHECK(v == Val<T>(first + id), "ForEach value " << id << ": " << what);
    ++next;
  });
  MC_EQ(next, n, "ForEach calls: " << what);
  next = 0;
  int calls = 0;
  a.ForEachPresent([&](int64_t id, view_type_t<T> v) {
    MC_CHECK(id >= next && id < n && present[id], "ForEachPresent id: " << what);
    next = id + 1;
    MC_CHECK(v == Val<T>(first + id), "ForEachPresent value: " << what);
    ++calls;
  });
  MC_EQ(calls, count, "ForEachPresent calls: " << what);
  next = 0;
  a.ForEachByGroups([&](int64_t off) {
    return [&, off](int64_t id, bool p, view_type_t<T> v) {
      MC_EQ(id, (int64_t)next, "ForEachByGroups id: " << what);
      MC_CHECK(id >= off, "group offset: " << what);
      MC_EQ(p, bool(present[id]), "ForEachByGroups presence: " << what);
      if (p) MC_CHECK(v == Val<T>(first + id), "ForEachByGroups value: " << what);
      ++next;
    };
  });
  MC_EQ(next, n, "ForEachByGroups calls: " << what);
  next = 0;
  for (auto v : a) {
    MC_EQ(v.present, bool(present[next]), "iteration: " << what);
    ++next;
  }
  MC_EQ(next, n, "iterations: " << what);
}

template <class T>
void Views() {
  int size = ChooseSize();
  Shape s = ChooseShape(size);
  std::string what = s.str();
  MC_SAY(what);
  DenseArray<T> a = Make<T>(s);
  Bits present = s.present;
  int first = 0;
  if constexpr (std::is_same_v<T, int>) CheckArray(a, present, 0, what);
  int depth = std::is_same_v<T, int> ? 2 : 1;
  for (int k = 0; k < depth; ++k) {
    int op = mc::choose(6);
    if (op == 0) break;
    int n = present.size();
    if (op == 1) {
      static const int kFrom[] = {0, 1, 31, 32, 33};
      static const int kLess[] = {0, 1, 2, 31, 32};
      int from = mc::pick(kFrom), len = n - from - mc::pick(kLess);
      if (from > n || len < 0) mc::abandon();
      MC_SAY("slice " << from << "+" << len);
      what += mc::cat("; slice ", from, "+", len);
      a = a.Slice(from, len);
      present = Bits(present.begin() + from, present.begin() + from + len);
      first += from;
    } else if (op == 2) {
      what += "; no offset";
      const DenseArray<T>& ca = a;
      a = mc::flag() ? std::move(a).ForceNoBitmapBitOffset() : ca.ForceNoBitmapBitOffset();
      MC_EQ(a.bitmap_bit_offset, 0, "bit offset: " << what);
    } else if (op == 3) {
      what += "; owned copy";
      a = a.MakeUnowned().MakeOwned();
    } else if (op == 4) {
      what += "; mask";
      CheckArray(a.ToMask(), present, first, what);
    } else {
      what += "; unowned";
      auto b = a.MakeUnowned();
      CheckArray(b, present, first, what);
      MC_CHECK(ArraysAreEquivalent(a, b), "not equivalent to its unowned copy");
    }
    CheckArray(a, present, first, what);
  }
  // The same elements in another representation.
  DenseArrayBuilder<T> b(present.size());
  for (size_t i = 0; i < present.size(); ++i)
    if (present[i]) b.Set(i, Val<T>(first + i));
  auto other = std::move(b).Build();
  MC_CHECK(ArraysAreEquivalent(a, other) && ArraysAreEquivalent(other, a), "not equivalent to an array with the same elements: " << what);
  auto fp = [](const DenseArray<T>& x) { return FingerprintHasher("d").Combine(x).Finish(); };
  MC_CHECK(fp(a) == fp(other), "the fingerprint depends on the representation: " << what);
  if (!present.empty()) {
    // One element changes.
    int i = mc::flag() ? 0 : present.size() - 1;
    Bits p = present;
    p[i] = !p[i];
    DenseArrayBuilder<T> c(p.size());
    for (size_t k = 0; k < p.size(); ++k)
      if (p[k]) c.Set(k, Val<T>(first + k));
    auto changed = std::move(c).Build();
    MC_CHECK(!ArraysAreEquivalent(a, changed) && !ArraysAreEquivalent(changed, a), "equivalent although element " << i << " differs: " << what);
    MC_CHECK(fp(a) != fp(changed), "the fingerprint ignores element " << i << ": " << what);
  }
  mc::state(what);
}
MC_HARNESS(views_int) { Views<int>(); }
MC_HARNESS(views_string) { Views<std::string>(); }
MC_HARNESS(views_unit) { Views<Unit>(); }
MC_HARNESS(views_bool) { Views<bool>(); }

// ---- Builders

MC_HARNESS(builder) {
  // Histories of settings of optional values.
  int n = mc::pick({1, 2, 33, 64});
  DenseArrayBuilder<int> b(n);
  DenseArrayBuilder<Unit> u(n);
  std::vector<std::optional<int>> m(n);
  static const int kIds[] = {0, 1, 31, 32, 63};
  int len = mc::tier(2, 3);
  for (int k = 0; k < len; ++k) {
    int id = mc::pick(kIds);
    if (id >= n) mc::abandon();
    int v = 10 * k + 1;
    int op = mc::choose(9);
    int count = op >= 5 ? std::min(n - id, mc::pick({0, 1, 33})) : 1;
    bool set = true;
    switch (op) {
      case 0: b.Set(id, v); u.Set(id, Unit{}); break;
      case 1: b.Set(id, OptionalValue<int>(v)); u.Set(id, OptionalUnit(kPresent)); break;
      case 2: b.Set(id, std::optional<int>(v)); u.Set(id, std::optional<Unit>(Unit{})); break;
      case 3: set = false; b.Set(id, OptionalValue<int>()); u.Set(id, std::optional<Unit>()); break;
      case 4: set = false; b.Add(id, std::nullopt); u.Set(id, kMissing); break;
      case 5: b.SetNConst(id, count, v); u.SetNConst(id, count, Unit{}); break;
      case 6: b.SetNConst(id, count, std::optional<int>(v)); u.SetNConst(id, count, std::optional<Unit>(Unit{})); break;
      case 7: b.SetNConst(id, count, OptionalValue<int>(v)); u.SetNConst(id, count, OptionalUnit(kPresent)); break;
      case 8: set = false; b.SetNConst(id, count, OptionalValue<int>()); u.SetNConst(id, count, std::nullopt); break;
    }
    if (set) for (int i = id; i < id + count; ++i) m[i] = v;
    MC_SAY("operation " << op << " at " << id << " x " << count);
  }
  int size = n - mc::pick({0, 1, 33});
  if (size < 0) mc::abandon();
  auto a = size == n ? std::move(b).Build() : std::move(b).Build(size);
  auto x = size == n ? std::move(u).Build() : std::move(u).Build(size);
  MC_EQ(a.size(), size, "size");
  MC_EQ(x.size(), size, "size of units");
  int64_t count = 0;
  for (int i = 0; i < size; ++i) {
    MC_EQ(a[i].present, m[i].has_value(), "presence " << i);
    MC_EQ(x[i].present, m[i].has_value(), "presence of unit " << i);
    if (m[i]) MC_EQ(a[i].value, *m[i], "value " << i);
    count += m[i].has_value();
  }
  MC_EQ(a.PresentCount(), count, "PresentCount");
  mc::step();
}

template <class T>
void Creation() {
  int size = ChooseSize();
  int pattern = mc::choose(kPatterns);
  Bits present;
  for (int i = 0; i < size; ++i) present.push_back(PatternBit(pattern, i, size));
  int how = mc::choose(6);
  std::string what = mc::cat("size ", size, " pattern ", pattern, " way ", how);
  MC_SAY(what);
  DenseArray<T> a;
  if (how == 0) {
    std::vector<std::optional<T>> v(size);
    for (int i = 0; i < size; ++i)
      if (present[i]) v[i] = Val<T>(i);
    a = CreateDenseArray<T>(v.begin(), v.end());
  } else if (how == 1) {
    std::vector<OptionalValue<T>> v(size);
    for (int i = 0; i < size; ++i)
      if (present[i]) v[i] = Val<T>(i);
    a = CreateDenseArray<T>(absl::Span<const OptionalValue<T>>(v));
  } else {
    if (pattern > 1 || (how == 4 && std::is_same_v<T, std::string>)) mc::abandon();
    std::vector<T> v(size);
    for (int i = 0; i < size; ++i) v[i] = Val<T>(i);
    if (how == 2) a = CreateFullDenseArray<T>(v.begin(), v.end());
    if (how == 3) a = CreateFullDenseArray<T>(v);
    if constexpr (!std::is_same_v<T, std::string>) if (how == 4) a = CreateFullDenseArray<T>(std::move(v));
    if (how == 5) {
      auto c = CreateConstDenseArray<T>(size, Val<T>(3));
      MC_EQ(c.size(), size, "size");
      for (int i = 0; i < size; ++i) MC_CHECK(c[i].present && c[i].value == Val<T>(3), "constant " << i);
      return;
    }
  }
  CheckArray(a, present, 0, what);
}
MC_HARNESS(creation_int) { Creation<int>(); }
MC_HARNESS(creation_string) { Creation<std::string>(); }
MC_HARNESS(creation_float) { Creation<float>(); }

// ---- Operations

// Runs an operation over int arrays and compares each row.
template <class Arr, class Want>
void CompareRows(const Arr& r, int size, const std::string& what, Want want) {
  MC_CHECK(r.CheckBitmapMatchesValues(), "the result's bitmap does not match the values: " << what);
  MC_EQ(r.size(), (int64_t)size, "size: " << what);
  for (int i = 0; i < size; ++i) {
    auto w = want(i);
    MC_EQ(r[i].present, w.has_value(), "presence of row " << i << ": " << what);
    if (w) MC_CHECK(r[i].value == *w, "value of row " << i << ": " << what << "; is " << r[i].value << ", expected " << *w);
  }
  mc::step();
}

template <int flags>
void Unary(const Shape& s) {
  auto a = Make<int>(s);
  std::string what = mc::cat("flags ", flags, ", ", s.str());
  int calls = 0;
  auto fn = [&calls](int x) -> int { ++calls; return x * 2; };
  auto r = CreateDenseOp<flags>(fn)(a);
  CompareRows(r, s.size, what, [&](int i) { return s.present[i] ? std::optional<int>(Val<int>(i) * 2) : std::nullopt; });
  if (!(flags & DenseOpFlags::kRunOnMissing)) MC_EQ(calls, Count(s.present), "calls: " << what);
  // Optional argument, optional result.
  auto opt = [](OptionalValue<int> x) -> OptionalValue<int> { return x.present ? (x.value % 2 ? OptionalValue<int>(x.value) : OptionalValue<int>()) : OptionalValue<int>(-1); };
  CompareRows(CreateDenseOp<flags>(opt)(a), s.size, "optional " + what, [&](int i) -> std::optional<int> {
    if (!s.present[i]) return -1;
    return Val<int>(i) % 2 ? std::optional<int>(Val<int>(i)) : std::nullopt;
  });
  // A status: the first failing row (in order) decides.
  for (int bad : {-1, 0, 31, 32, s.size - 1}) {
    auto st = [bad](int x) -> absl::StatusOr<int64_t> {
      if (bad >= 0 && x >= Val<int>(bad)) return absl::InvalidArgumentError(mc::cat("row ", x - Val<int>(0)));
      return x + 1;
    };
    auto res = CreateDenseOp<flags>(st)(a);
    int first = -1;
    if (bad >= 0)
      for (int i = s.size - 1; i >= bad; --i)
        if (s.present[i]) first = i;
    MC_EQ(res.ok(), first < 0, "status with bad row " << bad << ": " << what);
    if (res.ok()) CompareRows(*res, s.size, "status " + what, [&](int i) { return s.present[i] ? std::optional<int64_t>(Val<int>(i) + 1) : std::nullopt; });
    else MC_EQ(std::string(res.status().message()), mc::cat("row ", first), "message: " << what);
  }
  // Strings and units.
  auto sa = Make<std::string>(s);
  CompareRows(CreateDenseOp<flags>([](absl::string_view x) -> std::string { return std::string(x) + "!"; })(sa), s.size, "string " + what,
              [&](int i) { return s.present[i] ? std::optional<std::string>(Val<std::string>(i) + "!") : std::nullopt; });
  auto ua = Make<Unit>(s);
  CompareRows(CreateDenseOp<flags>([](Unit) -> int { return 7; })(ua), s.size, "unit " + what,
              [&](int i) { return s.present[i] ? std::optional<int>(7) : std::nullopt; });
  auto to_unit = CreateDenseOp<flags>([](int x) -> OptionalUnit { return OptionalUnit(x % 2 == 0); })(a);
  MC_EQ(to_unit.size(), s.size, "size");
  for (int i = 0; i < s.size; ++i) MC_EQ(to_unit[i].present, s.present[i] && Val<int>(i) % 2 == 0, "unit result " << i << ": " << what);
}
MC_HARNESS(unary) {
  int flags = mc::choose(4);
  int size = ChooseSize();
  Shape s = ChooseShape(size, flags & DenseOpFlags::kNoBitmapOffset);
  MC_SAY("flags " << flags << " " << s.str());
  switch (flags) {
    case 0: return Unary<0>(s);
    case 1: return Unary<1>(s);
    case 2: return Unary<2>(s);
    case 3: return Unary<3>(s);
  }
}

template <class R>
const auto& Deref(const R& r) {
  if constexpr (meta::is_wrapped_with_v<absl::StatusOr, R>) {
    MC_CHECK(r.ok(), "an operation failed: " << r.status().ToString());
    return *r;
  } else {
    return r;
  }
}

template <int flags>
void Binary(const Shape& s, const Shape& t) {
  auto a = Make<int>(s);
  auto b = Make<int64_t>(t);
  std::string what = mc::cat("flags ", flags, ", ", s.str(), "; ", t.str());
  int calls = 0;
  auto both = [&](int i) { return s.present[i] && t.present[i]; };
  auto fn = [&calls](int x, int64_t y) -> int64_t { ++calls; return x * 10000 + y; };
  auto r = CreateDenseOp<flags>(fn)(a, b);
  CompareRows(Deref(r), s.size, what, [&](int i) { return both(i) ? std::optional<int64_t>(Val<int>(i) * 10000 + Val<int64_t>(i)) : std::nullopt; });
  if (!(flags & DenseOpFlags::kRunOnMissing)) {
    int n = 0;
    for (int i = 0; i < s.size; ++i) n += both(i);
    MC_EQ(calls, n, "calls: " << what);
  }
  auto opt = [](int x, OptionalValue<int64_t> y) -> int64_t { return y.present ? x + y.value : -x; };
  auto r2 = CreateDenseOp<flags>(opt)(a, b);
  CompareRows(Deref(r2), s.size, "optional " + what, [&](int i) -> std::optional<int64_t> {
    if (!s.present[i]) return std::nullopt;
    return t.present[i] ? Val<int>(i) + Val<int64_t>(i) : -Val<int>(i);
  });
  auto u = Make<Unit>(t);
  auto r3 = CreateDenseOp<flags>([](int x, Unit) -> int { return x; })(a, u);
  CompareRows(Deref(r3), s.size, "unit " + what, [&](int i) { return both(i) ? std::optional<int>(Val<int>(i)) : std::nullopt; });
}
MC_HARNESS(binary) {
  int flags = mc::choose(8);
  int size = ChooseSize();
  bool no = flags & DenseOpFlags::kNoBitmapOffset;
  Shape s = ChooseShape(size, no), t = ChooseShape(size, no);
  MC_SAY("flags " << flags << " " << s.str() << "; " << t.str());
  switch (flags) {
    case 0: return Binary<0>(s, t);
    case 1: return Binary<1>(s, t);
    case 2: return Binary<2>(s, t);
    case 3: return Binary<3>(s, t);
    case 4: return Binary<4>(s, t);
    case 5: return Binary<5>(s, t);
    case 6: return Binary<6>(s, t);
    case 7: return Binary<7>(s, t);
  }
}

template <int flags>
void Ternary(const Shape& s, const Shape& t, const Shape& u) {
  auto a = Make<int>(s), b = Make<int>(t), c = Make<int>(u);
  std::string what = mc::cat("flags ", flags, ", ", s.str(), "; ", t.str(), "; ", u.str());
  auto fn = [](int x, int y, int z) -> int { return x + 2 * y + 3 * z; };
  auto r = CreateDenseOp<flags>(fn)(a, b, c);
  CompareRows(Deref(r), s.size, what, [&](int i) { return s.present[i] && t.present[i] && u.present[i] ? std::optional<int>(Val<int>(i) * 6) : std::nullopt; });
  auto st = [](int x, OptionalValue<int> y, int z) -> absl::StatusOr<OptionalValue<int>> { return y.present ? OptionalValue<int>(x + y.value + z) : OptionalValue<int>(); };
  auto r2 = CreateDenseOp<flags>(st)(a, b, c);
  CompareRows(Deref(r2), s.size, "status " + what, [&](int i) { return s.present[i] && t.present[i] && u.present[i] ? std::optional<int>(Val<int>(i) * 3) : std::nullopt; });
}
MC_HARNESS(ternary) {
  int flags = mc::pick({0, 1, 2, 3, 7});
  int size = mc::pick({0, 1, 31, 32, 33, 65});
  auto shape = [&] {
    Shape s;
    s.size = size;
    s.pattern = mc::pick({0, 2, 3, 6});
    s.offset = s.pattern == 0 || (flags & DenseOpFlags::kNoBitmapOffset) ? 0 : mc::pick({0, 5, 31});
    s.garbage = s.pattern % 2;
    for (int i = 0; i < size; ++i) s.present.push_back(PatternBit(s.pattern, i, size));
    return s;
  };
  Shape s = shape(), t = shape(), u = shape();
  switch (flags) {
    case 0: return Ternary<0>(s, t, u);
    case 1: return Ternary<1>(s, t, u);
    case 2: return Ternary<2>(s, t, u);
    case 3: return Ternary<3>(s, t, u);
    case 7: return Ternary<7>(s, t, u);
  }
}

struct SpanAdd {
  template <class R, class A, class B>
  void operator()(RawSpan<R> r, RawSpan<A> a, RawSpan<B> b) const {
    for (size_t i = 0; i < r.size(); ++i) r[i] = a[i] + b[i];
  }
  template <class R, class A>
  void operator()(RawSpan<R> r, RawSpan<A> a) const {
    for (size_t i = 0; i < r.size(); ++i) r[i] = -a[i];
  }
};
MC_HARNESS(span_ops) {
  int size = ChooseSize();
  Shape s = ChooseShape(size), t = ChooseShape(size);
  auto a = Make<int>(s), b = Make<int>(t);
  std::string what = mc::cat(s.str(), "; ", t.str());
  auto want = [&](int i) { return s.present[i] && t.present[i] ? std::optional<int>(2 * Val<int>(i)) : std::nullopt; };
  CompareRows(Deref(CreateDenseBinaryOpFromSpanOp<int>(SpanAdd{})(a, b)), size, what, want);
  CompareRows(CreateDenseBinaryOpFromSpanOp<int, DenseOpFlags::kNoSizeValidation>(SpanAdd{})(a, b), size, what, want);
  if (s.offset == 0 && t.offset == 0)
    CompareRows(Deref(CreateDenseBinaryOpFromSpanOp<int, DenseOpFlags::kNoBitmapOffset>(SpanAdd{})(a, b)), size, what, want);
  CompareRows(CreateDenseUnaryOpFromSpanOp<int>(SpanAdd{})(a), size, what, [&](int i) { return s.present[i] ? std::optional<int>(-Val<int>(i)) : std::nullopt; });
}

MC_HARNESS(sizes_differ) {
  static const int kSizes[] = {0, 1, 31, 32, 33};
  int n[3] = {mc::pick(kSizes), mc::pick(kSizes), mc::pick(kSizes)};
  auto a = CreateConstDenseArray<int>(n[0], 1), b = CreateConstDenseArray<int>(n[1], 2), c = CreateConstDenseArray<int>(n[2], 3);
  auto f2 = [](int x, int y) -> int { return x + y; };
  auto f3 = [](int x, int y, int z) -> int { return x + y + z; };
  bool eq2 = n[0] == n[1], eq3 = eq2 && n[1] == n[2];
  MC_EQ(CreateDenseOp(f2)(a, b).ok(), eq2, "binary " << n[0] << "," << n[1]);
  MC_EQ(CreateDenseOp<DenseOpFlags::kRunOnMissing>(f2)(a, b).ok(), eq2, "binary (fast)");
  MC_EQ(CreateDenseBinaryOpFromSpanOp<int>(SpanAdd{})(a, b).ok(), eq2, "span");
  MC_EQ(CreateDenseOp(f3)(a, b, c).ok(), eq3, "ternary");
  MC_EQ(CreateDenseOp<DenseOpFlags::kRunOnMissing | DenseOpFlags::kNoBitmapOffset>(f3)(a, b, c).ok(), eq3, "ternary (fast)");
  int calls = 0;
  MC_EQ(DenseArraysForEach([&](int64_t, bool, int, int, int) { ++calls; }, a, b, c).ok(), eq3, "ForEach");
  MC_EQ(DenseArraysForEachPresent([&](int64_t, int, int, int) { ++calls; }, a, b, c).ok(), eq3, "ForEachPresent");
  MC_EQ(calls, eq3 ? 2 * n[0] : 0, "calls");
  mc::step();
}

MC_HARNESS(for_each) {
  int size = ChooseSize();
  Shape s = ChooseShape(size), t = ChooseShape(size);
  auto a = Make<int>(s);
  auto b = Make<std::string>(t);
  std::string what = mc::cat(s.str(), "; ", t.str());
  int next = 0;
  auto st = DenseArraysForEach([&](int64_t id, bool valid, OptionalValue<int> x, absl::string_view y) {
    MC_EQ(id, (int64_t)next++, "id: " << what);
    MC_EQ(valid, bool(t.present[id]), "valid " << id << ": " << what);
    MC_EQ(x.present, bool(s.present[id]), "optional " << id << ": " << what);
    if (valid) MC_CHECK(y == Val<std::string>(id), "string " << id << ": " << what);
    if (x.present) MC_EQ(x.value, Val<int>(id), "value: " << what);
  }, a, b);
  MC_CHECK(st.ok() && next == size, "calls: " << what);
  next = 0;
  int calls = 0, want = 0;
  for (int i = 0; i < size; ++i) want += s.present[i] && t.present[i];
  MC_CHECK(DenseArraysForEachPresent([&](int64_t id, int x, absl::string_view y) {
    MC_CHECK(id >= next && s.present[id] && t.present[id], "id: " << what);
    next = id + 1;
    MC_CHECK(x == Val<int>(id) && y == Val<std::string>(id), "values: " << what);
    ++calls;
  }, a, b).ok(), "status");
  MC_EQ(calls, want, "calls: " << what);
  mc::step();
}

MC_HARNESS(iterate_range) {
  // DenseOpsUtil::Iterate over every range.
  int size = mc::pick({33, 70, 97});
  Shape s;
  s.size = size;
  s.pattern = mc::pick({0, 3, 6});
  s.offset = s.pattern ? mc::pick({0, 7, 31}) : 0;
  s.garbage = mc::flag();
  for (int i = 0; i < size; ++i) s.present.push_back(PatternBit(s.pattern, i, size));
  auto a = Make<int>(s);
  int from = mc::choose(size + 1);
  for (int to = from; to <= size; ++to) {
    int next = from;
    dense_ops_internal::DenseOpsUtil<meta::type_list<int>>::Iterate(
        [&](int64_t id, bool valid, int v) {
          MC_EQ(id, (int64_t)next++, "id");
          MC_EQ(valid, bool(s.present[id]), "valid " << id << " in [" << from << "," << to << "): " << s.str());
          if (valid) MC_EQ(v, Val<int>(id), "value");
        },
        from, to, a);
    MC_EQ(next, to, "calls");
    mc::step();
  }
}

}  // namespace

MC_MAIN()
