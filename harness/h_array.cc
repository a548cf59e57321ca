// Sparse arrays: every representation of a short sequence of optional values.
#include <cstdint>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/array/ops_util.h"
#include "arolla/array/pointwise_op.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/fingerprint.h"
#include "mc.h"

namespace {

using namespace arolla;

// An element is a code: -1 is missing, 0 is the usual default value.
using Codes = std::vector<int>;

template <class T>
T Val(int c);
template <>
int Val<int>(int c) { return c == 0 ? 7 : 100 + c; }
template <>
std::string Val<std::string>(int c) { return c == 0 ? "dflt" : std::string(c, 'a' + c); }

std::string Str(const Codes& c) {
  std::string r = "[";
  for (int x : c) r += mc::cat(x, " ");
  return r + "]";
}

template <class T>
struct Arr {
  Array<T> a;
  Codes c;
  std::string s;
};

template <class T>
OptionalValue<T> Opt(int c) {
  if (c < 0) return std::nullopt;
  return Val<T>(c);
}

template <class T>
DenseArray<T> MakeDense(const Codes& c, int style) {
  // style: 0 - bitmap if needed, 1 - bitmap with an offset and garbage around.
  DenseArray<T> r;
  typename Buffer<T>::Builder b(c.size());
  bool all = true;
  for (size_t i = 0; i < c.size(); ++i) {
    b.Set(i, Val<T>(c[i] < 0 ? 50 : c[i]));
    all &= c[i] >= 0;
  }
  r.values = std::move(b).Build();
  if (c.empty() || (all && style == 0)) return r;
  int off = style == 0 ? 0 : 30;
  std::vector<uint32_t> w((off + c.size() + 31) / 32, style ? ~0u : 0u);
  for (size_t i = 0; i < c.size(); ++i) {
    int k = off + i;
    if (c[i] >= 0) w[k / 32] |= 1u << (k % 32);
    else w[k / 32] &= ~(1u << (k % 32));
  }
  r.bitmap = Buffer<uint32_t>::Create(w.begin(), w.end());
  r.bitmap_bit_offset = off;
  return r;
}

IdFilter MakeFilter(int n, const std::vector<int64_t>& ids, int64_t off) {
  std::vector<int64_t> v;
  for (int64_t i : ids) v.push_back(i + off);
  return IdFilter(n, Buffer<int64_t>::Create(v.begin(), v.end()), off);
}

// Every representation: which ids are stored, with which values, and the default of the others.
template <class T>
Arr<T> ChooseArr(int n, int dstyles = 2, int offsets = 2) {
  int d = mc::choose(2) - 1;
  std::vector<int64_t> ids;
  Codes all, data;
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(4);
    if (k == 0) {
      all.push_back(d);
    } else {
      ids.push_back(i);
      int c = k == 1 ? -1 : k == 2 ? 0 : 1 + i;
      data.push_back(c);
      all.push_back(c);
    }
  }
  if ((int)ids.size() == n && n > 0 && d >= 0) mc::abandon();
  int style = dstyles > 1 && !ids.empty() ? mc::choose(dstyles) : 0;
  int off = offsets > 1 && !ids.empty() && (int)ids.size() < n ? mc::choose(offsets) * 3 : 0;
  auto what = mc::cat(Str(all), " ids ", ids.size(), " default ", d, " style ", style, " offset ", off);
  if (ids.empty()) {
    // Two ways of making a constant, and an empty dense array.
    return {style == 0 ? Array<T>(n, Opt<T>(d)) : Array<T>(n, IdFilter::kEmpty, DenseArray<T>(), Opt<T>(d)), all, what};
  }
  return {Array<T>(n, MakeFilter(n, ids, off), MakeDense<T>(data, style), Opt<T>(d)), all, what};
}

template <class T>
void Check(const Array<T>& a, const Codes& c, const std::string& what) {
  int n = c.size();
  mc::step();
  MC_EQ(a.size(), (int64_t)n, "size: " << what);
  MC_EQ(a.empty(), n == 0, "empty: " << what);
  MC_EQ(int(a.IsConstForm()) + a.IsDenseForm() + a.IsSparseForm(), 1, "form: " << what);
  int64_t count = 0;
  for (int i = 0; i < n; ++i) {
    auto v = a[i];
    MC_EQ(v.present, c[i] >= 0, "presence of " << i << ": " << what);
    if (v.present) MC_CHECK(v.value == Val<T>(c[i]), "value of " << i << ": " << what);
    count += c[i] >= 0;
  }
  MC_EQ(a.PresentCount(), count, "PresentCount: " << what);
  if (a.IsFullForm()) MC_EQ(count, (int64_t)n, "a full form with missing values: " << what);
  if (a.IsAllMissingForm()) MC_EQ(count, (int64_t)0, "an all missing form with values: " << what);
  if (a.HasMissingIdValue()) {
    MC_CHECK(a.missing_id_value().present, "HasMissingIdValue: " << what);
  }
  int i = 0;
  auto see = [&](int64_t id, bool p, view_type_t<T> v) {
    MC_EQ(id, (int64_t)i, "order of ids: " << what);
    MC_CHECK(i < n, "too many ids: " << what);
    MC_EQ(p, c[i] >= 0, "ForEach presence of " << i << ": " << what);
    if (p) MC_CHECK(v == view_type_t<T>(Val<T>(c[i])), "ForEach value of " << i << ": " << what);
    ++i;
  };
  a.ForEach(see);
  MC_EQ(i, n, "ForEach calls: " << what);
  i = 0;
  a.ForEach(see, [&](int64_t id, int64_t k, bool p, view_type_t<T> v) {
    for (int64_t j = 0; j < k; ++j) see(id + j, p, v);
  });
  MC_EQ(i, n, "ForEach (repeated) calls: " << what);
  for (int rep = 0; rep < 2; ++rep) {
    int next = 0;
    int64_t calls = 0;
    auto pres = [&](int64_t id, view_type_t<T> v) {
      MC_CHECK(id >= next && id < n, "ForEachPresent ids: " << what);
      MC_CHECK(c[id] >= 0, "ForEachPresent of a missing element: " << what);
      MC_CHECK(v == view_type_t<T>(Val<T>(c[id])), "ForEachPresent value: " << what);
      next = id + 1;
      ++calls;
    };
    if (rep == 0) a.ForEachPresent(pres);
    else a.ForEachPresent(pres, [&](int64_t id, int64_t k, view_type_t<T> v) { for (int64_t j = 0; j < k; ++j) pres(id + j, v); });
    MC_EQ(calls, count, "ForEachPresent calls: " << what);
  }
  i = 0;
  for (const auto& v : a) {
    MC_EQ(v.present, c[i] >= 0, "iterator at " << i << ": " << what);
    ++i;
  }
  MC_EQ(i, n, "iterator: " << what);
  // Invariants of the representation.
  if (a.IsSparseForm()) {
    const auto& ids = a.id_filter().ids();
    MC_CHECK(ids.size() > 0 && ids.size() < n, "a sparse form which is not sparse: " << what);
    for (int64_t k = 0; k < ids.size(); ++k) {
      int64_t id = a.id_filter().IdsOffsetToId(k);
      MC_CHECK(id >= 0 && id < n, "an id outside of the array: " << what);
      if (k) MC_CHECK(ids[k - 1] < ids[k], "ids are not sorted: " << what);
      auto o = a.id_filter().IdToOffset(id);
      MC_CHECK(o.present && o.value == k, "IdToOffset: " << what);
    }
    MC_EQ(a.dense_data().size(), ids.size(), "size of the data: " << what);
  }
  if (a.IsConstForm()) MC_EQ(a.dense_data().size(), (int64_t)0, "data of a constant: " << what);
  if (a.IsDenseForm()) MC_EQ(a.dense_data().size(), (int64_t)n, "data of a dense form: " << what);
  MC_CHECK(a.dense_data().CheckBitmapMatchesValues(), "bitmap size: " << what);
}

template <class T>
std::pair<Array<T>, Codes> Derive(const Array<T>& a, const Codes& c, std::string& what) {
  int n = c.size();
  int op = mc::choose(7);
  switch (op) {
    case 0: {
      int from = mc::range(0, n), k = mc::range(0, n - from);
      what += mc::cat(" slice ", from, "+", k);
      return {a.Slice(from, k), Codes(c.begin() + from, c.begin() + from + k)};
    }
    case 1: {
      what += " owned";
      auto r = a.MakeOwned();
      MC_CHECK(r.is_owned(), "MakeOwned is not owned: " << what);
      return {r, c};
    }
    case 2: what += " unowned"; return {a.MakeUnowned(), c};
    case 3: {
      what += " dense";
      auto r = a.ToDenseForm();
      if (n > 0) MC_CHECK(r.IsDenseForm(), "ToDenseForm is not dense: " << what);
      return {r, c};
    }
    case 4: {
      int d = mc::choose(4) - 1;
      if (d == 2) d = 40;  // a value which never occurs
      what += mc::cat(" sparse ", d);
      auto r = a.ToSparseForm(Opt<T>(d));
      // "If missing_id_value is nullopt, then the resulted Array will have no bitmap."
      if (d < 0) MC_CHECK(r.dense_data().bitmap.empty(), "ToSparseForm() has a bitmap: " << what);
      return {r, c};
    }
    case 5: {
      what += " dense buffer";
      auto d = ToDenseArray(a);
      MC_EQ(d.bitmap_bit_offset, 0, "ToDenseArray offset: " << what);
      return {Array<T>(d), c};
    }
    default: {
      int mask = mc::choose(1 << n), d = mc::choose(3) - 1, off = mc::choose(2) * 2;
      if (d == 1) d = 40;
      std::vector<int64_t> ids;
      Codes r = c;
      for (int i = 0; i < n; ++i) {
        if (mask >> i & 1) ids.push_back(i);
        else r[i] = d;
      }
      what += mc::cat(" with ids ", mask, " default ", d, " offset ", off);
      auto f = MakeFilter(n, ids, off);
      auto x = a.WithIds(f, Opt<T>(d));
      if (n > 0) MC_EQ(int(x.id_filter().type()), int(f.type()), "WithIds filter: " << what);
      return {x, r};
    }
  }
}

template <class T>
void Views() {
  int n = mc::range(0, mc::tier(3, std::is_same_v<T, int> ? 5 : 4));
  auto x = ChooseArr<T>(n);
  MC_SAY(x.s);
  Check(x.a, x.c, x.s);
  std::string what = x.s;
  auto y = Derive(x.a, x.c, what);
  MC_SAY(what);
  Check(y.first, y.second, what);
  Check(x.a, x.c, "after the derivation, " + x.s);
  mc::state(what);
}
MC_HARNESS(views_int) { Views<int>(); }
MC_HARNESS(views_string) { Views<std::string>(); }

template <class T>
void Views2() {
  int n = mc::range(1, mc::tier(2, 3));
  auto x = ChooseArr<T>(n);
  std::string what = x.s;
  auto y = Derive(x.a, x.c, what);
  auto z = Derive(y.first, y.second, what);
  MC_SAY(what);
  Check(z.first, z.second, what);
  Check(y.first, y.second, "the intermediate array of " + what);
  Array<T> copy = z.first;
  Check(copy, z.second, "copy of " + what);
  MC_CHECK(ArraysAreEquivalent(z.first, Array<T>(MakeDense<T>(z.second, 0))), "not equivalent to its elements: " << what);
  mc::state(what);
}
MC_HARNESS(views2_int) { Views2<int>(); }
MC_HARNESS(views2_string) { Views2<std::string>(); }

template <class T>
void Pairs() {
  int n = mc::range(0, mc::tier(2, 3));
  auto x = ChooseArr<T>(n), y = ChooseArr<T>(n);
  bool same = x.c == y.c;
  MC_SAY(x.s << " and " << y.s);
  MC_EQ(ArraysAreEquivalent(x.a, y.a), same, "ArraysAreEquivalent: " << x.s << " and " << y.s);
  bool fp = FingerprintHasher("a").Combine(x.a).Finish() == FingerprintHasher("a").Combine(y.a).Finish();
  if (!same) MC_CHECK(!fp, "different arrays with one fingerprint: " << x.s << " and " << y.s);
  // A copy of all buffers.
  auto copy = x.a.MakeUnowned().MakeOwned();
  MC_CHECK(FingerprintHasher("a").Combine(x.a).Finish() == FingerprintHasher("a").Combine(copy).Finish(), "a copy with another fingerprint: " << x.s);
  Array<T> longer(n + 1, Opt<T>(x.c.empty() ? 0 : x.c[0]));
  MC_CHECK(!ArraysAreEquivalent(x.a, longer) && !ArraysAreEquivalent(longer, x.a), "arrays of different sizes");
  mc::step();
  mc::state(x.s + y.s);
}
MC_HARNESS(pairs_int) { Pairs<int>(); }
MC_HARNESS(pairs_string) { Pairs<std::string>(); }

// Slices compared with arrays of the same contents and with other slices.
MC_HARNESS(slice_pairs) {
  int n = mc::range(1, mc::tier(3, 4));
  auto x = ChooseArr<int>(n, 1, 1);
  int a = mc::range(0, n), k = mc::range(0, n - a), b = mc::range(0, n - k);
  auto p = x.a.Slice(a, k), q = x.a.Slice(b, k);
  Codes pc(x.c.begin() + a, x.c.begin() + a + k), qc(x.c.begin() + b, x.c.begin() + b + k);
  MC_SAY(x.s << " slices " << a << " " << b << " of " << k);
  MC_EQ(ArraysAreEquivalent(p, q), pc == qc, "slices of " << x.s << " at " << a << " and " << b << ", length " << k);
  bool fp = FingerprintHasher("a").Combine(p).Finish() == FingerprintHasher("a").Combine(q).Finish();
  if (pc != qc) MC_CHECK(!fp, "different slices with one fingerprint: " << x.s << " at " << a << " and " << b << ", length " << k);
  mc::step();
}

// ---- Id filters

std::vector<int64_t> Ids(int mask) {
  std::vector<int64_t> r;
  for (int i = 0; i < 31; ++i)
    if (mask >> i & 1) r.push_back(i);
  return r;
}

MC_HARNESS(filters) {
  // Small sets completely; large sizes are needed for a sparse union.
  int kind = mc::choose(2);
  int k = kind == 0 ? mc::range(1, mc::tier(4, 5)) : mc::tier(4, 5);
  int n = kind == 0 ? k : 16;
  int spread = kind == 0 ? 1 : 3;
  int ma = mc::choose(1 << k), mb = mc::choose(1 << k);
  int oa = mc::choose(2) * 5, ob = mc::choose(2) * 3;
  auto wide = [&](int m) {
    auto v = Ids(m);
    for (auto& i : v) i *= spread;
    return v;
  };
  auto va = wide(ma), vb = wide(mb);
  IdFilter fa = MakeFilter(n, va, oa), fb = MakeFilter(n, vb, ob);
  auto what = mc::cat(ma, "+", oa, " and ", mb, "+", ob, " of ", n);
  MC_SAY(what);
  auto type = [&](const std::vector<int64_t>& v) { return v.empty() ? IdFilter::kEmpty : (int)v.size() == n ? IdFilter::kFull : IdFilter::kPartial; };
  MC_EQ(int(fa.type()), int(type(va)), "type: " << what);
  for (int i = 0; i < n; ++i) {
    auto o = fa.IdToOffset(i);
    auto it = std::find(va.begin(), va.end(), i);
    MC_EQ(o.present, it != va.end(), "IdToOffset: " << what);
    if (o.present) MC_EQ(o.value, int64_t(it - va.begin()), "IdToOffset value: " << what);
  }
  MC_CHECK(fa.IsSame(fa), "IsSame: " << what);
  if (va != vb) MC_CHECK(!fa.IsSame(fb), "IsSame of different filters: " << what);
  bool fp = FingerprintHasher("a").Combine(fa).Finish() == FingerprintHasher("a").Combine(fb).Finish();
  if (va != vb) MC_CHECK(!fp, "different filters with one fingerprint: " << what);
  auto contains = [&](const IdFilter& f, int i) { return bool(f.IdToOffset(i).present); };
  IdFilter u = IdFilter::UpperBoundMerge(n, GetHeapBufferFactory(), fa, fb);
  const IdFilter& x = IdFilter::UpperBoundIntersect(fa, fb);
  for (int i = 0; i < n; ++i) {
    bool ia = contains(fa, i), ib = contains(fb, i);
    if (ia || ib) MC_CHECK(contains(u, i), "an id is not in the union: " << what);
    else if (u.type() != IdFilter::kFull) MC_CHECK(!contains(u, i), "an extra id in the union: " << what);
    if (ia && ib) MC_CHECK(contains(x, i), "an id is not in the intersection: " << what);
  }
  if (u.type() == IdFilter::kPartial) {
    std::vector<int64_t> s(u.ids().begin(), u.ids().end());
    for (size_t i = 1; i < s.size(); ++i) MC_CHECK(s[i - 1] < s[i], "the union is not sorted: " << what);
  }
  MC_CHECK(x.IsSame(fa) || x.IsSame(fb), "not one of the filters: " << what);
  auto size = [&](const IdFilter& f) { return f.type() == IdFilter::kFull ? (int64_t)n : f.ids().size(); };
  MC_CHECK(size(x) <= std::min(size(fa), size(fb)), "not the smallest filter: " << what);
  // Three filters.
  IdFilter fc = MakeFilter(n, wide(1), 0);
  IdFilter u3 = IdFilter::UpperBoundMerge(n, GetHeapBufferFactory(), fa, fb, fc);
  for (int i = 0; i < n; ++i) {
    if (contains(fa, i) || contains(fb, i) || contains(fc, i)) MC_CHECK(contains(u3, i), "an id is not in the union of three: " << what);
  }
  if (fa.type() == IdFilter::kPartial && fb.type() == IdFilter::kPartial) {
    std::vector<int64_t> want, got;
    for (int64_t i : va)
      if (contains(fb, i)) want.push_back(i);
    IdFilter::IntersectPartial_ForEach(fa, fb, [&](int64_t id, int64_t o1, int64_t o2) {
      got.push_back(id);
      MC_EQ(fa.IdToOffset(id).value, o1, "first offset: " << what);
      MC_EQ(fb.IdToOffset(id).value, o2, "second offset: " << what);
    });
    MC_CHECK(want == got, "common ids: " << what);
  }
  mc::step();
  mc::state(what);
}

MC_HARNESS(common_ids) {
  int k = mc::tier(6, 8);
  int ma = mc::choose(1 << k), mb = mc::choose(1 << k);
  if (ma == 0 || mb == 0) mc::abandon();
  int64_t oa = mc::choose(2) * 7, ob = mc::choose(2) * 4;
  auto va = Ids(ma), vb = Ids(mb);
  std::vector<std::tuple<int64_t, int64_t, int64_t>> want, got;
  for (size_t i = 0; i < va.size(); ++i)
    for (size_t j = 0; j < vb.size(); ++j)
      if (va[i] == vb[j]) want.emplace_back(va[i], i, j);
  for (auto& v : va) v += oa;
  for (auto& v : vb) v += ob;
  IdFilter::ForEachCommonId(absl::MakeConstSpan(va), oa, absl::MakeConstSpan(vb), ob,
                            [&](int64_t id, int64_t i, int64_t j) { got.emplace_back(id, i, j); });
  MC_CHECK(want == got, "ForEachCommonId of " << ma << " and " << mb);
  mc::step();
}

// ---- Builders and helpers

MC_HARNESS(builders) {
  int n = mc::pick({0, 1, 2, 3, 4, 9, 13});
  int k = std::min(n, 4);
  int mask = mc::choose(1 << k);
  auto ids = Ids(mask);
  for (auto& i : ids)
    if (n > 4) i *= n / 4;
  Codes c(n, -1), data;
  std::vector<OptionalValue<int>> vals;
  std::vector<int> plain;
  bool all = true;
  for (int64_t i : ids) {
    int code = mc::choose(3) - 1;
    if (code == 1) code = i + 1;
    data.push_back(code);
    c[i] = code;
    vals.push_back(Opt<int>(code));
    plain.push_back(Val<int>(code < 0 ? 50 : code));
    all &= code >= 0;
  }
  auto what = mc::cat(n, " ids ", mask, " ", Str(c));
  MC_SAY(what);
  Check(CreateArray<int, OptionalValue<int>>(n, ids, vals), c, "CreateArray from ids " + what);
  if (all) Check(CreateArray<int, int>(n, ids, plain), c, "CreateArray from ids and plain values " + what);
  std::vector<OptionalValue<int>> full;
  for (int x : c) full.push_back(Opt<int>(x));
  Check(CreateArray<int>(full), c, "CreateArray " + what);
  // Values at once or later.
  int extra = mc::choose(2);
  SparseArrayBuilder<int> b(n, ids.size() + extra);
  std::vector<std::pair<int64_t, int>> later;
  for (size_t i = 0; i < ids.size(); ++i) {
    MC_EQ(b.NextOffset(), (int64_t)i, "NextOffset");
    switch (mc::choose(3)) {
      case 0: b.Add(ids[i], vals[i]); break;
      case 1: b.SetByOffset(b.NextOffset(), vals[i]); b.AddId(ids[i]); break;
      default: b.AddId(ids[i]); later.emplace_back(i, data[i]); break;
    }
  }
  for (auto& [o, code] : later) b.SetByOffset(o, Opt<int>(code));
  Check(std::move(b).Build(), c, "SparseArrayBuilder " + what);
  mc::state(what);
}

MC_HARNESS(util) {
  int n = mc::range(0, mc::tier(3, 4));
  auto x = ChooseArr<int>(n);
  MC_SAY(x.s);
  auto m = ToArrayMask(x.a);
  MC_EQ(m.size(), (int64_t)n, "mask size: " << x.s);
  std::vector<int64_t> present;
  for (int i = 0; i < n; ++i) {
    MC_EQ(m[i].present, x.c[i] >= 0, "mask: " << x.s);
    if (x.c[i] >= 0) present.push_back(i);
  }
  for (int k = -1; k <= n + 1; ++k) {
    std::vector<int64_t> first = present, last(present.rbegin(), present.rend());
    if ((int)first.size() > std::max(k, 0)) first.resize(std::max(k, 0)), last.resize(std::max(k, 0));
    MC_CHECK(ArrayFirstPresentIds(m, k) == first, "ArrayFirstPresentIds " << k << ": " << x.s);
    MC_CHECK(ArrayLastPresentIds(m, k) == last, "ArrayLastPresentIds " << k << ": " << x.s);
  }
  auto buf = ToBuffer(x.a);
  MC_EQ(buf.ok(), (int)present.size() == n, "ToBuffer: " << x.s);
  if (buf.ok()) {
    MC_EQ(buf->size(), (int64_t)n, "ToBuffer size: " << x.s);
    for (int i = 0; i < n; ++i) MC_EQ((*buf)[i], Val<int>(x.c[i]), "ToBuffer: " << x.s);
  }
  int64_t off = mc::choose(2) * 4;
  for (int mask = 0; mask < 1 << n; ++mask) {
    auto ids = Ids(mask);
    std::vector<int64_t> with = ids;
    for (auto& i : with) i += off;
    size_t next = 0;
    ArrayForEachInSubset(x.a, absl::MakeConstSpan(with), off, [&](int64_t id, bool p, int v) {
      MC_CHECK(next < ids.size() && ids[next] == id, "ArrayForEachInSubset ids: " << x.s << " subset " << mask);
      MC_EQ(p, x.c[id] >= 0, "ArrayForEachInSubset presence: " << x.s << " subset " << mask);
      if (p) MC_EQ(v, Val<int>(x.c[id]), "ArrayForEachInSubset value: " << x.s << " subset " << mask);
      ++next;
    });
    MC_EQ(next, ids.size(), "ArrayForEachInSubset calls: " << x.s << " subset " << mask);
  }
  mc::step();
  mc::state(x.s);
}

// ---- Iteration over several arrays

template <class A, class B>
void IterateKind(const Arr<int>& x, const Arr<std::string>& y) {
  constexpr bool oa = is_optional_v<A>, ob = is_optional_v<B>;
  int n = x.c.size();
  auto what = mc::cat(oa ? "optional " : "", x.s, " and ", ob ? "optional " : "", y.s);
  auto valid = [&](int i) { return (oa || x.c[i] >= 0) && (ob || y.c[i] >= 0); };
  auto check = [&](int64_t i, const auto& a, const auto& b) {
    if constexpr (oa) {
      MC_EQ(a.present, x.c[i] >= 0, "presence of the first, row " << i << ": " << what);
      if (a.present) MC_EQ(a.value, Val<int>(x.c[i]), "the first, row " << i << ": " << what);
    } else {
      MC_EQ(a, Val<int>(x.c[i]), "the first, row " << i << ": " << what);
    }
    if constexpr (ob) {
      MC_EQ(b.present, y.c[i] >= 0, "presence of the second, row " << i << ": " << what);
      if (b.present) MC_CHECK(b.value == Val<std::string>(y.c[i]), "the second, row " << i << ": " << what);
    } else {
      MC_CHECK(b == Val<std::string>(y.c[i]), "the second, row " << i << ": " << what);
    }
  };
  auto run = [&](const auto& util, const char* kind) {
    int next = 0;
    int64_t count = 0;
    for (int i = 0; i < n; ++i) count += valid(i);
    MC_CHECK(util.PresentCountUpperEstimate() >= count && util.PresentCountUpperEstimate() <= n, "PresentCountUpperEstimate " << kind << what);
    int64_t calls = 0;
    util.IterateSimple([&](int64_t id, view_type_t<A> a, view_type_t<B> b) {
      MC_CHECK(id >= next && id < n && valid(id), "IterateSimple row " << id << kind << what);
      check(id, a, b);
      next = id + 1;
      ++calls;
    });
    MC_EQ(calls, count, "IterateSimple calls" << kind << what);
    for (int from = 0; from <= n; ++from) {
      for (int to = from; to <= n; ++to) {
        for (int rep = 0; rep < 2; ++rep) {
          // Every row of the range is reported once, in order, either with values or as missing.
          int64_t pos = from;
          auto fn = [&](int64_t id, view_type_t<A> a, view_type_t<B> b) {
            MC_EQ(id, pos, "Iterate row" << kind << what);
            MC_CHECK(id < to && valid(id), "Iterate row " << id << kind << what);
            check(id, a, b);
            ++pos;
          };
          auto missing = [&](int64_t id, int64_t k) {
            MC_EQ(id, pos, "Iterate missing row" << kind << what);
            for (int64_t j = 0; j < k; ++j) MC_CHECK(id + j < to && !valid(id + j), "a valid row is reported as missing, " << id + j << kind << what);
            pos += k;
          };
          if (rep) util.Iterate(from, to, fn, missing, [&](int64_t id, int64_t k, view_type_t<A> a, view_type_t<B> b) { for (int64_t j = 0; j < k; ++j) fn(id + j, a, b); });
          else util.Iterate(from, to, fn, missing);
          MC_EQ(pos, (int64_t)to, "Iterate covers " << from << ".." << to << kind << what);
        }
      }
    }
  };
  run(array_ops_internal::ArrayOpsUtil<false, meta::type_list<A, B>>(n, x.a, y.a), " (sparse) ");
  run(array_ops_internal::ArrayOpsUtil<true, meta::type_list<A, B>>(n, x.a, y.a), " (dense) ");
  mc::step();
}

MC_HARNESS(iterate) {
  int n = mc::range(0, mc::tier(2, 3));
  auto x = ChooseArr<int>(n, 1);
  auto y = ChooseArr<std::string>(n, 1);
  MC_SAY(x.s << " " << y.s);
  using OI = OptionalValue<int>;
  using OS = OptionalValue<std::string>;
  IterateKind<int, std::string>(x, y);
  IterateKind<OI, std::string>(x, y);
  IterateKind<int, OS>(x, y);
  IterateKind<OI, OS>(x, y);
  int calls = 0, want = 0;
  for (int i = 0; i < n; ++i) want += x.c[i] >= 0 && y.c[i] >= 0;
  ArraysIterate([&](int64_t id, int a, absl::string_view b) {
    MC_CHECK(a == Val<int>(x.c[id]) && b == Val<std::string>(y.c[id]), "ArraysIterate");
    ++calls;
  }, x.a, y.a);
  MC_EQ(calls, want, "ArraysIterate calls");
  calls = 0;
  ArraysIterateDense([&](int64_t id, OptionalValue<int> a, absl::string_view b) {
    MC_CHECK(a.present == (x.c[id] >= 0) && b == Val<std::string>(y.c[id]), "ArraysIterateDense");
    ++calls;
  }, x.a, y.a);
  want = 0;
  for (int i = 0; i < n; ++i) want += y.c[i] >= 0;
  MC_EQ(calls, want, "ArraysIterateDense calls");
  mc::state(x.s + y.s);
}

// Several arrays which share an id filter, and sparse unions of large arrays.
MC_HARNESS(iterate_large) {
  int n = mc::pick({12, 17});
  int ka = mc::choose(4), kb = mc::choose(4), da = mc::choose(2) - 1, db = mc::choose(2) - 1;
  std::vector<int64_t> pool = {0, 5, int64_t(n) - 1};
  auto make = [&](int k, int d, int first, auto tag) {
    using T = decltype(tag);
    std::vector<int64_t> ids;
    Codes c(n, d), data;
    // k: 0 - const, 1 - one id, 2 - two ids, 3 - two ids with a missing value
    for (int i = 0; i < std::min(k, 2); ++i) ids.push_back(pool[first + i]);
    for (size_t i = 0; i < ids.size(); ++i) {
      data.push_back(k == 3 && i == 0 ? -1 : int(ids[i]) % 5 + 1);
      c[ids[i]] = data.back();
    }
    auto a = ids.empty() ? Array<T>(n, Opt<T>(d)) : Array<T>(n, MakeFilter(n, ids, 0), MakeDense<T>(data, 0), Opt<T>(d));
    return Arr<T>{a, c, mc::cat(k, " from ", first, " default ", d, " of ", n)};
  };
  auto x = make(ka, da, mc::choose(2), int());
  auto y = make(kb, db, mc::choose(2), std::string());
  using OI = OptionalValue<int>;
  using OS = OptionalValue<std::string>;
  IterateKind<int, std::string>(x, y);
  IterateKind<OI, std::string>(x, y);
  IterateKind<int, OS>(x, y);
  IterateKind<OI, OS>(x, y);
  mc::state(x.s + y.s);
}

// ---- Pointwise operations

struct Shared {
  Array<int> x, y;
};

template <class Op, class Want>
void CheckOp(const Op& op, const Want& want, const Arr<int>& x, const Arr<int>& y, const char* name) {
  // want(i) - the code of the result: -1 is missing, -2 an error
  int n = x.c.size();
  auto what = mc::cat(name, ": ", x.s, " and ", y.s);
  absl::StatusOr<Array<int>> r = op(x.a, y.a);
  bool error = false;
  for (int i = 0; i < n; ++i) error |= want(x.c[i], y.c[i]) == -2;
  MC_EQ(!r.ok(), error, "status of " << what);
  mc::step();
  if (!r.ok()) return;
  MC_EQ(r->size(), (int64_t)n, "size of " << what);
  for (int i = 0; i < n; ++i) {
    int w = want(x.c[i], y.c[i]);
    auto v = (*r)[i];
    MC_EQ(v.present, w >= 0, "presence of row " << i << " of " << what);
    if (v.present) MC_EQ(v.value, w, "row " << i << " of " << what);
  }
  Check(r->ToDenseForm().WithIds(IdFilter::kEmpty, std::nullopt), Codes(n, -1), "result of " + what);
}

// Results are computed from the values: the oracle works on codes.
int Mix(int a, int b) { return int(uint32_t(a) * 1000u + uint32_t(b)); }
int MixC(int a, int b) { return Mix(a < 0 ? 0 : Val<int>(a), b < 0 ? 0 : Val<int>(b)); }

void AllOps(const Arr<int>& x, const Arr<int>& y) {
  using O = OptionalValue<int>;
  CheckOp(CreateArrayOp([](int a, int b) { return Mix(a, b); }), [](int a, int b) { return a < 0 || b < 0 ? -1 : MixC(a, b); }, x, y, "plain");
  CheckOp(CreateArrayOp([](int a, O b) { return Mix(a, b.present ? b.value : 0); }), [](int a, int b) { return a < 0 ? -1 : MixC(a, b); }, x, y, "second optional");
  CheckOp(CreateArrayOp([](O a, int b) { return Mix(a.present ? a.value : 0, b); }), [](int a, int b) { return b < 0 ? -1 : MixC(a, b); }, x, y, "first optional");
  CheckOp(CreateArrayOp([](O a, O b) -> O { return a.present || b.present ? O(Mix(a.present ? a.value : 0, b.present ? b.value : 0)) : O(); }),
          [](int a, int b) { return a < 0 && b < 0 ? -1 : MixC(a, b); }, x, y, "both optional");
  CheckOp(CreateArrayOp([](O a, O b) -> O { return a.present && b.present ? O() : O(1); }), [](int a, int b) { return a >= 0 && b >= 0 ? -1 : 1; }, x, y, "inverted");
  CheckOp(CreateArrayOp([](int a, int b) -> absl::StatusOr<int> {
            if (a == Val<int>(0) && b == Val<int>(0)) return absl::InvalidArgumentError("zero");
            return Mix(a, b);
          }),
          [](int a, int b) { return a < 0 || b < 0 ? -1 : a == 0 && b == 0 ? -2 : MixC(a, b); }, x, y, "error");
  CheckOp(CreateArrayOp([](O a, O b) -> absl::StatusOr<O> {
            if (!a.present && !b.present) return absl::InvalidArgumentError("missing");
            return O(Mix(a.present ? a.value : 0, b.present ? b.value : 0));
          }),
          [](int a, int b) { return a < 0 && b < 0 ? -2 : MixC(a, b); }, x, y, "optional error");
  CheckOp(CreateArrayOp<DenseOpFlags::kRunOnMissing>([](int a, int b) { return Mix(a, b); }), [](int a, int b) { return a < 0 || b < 0 ? -1 : MixC(a, b); }, x, y, "on missing");
}

MC_HARNESS(pointwise) {
  int n = mc::range(0, mc::tier(2, 3));
  auto x = ChooseArr<int>(n, 1);
  auto y = mc::flag() ? ChooseArr<int>(n, 1) : Arr<int>{x.a, x.c, x.s};
  MC_SAY(x.s << " " << y.s);
  AllOps(x, y);
  mc::state(x.s + y.s);
}

MC_HARNESS(pointwise_shared) {
  // Arrays with the same id filter object and different values.
  int n = mc::range(1, 3);
  auto x = ChooseArr<int>(n, 1);
  int d = mc::choose(2) - 1;
  Codes yc, data;
  for (int i = 0; i < n; ++i) {
    if (x.a.id_filter().IdToOffset(i).present) {
      int c = mc::choose(3) - 1;
      if (c == 1) c = 2 + i;
      data.push_back(c);
      yc.push_back(c);
    } else {
      yc.push_back(d);
    }
  }
  if (x.a.IsDenseForm() && d >= 0) mc::abandon();
  Arr<int> y{Array<int>(n, x.a.id_filter(), MakeDense<int>(data, 0), Opt<int>(d)), yc, "same filter " + Str(yc)};
  AllOps(x, y);
  mc::state(x.s + y.s);
}

MC_HARNESS(pointwise_sizes) {
  int a = mc::choose(3), b = mc::choose(3), da = mc::choose(2) - 1, db = mc::choose(2) - 1, f = mc::choose(4);
  auto make = [&](int n, int d, bool dense) { return dense ? Array<int>(MakeDense<int>(Codes(n, d), 0)) : Array<int>(n, Opt<int>(d)); };
  auto r = CreateArrayOp([](int x, OptionalValue<int> y) { return x; })(make(a, da, f & 1), make(b, db, f & 2));
  MC_EQ(r.ok(), a == b, "sizes " << a << " and " << b);
  if (r.ok()) MC_EQ(r->size(), (int64_t)a, "size");
  else MC_EQ(int(r.status().code()), int(absl::StatusCode::kInvalidArgument), "code");
  mc::step();
}

}  // namespace
MC_MAIN()
