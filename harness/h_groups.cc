// Edges between index spaces and group operations over them, for dense and sparse arrays.
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/group_op.h"
#include "arolla/array/id_filter.h"
#include "arolla/array/multi_edge_util.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/dense_array/ops/multi_edge_util.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/meta.h"
#include "mc.h"

namespace {

using namespace arolla;

constexpr int64_t kNone = std::numeric_limits<int64_t>::min();
using Vals = std::vector<int64_t>;  // kNone is a missing element

std::string Str(const Vals& v) {
  std::string r = "[";
  for (int64_t x : v) r += x == kNone ? "- " : mc::cat(x, " ");
  return r + "]";
}

DenseArray<int64_t> Dense(const Vals& v, int style = 0) {
  // style 1: the bitmap starts at a bit offset and has set bits around.
  DenseArray<int64_t> r;
  Buffer<int64_t>::Builder b(v.size());
  bool all = true;
  for (size_t i = 0; i < v.size(); ++i) {
    // Values of missing elements must not be used.
    b.Set(i, v[i] == kNone ? 1000000007 : v[i]);
    all &= v[i] != kNone;
  }
  r.values = std::move(b).Build();
  if (v.empty() || (all && style == 0)) return r;
  int off = style ? 29 : 0;
  std::vector<uint32_t> w((off + v.size() + 31) / 32, style ? ~0u : 0u);
  for (size_t i = 0; i < v.size(); ++i) {
    int k = off + i;
    if (v[i] != kNone) w[k / 32] |= 1u << (k % 32);
    else w[k / 32] &= ~(1u << (k % 32));
  }
  r.bitmap = Buffer<uint32_t>::Create(w.begin(), w.end());
  r.bitmap_bit_offset = off;
  return r;
}

OptionalValue<int64_t> Opt(int64_t v) { return v == kNone ? OptionalValue<int64_t>() : OptionalValue<int64_t>(v); }

// An array with the given default: elements equal to it are not stored, those in `keep` are stored anyway.
Array<int64_t> Sparse(const Vals& v, int64_t dflt, unsigned keep, int64_t off, int style = 0) {
  std::vector<int64_t> ids;
  Vals data;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] != dflt || (i < 32 && (keep >> i & 1))) ids.push_back(i + off), data.push_back(v[i]);
  }
  if (ids.empty()) return Array<int64_t>(v.size(), Opt(dflt));
  return Array<int64_t>(v.size(), IdFilter(v.size(), Buffer<int64_t>::Create(ids.begin(), ids.end()), off), Dense(data, style), Opt(dflt));
}

// The two families of containers behind one interface.
struct DenseKind {
  using Edge = DenseArrayEdge;
  using Scalar = DenseArrayGroupScalarEdge;
  using Arr = DenseArray<int64_t>;
  template <class A> using Op = DenseGroupOps<A>;
  template <class A> using OpId = DenseGroupOpsWithId<A>;
  using Multi = DenseArrayMultiEdgeUtil;
  static constexpr int kReps = 2;
  static Arr Make(const Vals& v, int rep) { return Dense(v, rep); }
  static const char* Name() { return "dense "; }
};
template <bool kUseDense>
struct ArrayKindT {
  using Edge = ArrayEdge;
  using Scalar = ArrayGroupScalarEdge;
  using Arr = Array<int64_t>;
  template <class A> using Op = array_ops_internal::ArrayGroupOpImpl<A, typename A::parent_types, typename A::child_types, false, kUseDense>;
  template <class A> using OpId = array_ops_internal::ArrayGroupOpImpl<A, typename A::parent_types, meta::tail_t<typename A::child_types>, true, kUseDense>;
  using Multi = ArrayMultiEdgeUtil;
  static constexpr int kReps = 5;
  static Arr Make(const Vals& v, int rep) {
    switch (rep) {
      case 0: return Array<int64_t>(Dense(v, 0));
      case 1: return Sparse(v, kNone, 0, 0);
      case 2: return Sparse(v, v.empty() ? kNone : v[0], 0, 4, 1);
      case 3: return Array<int64_t>(Dense(v, 1));
      default: return Sparse(v, v.empty() ? kNone : v.back(), v.size() > 2 ? 2 : 0, 0);
    }
  }
  static const char* Name() { return kUseDense ? "array " : "array (no dense shortcut) "; }
};
using ArrayKind = ArrayKindT<true>;
using ArrayKind2 = ArrayKindT<false>;

template <class Arr>
Vals Elements(const Arr& a) {
  Vals r;
  for (int64_t i = 0; i < (int64_t)a.size(); ++i) {
    auto v = a[i];
    r.push_back(v.present ? v.value : kNone);
  }
  return r;
}

struct Mapping {  // the oracle of an edge
  int64_t parents = 0;
  Vals map;
  bool full() const {
    for (int64_t x : map)
      if (x == kNone) return false;
    return true;
  }
  bool sorted() const {
    for (size_t i = 1; i < map.size(); ++i)
      if (map[i - 1] > map[i]) return false;
    return true;
  }
  Vals splits() const {
    Vals s = {0};
    size_t pos = 0;
    for (int64_t p = 0; p < parents; ++p) {
      while (pos < map.size() && map[pos] == p) ++pos;
      s.push_back(pos);
    }
    return s;
  }
};

template <class Edge>
Mapping ReadEdge(const Edge& e, const std::string& what) {
  Mapping m;
  m.parents = e.parent_size();
  auto v = Elements(e.edge_values());
  if (e.edge_type() == DenseArrayEdge::MAPPING) {
    MC_EQ((int64_t)v.size(), e.child_size(), "size of a mapping: " << what);
    m.map = v;
    for (int64_t x : v) MC_CHECK(x == kNone || (x >= 0 && x < m.parents), "invalid mapping " << Str(v) << ": " << what);
  } else {
    MC_EQ((int64_t)v.size(), m.parents + 1, "number of split points: " << what);
    MC_EQ(v[0], (int64_t)0, "first split point: " << what);
    for (int64_t p = 0; p < m.parents; ++p) {
      MC_CHECK(v[p] != kNone && v[p] <= v[p + 1], "split points " << Str(v) << ": " << what);
      MC_EQ(e.split_size(p), v[p + 1] - v[p], "split_size: " << what);
      for (int64_t i = v[p]; i < v[p + 1]; ++i) m.map.push_back(p);
    }
    MC_EQ(v.back(), e.child_size(), "last split point: " << what);
  }
  return m;
}

template <class Edge>
void CheckEdge(const Edge& e, const Mapping& m, const std::string& what) {
  mc::step();
  MC_EQ(e.parent_size(), m.parents, "parent size: " << what);
  MC_EQ(e.child_size(), (int64_t)m.map.size(), "child size: " << what);
  auto r = ReadEdge(e, what);
  MC_CHECK(r.map == m.map, "the edge is " << Str(r.map) << ", expected " << Str(m.map) << ": " << what);
}

// ---- Making edges

template <class K>
void FromMapping() {
  int n = mc::range(0, mc::tier(3, 4)), p = mc::range(-1, mc::tier(2, 3));
  Mapping m{p, {}};
  bool valid = p >= 0;
  for (int i = 0; i < n; ++i) {
    // Missing, each parent, one too many, negative.
    int k = mc::choose(std::max(p, 0) + 3);
    int64_t v = k == 0 ? kNone : k <= std::max(p, 0) ? k - 1 : k == std::max(p, 0) + 1 ? std::max(p, 0) : -1;
    m.map.push_back(v);
    if (v != kNone) valid &= v >= 0 && v < p;
  }
  auto what = mc::cat(K::Name(), Str(m.map), " parents ", p);
  MC_SAY(what);
  int rep = mc::choose(K::kReps);
  auto arr = K::Make(m.map, rep);
  auto e = K::Edge::FromMapping(arr, p);
  MC_EQ(e.ok(), valid, "FromMapping accepts " << what);
  mc::state(what);
  if (!e.ok()) {
    MC_EQ(int(e.status().code()), int(absl::StatusCode::kInvalidArgument), "code: " << what);
    return;
  }
  MC_CHECK(e->edge_type() == DenseArrayEdge::MAPPING, "type: " << what);
  CheckEdge(*e, m, what);
  CheckEdge(e->ToMappingEdge(), m, "ToMappingEdge of " + what);
  auto s = e->ToSplitPointsEdge();
  MC_EQ(s.ok(), m.full() && m.sorted(), "ToSplitPointsEdge of " << what);
  if (s.ok()) {
    MC_CHECK(s->edge_type() == DenseArrayEdge::SPLIT_POINTS, "type of split points: " << what);
    CheckEdge(*s, m, "ToSplitPointsEdge of " + what);
    CheckEdge(s->ToMappingEdge(), m, "ToMappingEdge of ToSplitPointsEdge of " + what);
    MC_CHECK(s->IsEquivalentTo(*e) && e->IsEquivalentTo(*s), "not equivalent to its split points: " << what);
  }
}
MC_HARNESS(from_mapping_dense) { FromMapping<DenseKind>(); }
MC_HARNESS(from_mapping_array) { FromMapping<ArrayKind>(); }

template <class K>
void FromSplits() {
  int n = mc::range(0, mc::tier(4, 5));
  Vals v;
  int top = mc::tier(3, 4);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(top + 3);
    v.push_back(k == top + 2 ? kNone : k == top + 1 ? -1 : k);
  }
  bool valid = n > 0 && v[0] == 0;
  for (int i = 0; i < n; ++i) valid = valid && v[i] != kNone && (i == 0 || v[i - 1] <= v[i]);
  auto what = mc::cat(K::Name(), "split points ", Str(v));
  MC_SAY(what);
  auto e = K::Edge::FromSplitPoints(K::Make(v, mc::choose(K::kReps)));
  MC_EQ(e.ok(), valid, "FromSplitPoints accepts " << what);
  mc::step();
  mc::state(what);
  if (!e.ok()) {
    MC_EQ(int(e.status().code()), int(absl::StatusCode::kInvalidArgument), "code: " << what);
    return;
  }
  Mapping m{n - 1, {}};
  for (int p = 0; p + 1 < n; ++p)
    for (int64_t i = v[p]; i < v[p + 1]; ++i) m.map.push_back(p);
  MC_CHECK(e->edge_type() == DenseArrayEdge::SPLIT_POINTS, "type: " << what);
  CheckEdge(*e, m, what);
  CheckEdge(e->ToMappingEdge(), m, "ToMappingEdge of " + what);
  auto back = e->ToMappingEdge().ToSplitPointsEdge();
  MC_CHECK(back.ok(), "ToSplitPointsEdge of ToMappingEdge: " << what);
  CheckEdge(*back, m, "ToSplitPointsEdge of ToMappingEdge of " + what);
  MC_CHECK(Elements(back->edge_values()) == v, "split points are not restored: " << what);
  CheckEdge(K::Edge::UnsafeFromSplitPoints(K::Make(v, 0)), m, "UnsafeFromSplitPoints of " + what);
}
MC_HARNESS(from_splits_dense) { FromSplits<DenseKind>(); }
MC_HARNESS(from_splits_array) { FromSplits<ArrayKind>(); }

template <class K>
void Uniform() {
  static const int64_t kBig = std::numeric_limits<int64_t>::max();
  static const int64_t kP[] = {-1, 0, 1, 2, 3, 7};
  static const int64_t kG[] = {-1, 0, 1, 2, 3, 5, kBig / 2 + 1, kBig};
  int64_t p = mc::pick(kP), g = mc::pick(kG);
  auto e = K::Edge::FromUniformGroups(p, g);
  bool valid = p >= 0 && g >= 0 && (g == 0 || p <= kBig / g);
  auto what = mc::cat(K::Name(), p, " groups of ", g);
  MC_EQ(e.ok(), valid, "FromUniformGroups: " << what);
  mc::step();
  if (!e.ok()) return;
  MC_EQ(e->parent_size(), p, "parents: " << what);
  MC_EQ(e->child_size(), p * g, "children: " << what);
  MC_CHECK(e->edge_type() == DenseArrayEdge::SPLIT_POINTS, "type: " << what);
  for (int64_t i = 0; i < p; ++i) MC_EQ(e->split_size(i), g, "group " << i << ": " << what);
  if (g < 10) ReadEdge(*e, what);
}
MC_HARNESS(uniform_dense) { Uniform<DenseKind>(); }
MC_HARNESS(uniform_array) { Uniform<ArrayKind>(); }

// ---- Choosing an edge

template <class K>
struct E {
  typename K::Edge e;
  Mapping m;
  bool splits;
  std::string s;
};

// Every mapping and every list of split points between n children and p parents.
template <class K>
E<K> ChooseEdge(int p, int n, int reps = K::kReps) {
  bool splits = mc::flag();
  Mapping m{p, {}};
  if (splits) {
    if (p == 0 && n > 0) mc::abandon();
    Vals s = {0};
    for (int i = 0; i + 1 < p; ++i) s.push_back(mc::range((int)s.back(), n));
    if (p > 0) s.push_back(n);
    for (int i = 0; i < p; ++i)
      for (int64_t k = s[i]; k < s[i + 1]; ++k) m.map.push_back(i);
    auto e = K::Edge::FromSplitPoints(K::Make(s, 0));
    MC_CHECK(e.ok(), "FromSplitPoints: " << e.status().ToString());
    return {*e, m, true, mc::cat("splits ", Str(s))};
  }
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(p + 1);
    m.map.push_back(k == 0 ? kNone : k - 1);
  }
  int rep = reps > 1 ? mc::choose(reps) : 0;
  auto e = K::Edge::FromMapping(K::Make(m.map, rep), p);
  MC_CHECK(e.ok(), "FromMapping: " << e.status().ToString());
  return {*e, m, false, mc::cat("mapping ", Str(m.map), " of ", p, " rep ", rep)};
}

template <class K>
void Equivalent() {
  int top = mc::tier(2, 3);
  int p = mc::range(0, top), n = mc::range(0, top);
  int q = mc::range(std::max(0, p - 1), p), k = mc::range(std::max(0, n - 1), n);
  auto a = ChooseEdge<K>(p, n), b = ChooseEdge<K>(q, k);
  auto what = mc::cat(K::Name(), a.s, " and ", b.s);
  MC_SAY(what);
  bool same = p == q && a.m.map == b.m.map;
  MC_EQ(a.e.IsEquivalentTo(b.e), same, "IsEquivalentTo: " << what);
  MC_EQ(b.e.IsEquivalentTo(a.e), same, "IsEquivalentTo (reverse): " << what);
  bool fp = FingerprintHasher("a").Combine(a.e).Finish() == FingerprintHasher("a").Combine(b.e).Finish();
  if (!same) MC_CHECK(!fp, "different edges with one fingerprint: " << what);
  if (a.s == b.s && p == q) MC_CHECK(fp, "an edge made twice has two fingerprints: " << what);
  mc::step();
  mc::state(what);
}
MC_HARNESS(equivalent_dense) { Equivalent<DenseKind>(); }
MC_HARNESS(equivalent_array) { Equivalent<ArrayKind>(); }

MC_HARNESS(convert_edges) {
  int p = mc::range(0, mc::tier(2, 3)), n = mc::range(0, mc::tier(3, 4));
  auto a = ChooseEdge<ArrayKind>(p, n);
  MC_SAY(a.s);
  auto d = a.e.ToDenseArrayEdge();
  CheckEdge(d, a.m, "ToDenseArrayEdge of " + a.s);
  MC_EQ(d.edge_type() == DenseArrayEdge::SPLIT_POINTS, a.splits, "type of " << a.s);
  auto back = ArrayEdge::FromDenseArrayEdge(d);
  CheckEdge(back, a.m, "FromDenseArrayEdge of " + a.s);
  MC_CHECK(back.IsEquivalentTo(a.e), "not equivalent to itself: " << a.s);
  auto b = ChooseEdge<DenseKind>(p, n);
  CheckEdge(ArrayEdge::FromDenseArrayEdge(b.e), b.m, "FromDenseArrayEdge of " + b.s);
}

template <class K>
void Compose(int len, int top, int reps) {
  std::vector<int> size = {mc::range(0, top)};
  for (int i = 0; i < len; ++i) size.push_back(mc::range(0, top));
  std::vector<typename K::Edge> edges;
  std::string what = K::Name();
  Vals map;
  bool all_splits = true;
  for (int i = 0; i < len; ++i) {
    auto e = ChooseEdge<K>(size[i], size[i + 1], reps);
    edges.push_back(e.e);
    what += e.s + "; ";
    all_splits &= e.splits;
    if (i == 0) {
      map = e.m.map;
    } else {
      Vals next;
      for (int64_t x : e.m.map) next.push_back(x == kNone ? kNone : map[x]);
      map = next;
    }
  }
  MC_SAY(what);
  auto r = K::Edge::ComposeEdges(edges);
  MC_CHECK(r.ok(), "ComposeEdges: " << r.status().ToString() << ": " << what);
  MC_EQ(r->edge_type() == DenseArrayEdge::SPLIT_POINTS, all_splits, "type: " << what);
  CheckEdge(*r, Mapping{size[0], map}, "composition of " + what);
  mc::state(what);
}
MC_HARNESS(compose1_dense) { Compose<DenseKind>(1, 2, 2); }
MC_HARNESS(compose2_dense) { Compose<DenseKind>(2, mc::tier(2, 3), 2); }
MC_HARNESS(compose3_dense) { Compose<DenseKind>(3, 2, mc::tier(1, 2)); }
MC_HARNESS(compose4_dense) {
  if (mc::tier(1, 2) == 1) Compose<DenseKind>(4, 1, 1);
  else Compose<DenseKind>(4, 2, 1);
}
MC_HARNESS(compose2_array) { Compose<ArrayKind>(2, 2, mc::tier(3, 5)); }
MC_HARNESS(compose3_array) { Compose<ArrayKind>(3, mc::tier(1, 2), mc::tier(2, 3)); }

template <class K>
void ComposeErrors() {
  int len = mc::range(0, 3);
  std::vector<typename K::Edge> edges;
  std::vector<std::pair<int, int>> dims;
  bool ok = len > 0;
  std::string what = K::Name();
  for (int i = 0; i < len; ++i) {
    int p = mc::range(1, 2), g = mc::range(1, 2);
    bool map = mc::flag();
    auto e = K::Edge::FromUniformGroups(p, g);
    edges.push_back(map ? e->ToMappingEdge() : *e);
    what += mc::cat(p, "x", g, map ? "m " : "s ");
    dims.emplace_back(p, p * g);
    if (i > 0) ok &= dims[i - 1].second == p;
  }
  auto r = K::Edge::ComposeEdges(edges);
  MC_EQ(r.ok(), ok, "ComposeEdges of " << what);
  if (!r.ok()) MC_EQ(int(r.status().code()), int(absl::StatusCode::kInvalidArgument), "code");
  mc::step();
}
MC_HARNESS(compose_errors_dense) { ComposeErrors<DenseKind>(); }
MC_HARNESS(compose_errors_array) { ComposeErrors<ArrayKind>(); }

// ---- Group operations

// Accumulators remember everything they were given, in order. A value of 9 is an error.
using O = OptionalValue<int64_t>;
int64_t Code(const O& x) { return x.present ? x.value : -7; }
int64_t MixIn(int64_t h, int64_t x) { return int64_t((uint64_t(h) * 1000003u + uint64_t(x) + 11) & 0x3fffffffffffffff); }

template <AccumulatorType kType, class Res, class P, class C>
struct Acc;
template <AccumulatorType kType, class Res, class... Ps, class... Cs>
struct Acc<kType, Res, meta::type_list<Ps...>, meta::type_list<Cs...>> final : Accumulator<kType, Res, meta::type_list<Ps...>, meta::type_list<Cs...>> {
  int64_t h = 5;
  int64_t reads = 0;
  bool bad = false;
  bool finalized = false;
  void Reset(view_type_t<Ps>... ps) override {
    h = 1;
    reads = 0;
    finalized = false;
    ((h = MixIn(h, Code(ps))), ...);
    if (((Code(ps) == 9) || ... || false)) bad = true;
  }
  void Add(view_type_t<Cs>... cs) override {
    ((h = MixIn(h, Code(cs))), ...);
    if constexpr (sizeof...(Cs) == 0) h = MixIn(h, 3);
    if (((Code(cs) == 9) || ... || false)) bad = true;
  }
  void FinalizeFullGroup() override {
    h = MixIn(h, finalized ? 77 : 42);
    finalized = true;
  }
  Res Result() {
    int64_t r = h;
    if (kType == AccumulatorType::kFull) r = MixIn(h, reads++);
    if constexpr (is_optional_v<Res>) {
      if (r % 3 == 0) return {};
    }
    return r;
  }
  view_type_t<Res> GetResult() override { return Result(); }
  absl::Status GetStatus() override { return bad ? absl::InvalidArgumentError("nine") : absl::OkStatus(); }
};

template <class T>
struct Len;
template <class... T>
struct Len<meta::type_list<T...>> { static constexpr size_t value = sizeof...(T); };
template <class T>
constexpr size_t kLen = Len<T>::value;

template <class T>
bool Accepts(int64_t v) { return is_optional_v<T> || v != kNone; }

// The oracle. With `ids` the first argument of Add is the child id.
struct Result {
  bool error = false;
  Vals v;
  bool operator==(const Result& o) const { return error == o.error && (error || v == o.v); }
};

template <AccumulatorType kType, class Res, class... Ps, class... Cs>
Result Expect(const Mapping& m, const std::vector<Vals>& ps, const std::vector<Vals>& cs, bool ids, meta::type_list<Ps...>, meta::type_list<Cs...>, bool scalar = false) {
  Result r;
  constexpr bool agg = kType == AccumulatorType::kAggregator;
  r.v.assign(agg ? m.parents : m.map.size(), kNone);
  auto res = [](int64_t h) { return is_optional_v<Res> && h % 3 == 0 ? kNone : h; };
  for (int64_t p = 0; p < m.parents; ++p) {
    bool pv = true;
    int64_t h = 1;
    size_t k = 0;
    bool bad = false;
    ((pv &= scalar || Accepts<Ps>(ps[k][p]), h = MixIn(h, ps[k][p] == kNone ? -7 : ps[k][p]), bad |= ps[k][p] == 9, ++k), ...);
    if (!pv) continue;
    Vals rows;
    for (size_t c = 0; c < m.map.size(); ++c) {
      if (m.map[c] != p) continue;
      bool cv = true;
      k = 0;
      ((cv &= Accepts<Cs>(cs[k][c]), ++k), ...);
      if (!cv) continue;
      k = 0;
      if (ids) h = MixIn(h, c), bad |= c == 9;
      ((h = MixIn(h, cs[k][c] == kNone ? -7 : cs[k][c]), bad |= cs[k][c] == 9, ++k, (void)Accepts<Cs>(0)), ...);
      if (sizeof...(Cs) == 0 && !ids) h = MixIn(h, 3);
      rows.push_back(c);
      if (kType == AccumulatorType::kPartial) r.v[c] = res(h);
    }
    if (agg) r.v[p] = res(h);
    if (kType == AccumulatorType::kFull) {
      h = MixIn(h, 42);
      for (size_t i = 0; i < rows.size(); ++i) r.v[rows[i]] = res(MixIn(h, i));
    }
    r.error |= bad;
  }
  return r;
}

template <class Arr>
Result Read(const absl::StatusOr<Arr>& a, const std::string& what) {
  Result r;
  r.error = !a.ok();
  if (a.ok()) {
    r.v = Elements(*a);
    int64_t count = 0;
    for (int64_t x : r.v) count += x != kNone;
    MC_EQ(a->PresentCount(), count, "PresentCount of the result: " << what);
  } else {
    MC_CHECK(a.status().message() == "nine", "error is not of the accumulator: " << a.status().ToString() << ": " << what);
  }
  return r;
}

std::string Str(const Result& r) { return r.error ? "error" : Str(r.v); }

template <class K, AccumulatorType kType, class Res, class P, class C>
void Run(const E<K>& e, const std::vector<Vals>& pv, const std::vector<Vals>& cv, const std::vector<typename K::Arr>& pa, const std::vector<typename K::Arr>& ca, const char* name) {
  using A = Acc<kType, Res, P, C>;
  static const char* kTypes[] = {" aggregator", " partial", " full"};
  auto what = mc::cat(K::Name(), name, kTypes[int(kType)], is_optional_v<Res> ? " optional: " : ": ", e.s, " parents");
  for (auto& v : pv) what += " " + Str(v);
  what += " children";
  for (auto& v : cv) what += " " + Str(v);
  typename K::template Op<A> op(GetHeapBufferFactory());
  [&]<class... Ps, class... Cs, size_t... PI, size_t... CI>(meta::type_list<Ps...> pt, meta::type_list<Cs...> ct, std::index_sequence<PI...>, std::index_sequence<CI...>) {
    auto got = Read(op.Apply(e.e, pa[PI]..., ca[CI]...), what);
    auto want = Expect<kType, Res>(e.m, pv, cv, false, pt, ct);
    MC_CHECK(got == want, what << " is " << Str(got) << ", expected " << Str(want));
    mc::step();
    // Wrong sizes.
    auto longer = [](const Vals& v) {
      Vals r = v;
      r.push_back(1);
      return K::Make(r, 0);
    };
    if constexpr (sizeof...(Cs) > 0) {
      auto cb = ca;
      cb.back() = longer(cv.back());
      auto r = op.Apply(e.e, pa[PI]..., cb[CI]...);
      MC_CHECK(!r.ok() && r.status().message() != "nine", "a child argument of a wrong size is accepted: " << what);
    }
    if constexpr (sizeof...(Ps) > 0) {
      auto pb = pa;
      pb.back() = longer(pv.back());
      auto r = op.Apply(e.e, pb[PI]..., ca[CI]...);
      MC_CHECK(!r.ok() && r.status().message() != "nine", "a parent argument of a wrong size is accepted: " << what);
    }
  }(P(), C(), std::make_index_sequence<kLen<P>>(), std::make_index_sequence<kLen<C>>());
}

template <class... T>
using L = meta::type_list<T...>;

template <class K, AccumulatorType kType>
void AllOf(const E<K>& e, const Vals& p, const Vals& c, const Vals& c2, const typename K::Arr& pa, const typename K::Arr& ca, const typename K::Arr& c2a) {
  using I = int64_t;
  Run<K, kType, I, L<>, L<I>>(e, {}, {c}, {}, {ca}, "child");
  Run<K, kType, O, L<>, L<O>>(e, {}, {c}, {}, {ca}, "optional child");
  Run<K, kType, I, L<>, L<I, O>>(e, {}, {c, c2}, {}, {ca, c2a}, "child, optional child");
  Run<K, kType, O, L<I>, L<I>>(e, {p}, {c}, {pa}, {ca}, "parent, child");
  Run<K, kType, I, L<O>, L<I, I>>(e, {p}, {c, c2}, {pa}, {ca, c2a}, "optional parent, two children");
  Run<K, kType, I, L<I>, L<>>(e, {p}, {}, {pa}, {}, "parent");
}

// Child id as the first argument.
template <class K, AccumulatorType kType>
void WithId(const E<K>& e, const Vals& p, const Vals& c, const typename K::Arr& pa, const typename K::Arr& ca) {
  using A = Acc<kType, int64_t, L<O>, L<int64_t, int64_t>>;
  typename K::template OpId<A> op(GetHeapBufferFactory());
  auto what = mc::cat(K::Name(), "with id ", int(kType), " ", e.s, " ", Str(p), " ", Str(c));
  auto got = Read(op.Apply(e.e, pa, ca), what);
  // The id can be 9 as well: this is an error of the accumulator.
  auto want = Expect<kType, int64_t>(e.m, {p}, {c}, true, L<O>(), L<int64_t>());
  MC_CHECK(got == want, what << " is " << Str(got) << ", expected " << Str(want));
  mc::step();
}
template <class K, AccumulatorType kType>
void WithIdOnly(const E<K>& e) {
  using A = Acc<kType, int64_t, L<>, L<int64_t>>;
  typename K::template OpId<A> op(GetHeapBufferFactory());
  auto what = mc::cat(K::Name(), "with id only ", int(kType), " ", e.s);
  auto got = Read(op.Apply(e.e), what);
  auto want = Expect<kType, int64_t>(e.m, {}, {}, true, L<>(), L<>());
  MC_CHECK(got == want, what << " is " << Str(got) << ", expected " << Str(want));
}

template <class K>
void AllTypes(const E<K>& e, const Vals& p, const Vals& c, const Vals& c2, int rp, int rc, int rc2) {
  auto pa = K::Make(p, rp), ca = K::Make(c, rc), c2a = K::Make(c2, rc2);
  AllOf<K, AccumulatorType::kAggregator>(e, p, c, c2, pa, ca, c2a);
  AllOf<K, AccumulatorType::kPartial>(e, p, c, c2, pa, ca, c2a);
  AllOf<K, AccumulatorType::kFull>(e, p, c, c2, pa, ca, c2a);
  WithId<K, AccumulatorType::kAggregator>(e, p, c, pa, ca);
  WithId<K, AccumulatorType::kPartial>(e, p, c, pa, ca);
  WithId<K, AccumulatorType::kFull>(e, p, c, pa, ca);
  WithIdOnly<K, AccumulatorType::kAggregator>(e);
  WithIdOnly<K, AccumulatorType::kPartial>(e);
  WithIdOnly<K, AccumulatorType::kFull>(e);
}

Vals ChooseVals(int n, int base, int kinds = 3) {
  // Missing, the error value, or a value of its own.
  Vals v;
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(kinds);
    v.push_back(k == 0 ? base + i : k == 1 ? kNone : 9);
  }
  return v;
}
// A second argument that is present in some rows.
Vals PickVals(int n, int base) {
  int k = mc::choose(3);
  Vals v;
  for (int i = 0; i < n; ++i) v.push_back(k == 0 ? base : k == 1 ? kNone : i % 2 ? base : kNone);
  return v;
}

MC_HARNESS(groups_dense) {
  int p = mc::range(0, 2), n = mc::range(0, mc::tier(2, 3));
  auto e = ChooseEdge<DenseKind>(p, n);
  auto pv = ChooseVals(p, 20, mc::tier(2, 3)), cv = ChooseVals(n, 30), c2 = PickVals(n, 50);
  MC_SAY(e.s << Str(pv) << Str(cv) << Str(c2));
  AllTypes<DenseKind>(e, pv, cv, c2, 0, mc::tier(0, 1), mc::tier(1, 0));
  mc::state(e.s + Str(pv) + Str(cv) + Str(c2));
}

template <class K>
void GroupsArray() {
  int p = mc::range(0, 2), n = mc::range(0, mc::tier(2, 3));
  auto e = ChooseEdge<K>(p, n, mc::tier(2, 4));
  auto pv = ChooseVals(p, 20, 2), cv = ChooseVals(n, 30, mc::tier(2, 3)), c2 = PickVals(n, 50);
  // Constant arrays arise from equal values.
  if (mc::flag()) std::fill(cv.begin(), cv.end(), cv.empty() ? 0 : cv[0]);
  int rc = mc::choose(mc::tier(3, 4)), rc2 = mc::tier(1, 2) == 1 ? 2 : mc::pick({0, 2}), rp = (e.m.parents + rc) % 2;
  if (mc::tier(1, 2) == 2) rp = mc::choose(2);
  MC_SAY(e.s << Str(pv) << Str(cv) << Str(c2) << rc << rc2 << rp);
  AllTypes<K>(e, pv, cv, c2, rp, rc, rc2);
  mc::state(e.s + Str(pv) + Str(cv) + Str(c2));
}
MC_HARNESS(groups_array) { GroupsArray<ArrayKind>(); }
MC_HARNESS(groups_array2) { GroupsArray<ArrayKind2>(); }

// Very sparse data: few present children and many groups.
template <class K>
void GroupsSparse() {
  int p = mc::pick({5, 9}), n = mc::pick({5, 12});
  // Up to two children are present (a third has the error value or is missing but stored).
  static const int kPos[] = {0, 1, 3, 4};
  int present = mc::choose(1 << 4);
  Vals cv(n, kNone), c2(n, kNone), pv(p, 20);
  unsigned keep = 0;
  for (int i = 0; i < 4; ++i) {
    int at = n == 12 ? kPos[i] * 11 / 4 : kPos[i];
    if (present >> i & 1) cv[at] = 30 + i;
  }
  int extra = mc::choose(3);
  if (extra == 1) cv[2] = 9;
  if (extra == 2) keep = 1 << 2;
  Mapping m{p, {}};
  int kind = mc::choose(4);
  auto edge = [&]() -> typename K::Edge {
    if (kind <= 1) {
      Vals s = {0};
      // Groups of one and empty groups; or everything in the last groups.
      for (int i = 1; i < p; ++i) s.push_back(kind == 0 ? std::min(n, i * n / p + i % 2) : (i < 3 ? 0 : std::min(n, i - 2)));
      s.push_back(n);
      for (int i = 0; i < p; ++i)
        for (int64_t k = s[i]; k < s[i + 1]; ++k) m.map.push_back(i);
      return *K::Edge::FromSplitPoints(K::Make(s, 0));
    }
    for (int i = 0; i < n; ++i) m.map.push_back(kind == 2 ? (i * 7 + 3) % p : i % 3 == 1 ? p - 1 : kNone);
    return *K::Edge::FromMapping(K::Make(m.map, mc::choose(2)), p);
  };
  E<K> e{edge(), m, kind <= 1, mc::cat("kind ", kind, " ", Str(m.map), " of ", p)};
  auto what = mc::cat(e.s, " ", Str(cv), " keep ", keep);
  MC_SAY(what);
  auto pa = K::Make(pv, mc::choose(2)), ca = Sparse(cv, kNone, keep, mc::choose(2) * 3), c2a = K::Make(c2, 1);
  AllOf<K, AccumulatorType::kAggregator>(e, pv, cv, c2, pa, ca, c2a);
  AllOf<K, AccumulatorType::kPartial>(e, pv, cv, c2, pa, ca, c2a);
  AllOf<K, AccumulatorType::kFull>(e, pv, cv, c2, pa, ca, c2a);
  WithId<K, AccumulatorType::kAggregator>(e, pv, cv, pa, ca);
  WithId<K, AccumulatorType::kPartial>(e, pv, cv, pa, ca);
  WithId<K, AccumulatorType::kFull>(e, pv, cv, pa, ca);
  mc::state(what);
}
MC_HARNESS(groups_sparse) { GroupsSparse<ArrayKind>(); }

// ---- Everything in one group

template <class K, AccumulatorType kType, class Res, class C>
void RunScalar(const Vals& c, const Vals& c2, const typename K::Arr& ca, const typename K::Arr& c2a, int64_t parent) {
  using A = Acc<kType, Res, L<O>, C>;
  typename K::template Op<A> op(GetHeapBufferFactory());
  int64_t n = c.size();
  auto what = mc::cat(K::Name(), "scalar edge ", int(kType), " ", kLen<C>, is_optional_v<Res> ? " optional " : " ", Str(c), Str(c2), " parent ", parent);
  Mapping m{1, Vals(n, 0)};
  auto want = [&] {
    if constexpr (kLen<C> == 1) return Expect<kType, Res>(m, {{parent}}, {c}, false, L<O>(), C(), true);
    else return Expect<kType, Res>(m, {{parent}}, {c, c2}, false, L<O>(), C(), true);
  }();
  auto r = [&] {
    if constexpr (kLen<C> == 1) return op.Apply(typename K::Scalar(n), Opt(parent), ca);
    else return op.Apply(typename K::Scalar(n), Opt(parent), ca, c2a);
  }();
  mc::step();
  Result got;
  if constexpr (kType == AccumulatorType::kAggregator) {
    got.error = !r.ok();
    if (r.ok()) {
      if constexpr (is_optional_v<Res>) got.v = {r->present ? r->value : kNone};
      else got.v = {*r};
    }
  } else {
    got = Read(r, what);
  }
  MC_CHECK(got == want, what << " is " << Str(got) << ", expected " << Str(want));
  auto bad = [&] {
    if constexpr (kLen<C> == 1) return op.Apply(typename K::Scalar(n + 1), Opt(parent), ca).status();
    else return op.Apply(typename K::Scalar(n + 1), Opt(parent), ca, c2a).status();
  }();
  MC_CHECK(!bad.ok() && bad.message() != "nine", "a wrong size is accepted: " << what);
}

template <class K>
void ScalarEdge() {
  int n = mc::range(0, mc::tier(3, 4));
  auto c = ChooseVals(n, 30), c2 = PickVals(n, 50);
  if (mc::flag()) std::fill(c.begin(), c.end(), c.empty() ? 0 : c[0]);
  int64_t parent = mc::pick({int64_t(20), kNone});
  auto ca = K::Make(c, mc::choose(K::kReps)), c2a = K::Make(c2, mc::choose(K::kReps));
  using I = int64_t;
  auto all = [&]<AccumulatorType kType>() {
    RunScalar<K, kType, I, L<I>>(c, c2, ca, c2a, parent);
    RunScalar<K, kType, O, L<O>>(c, c2, ca, c2a, parent);
    RunScalar<K, kType, I, L<I, I>>(c, c2, ca, c2a, parent);
    RunScalar<K, kType, O, L<O, I>>(c, c2, ca, c2a, parent);
  };
  all.template operator()<AccumulatorType::kAggregator>();
  all.template operator()<AccumulatorType::kPartial>();
  all.template operator()<AccumulatorType::kFull>();
  mc::state(Str(c) + Str(c2));
}
MC_HARNESS(scalar_dense) { ScalarEdge<DenseKind>(); }
MC_HARNESS(scalar_array) { ScalarEdge<ArrayKind>(); }
MC_HARNESS(scalar_array2) { ScalarEdge<ArrayKind2>(); }

// ---- Operations with several edges

template <class K>
void MultiEdge() {
  int p = mc::range(0, 2), n = mc::range(0, mc::tier(2, 3));
  auto e = ChooseEdge<K>(p, n, mc::tier(2, std::min(3, K::kReps)));
  auto pv = ChooseVals(p, 20, 2), cv = ChooseVals(n, 30, 2), c2 = PickVals(n, 50);
  int reps = std::min(K::kReps, mc::tier(3, 5));
  auto pa = K::Make(pv, mc::choose(reps)), ca = K::Make(cv, mc::choose(reps)), c2a = K::Make(c2, mc::choose(reps));
  auto what = mc::cat(K::Name(), e.s, Str(pv), Str(cv), Str(c2));
  MC_SAY(what);
  std::vector<Vals> st(p), want(p);
  typename K::Multi u;
  auto add_parent = [](Vals& s, auto... v) { (s.push_back(Code(v)), ...); };
  auto add_child = [](Vals& s, int64_t id, auto... v) {
    s.push_back(id);
    (s.push_back(Code(v)), ...);
  };
  using I = int64_t;
  MC_CHECK(u.ApplyParentArgs([&](Vals& s, I v) { add_parent(s, v); }, absl::MakeSpan(st), L<I>(), pa).ok(), "ApplyParentArgs");
  MC_CHECK(u.ApplyParentArgs([&](Vals& s, O v, O w) { add_parent(s, v, w); }, absl::MakeSpan(st), L<O, O>(), pa, pa).ok(), "ApplyParentArgs");
  for (int i = 0; i < p; ++i) {
    if (pv[i] != kNone) want[i].push_back(pv[i]);
    int64_t c = pv[i] == kNone ? -7 : pv[i];
    want[i].push_back(c);
    want[i].push_back(c);
  }
  MC_CHECK(st == want, "ApplyParentArgs: " << what);
  MC_CHECK(u.ApplyChildArgs([&](Vals& s, int64_t id, I v) { add_child(s, id, v); }, absl::MakeSpan(st), e.e, L<I>(), ca).ok(), "ApplyChildArgs");
  MC_CHECK(u.ApplyChildArgs([&](Vals& s, int64_t id, I v, O w) { add_child(s, id, v, w); }, absl::MakeSpan(st), e.e, L<I, O>(), ca, c2a).ok(), "ApplyChildArgs");
  MC_CHECK(u.ApplyChildArgs([&](Vals& s, int64_t id) { add_child(s, id); }, absl::MakeSpan(st), e.e, L<>()).ok(), "ApplyChildArgs");
  for (int k = 0; k < 3; ++k) {
    for (int i = 0; i < n; ++i) {
      int64_t g = e.m.map[i];
      if (g == kNone || (k < 2 && cv[i] == kNone)) continue;
      want[g].push_back(i);
      if (k < 2) want[g].push_back(cv[i]);
      if (k == 1) want[g].push_back(c2[i] == kNone ? -7 : c2[i]);
    }
  }
  MC_CHECK(st == want, "ApplyChildArgs: " << what);
  // Results in the child space, in the order of calls.
  std::vector<int64_t> count(p, 100);
  auto r = u.template ProduceResult<int64_t>(GetHeapBufferFactory(), [&](int64_t& s, int64_t id, I v, O w) -> O { return ++s % 2 ? O(MixIn(s, v + Code(w))) : O(); },
                                              absl::MakeSpan(count), e.e, L<I, O>(), ca, c2a);
  MC_CHECK(r.ok(), "ProduceResult: " << what);
  Vals res(n, kNone);
  std::vector<int64_t> cnt(p, 100);
  for (int i = 0; i < n; ++i) {
    int64_t g = e.m.map[i];
    if (g == kNone || cv[i] == kNone) continue;
    if (++cnt[g] % 2) res[i] = MixIn(cnt[g], cv[i] + (c2[i] == kNone ? -7 : c2[i]));
  }
  MC_CHECK(Elements(*r) == res, "ProduceResult is " << Str(Elements(*r)) << ", expected " << Str(res) << ": " << what);
  // Wrong sizes.
  std::vector<Vals> more(p + 1);
  MC_CHECK(!u.ApplyParentArgs([&](Vals& s, I v) {}, absl::MakeSpan(more), L<I>(), pa).ok(), "too many states: " << what);
  MC_CHECK(!u.ApplyChildArgs([&](Vals& s, int64_t id, I v) {}, absl::MakeSpan(more), e.e, L<I>(), ca).ok(), "too many states: " << what);
  Vals lv = cv;
  lv.push_back(1);
  auto la = K::Make(lv, 0);
  MC_CHECK(!u.ApplyChildArgs([&](Vals& s, int64_t id, I v) {}, absl::MakeSpan(st), e.e, L<I>(), la).ok(), "a longer argument: " << what);
  MC_CHECK(!u.template ProduceResult<int64_t>(GetHeapBufferFactory(), [&](int64_t& s, int64_t id, I v) { return v; }, absl::MakeSpan(count), e.e, L<I>(), la).ok(), "a longer argument: " << what);
  mc::step();
  mc::state(what);
}
MC_HARNESS(multi_dense) { MultiEdge<DenseKind>(); }
MC_HARNESS(multi_array) { MultiEdge<ArrayKind>(); }

// ProduceResult chooses between dense and sparse results.
MC_HARNESS(multi_sparse) {
  int n = 12, p = 3;
  int present = mc::choose(1 << 4);
  Vals cv(n, kNone);
  for (int i = 0; i < 4; ++i)
    if (present >> i & 1) cv[i * 11 / 3] = 30 + i;
  Mapping m{p, {}};
  bool splits = mc::flag();
  for (int i = 0; i < n; ++i) m.map.push_back(splits ? i / 4 : i % 4 == 3 ? kNone : i % 4);
  auto e = splits ? *ArrayEdge::FromUniformGroups(3, 4) : *ArrayEdge::FromMapping(ArrayKind::Make(m.map, 1), p);
  std::vector<int64_t> st(p, 0);
  ArrayMultiEdgeUtil u;
  auto r = u.ProduceResult<int64_t>(GetHeapBufferFactory(), [&](int64_t& s, int64_t id, int64_t v) { return MixIn(++s, v); }, absl::MakeSpan(st), e, L<int64_t>(), Sparse(cv, kNone, mc::choose(2) * 4, 0));
  MC_CHECK(r.ok(), "ProduceResult");
  Vals want(n, kNone), cnt(p, 0);
  for (int i = 0; i < n; ++i)
    if (m.map[i] != kNone && cv[i] != kNone) want[i] = MixIn(++cnt[m.map[i]], cv[i]);
  MC_CHECK(Elements(*r) == want, "ProduceResult is " << Str(Elements(*r)) << ", expected " << Str(want));
  mc::step();
}

}  // namespace

MC_MAIN()
