// Jagged shapes against nested lists.
#include <algorithm>
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/qtype/types.h"
#include "arolla/array/id_filter.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/qtype/qtype.h"
#include "arolla/jagged_shape/array/util/concat.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/qtype/qtype.h"
#include "arolla/jagged_shape/dense_array/util/concat.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/jagged_shape/qexpr/shape_operators.h"
#include "arolla/jagged_shape/qtype/qtype.h"
#include "arolla/jagged_shape/util/concat.h"
#include "arolla/jagged_shape/util/repr.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/sequence/sequence.h"
#include "arolla/sequence/sequence_qtype.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/repr.h"
#include "mc.h"

namespace {

using namespace arolla;

constexpr int64_t kNone = std::numeric_limits<int64_t>::min();
using Vals = std::vector<int64_t>;

// The sizes of all groups, one list for each dimension.
using Dims = std::vector<Vals>;

std::string Str(const Vals& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + (v[i] == kNone ? std::string("-") : mc::cat(v[i]));
  return r + "]";
}
std::string Str(const Dims& d) {
  std::string r = "(";
  for (auto& v : d) r += Str(v);
  return r + ")";
}
int64_t Sum(const Vals& v) {
  int64_t s = 0;
  for (int64_t x : v) s += x;
  return s;
}
int64_t Size(const Dims& d) { return d.empty() ? 1 : Sum(d.back()); }

// Nested lists. A leaf has a value.
struct Node {
  int64_t value = 0;
  std::vector<Node> kids;
};

Node Nest(const Dims& d, const Vals& vals) {
  std::vector<Node> level;
  for (int64_t v : vals) level.push_back({v, {}});
  for (size_t i = d.size(); i-- > 0;) {
    std::vector<Node> up;
    size_t pos = 0;
    for (int64_t n : d[i]) {
      Node x;
      for (int64_t k = 0; k < n; ++k) x.kids.push_back(level[pos++]);
      up.push_back(std::move(x));
    }
    level = std::move(up);
  }
  return level[0];
}

// Sizes and values of a nested list of `rank` levels.
std::pair<Dims, Vals> Unnest(const Node& root, size_t rank) {
  Dims d;
  std::vector<const Node*> level = {&root};
  for (size_t i = 0; i < rank; ++i) {
    std::vector<const Node*> next;
    Vals sizes;
    for (auto* n : level) {
      sizes.push_back(n->kids.size());
      for (auto& k : n->kids) next.push_back(&k);
    }
    d.push_back(sizes);
    level = std::move(next);
  }
  Vals vals;
  for (auto* n : level) vals.push_back(n->value);
  return {d, vals};
}

Node ConcatNodes(const std::vector<Node>& xs, int dim, bool stack) {
  Node r;
  if (dim == 0) {
    for (auto& x : xs) {
      if (stack) r.kids.push_back(x);
      else r.kids.insert(r.kids.end(), x.kids.begin(), x.kids.end());
    }
    return r;
  }
  for (size_t i = 0; i < xs[0].kids.size(); ++i) {
    std::vector<Node> ys;
    for (auto& x : xs) ys.push_back(x.kids[i]);
    r.kids.push_back(ConcatNodes(ys, dim - 1, stack));
  }
  return r;
}

// The number of leaves under each node of the given depth.
Vals Leaves(const Dims& d, size_t from, size_t to) {
  Vals r(from == 0 ? 1 : Sum(d[from - 1]), 1);
  // Go from the bottom up.
  Vals below(to == 0 ? 1 : Sum(d[to - 1]), 1);
  for (size_t i = to; i-- > from;) {
    Vals up;
    size_t pos = 0;
    for (int64_t n : d[i]) {
      int64_t s = 0;
      for (int64_t k = 0; k < n; ++k) s += below[pos++];
      up.push_back(s);
    }
    below = std::move(up);
  }
  return below;
}

Dims Flatten(const Dims& d, size_t from, size_t to) {
  Dims r(d.begin(), d.begin() + from);
  r.push_back(Leaves(d, from, to));
  r.insert(r.end(), d.begin() + to, d.end());
  return r;
}

// ---- The two kinds of shapes

DenseArray<int64_t> Dense(const Vals& v, bool offset = false) {
  DenseArrayBuilder<int64_t> b(v.size());
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] != kNone) b.Add(i, v[i]);
  auto a = std::move(b).Build();
  if (!offset) return a;
  // The same elements in the middle of a longer array.
  DenseArrayBuilder<int64_t> c(v.size() + 5);
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] != kNone) c.Add(i + 3, v[i]);
  c.Add(0, 77);
  return std::move(c).Build().Slice(3, v.size());
}

struct DenseK {
  using Shape = JaggedDenseArrayShape;
  using Edge = DenseArrayEdge;
  using Arr = DenseArray<int64_t>;
  static constexpr int kReps = 2;
  static Arr Make(const Vals& v, int rep = 0) { return Dense(v, rep == 1); }
  static const char* Name() { return "JaggedShape"; }
};
struct ArrayK {
  using Shape = JaggedArrayShape;
  using Edge = ArrayEdge;
  using Arr = Array<int64_t>;
  static constexpr int kReps = 4;
  static Arr Make(const Vals& v, int rep = 0) {
    if (rep < 2) return Array<int64_t>(Dense(v, rep == 1));
    // Sparse: the most useful default, or missing.
    int64_t dflt = rep == 2 || v.empty() ? kNone : v.back();
    Vals ids, data;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] != dflt) ids.push_back(i + 2), data.push_back(v[i]);
    auto o = dflt == kNone ? OptionalValue<int64_t>() : OptionalValue<int64_t>(dflt);
    if (ids.empty()) return Array<int64_t>(v.size(), o);
    return Array<int64_t>(v.size(), IdFilter(v.size(), Buffer<int64_t>::Create(ids.begin(), ids.end()), 2), Dense(data), o);
  }
  static const char* Name() { return "JaggedArrayShape"; }
};

template <class Arr>
Vals Elements(const Arr& a) {
  Vals r;
  for (int64_t i = 0; i < (int64_t)a.size(); ++i) {
    auto v = a[i];
    r.push_back(v.present ? v.value : kNone);
  }
  return r;
}

Vals Splits(const Vals& sizes) {
  Vals r = {0};
  for (int64_t n : sizes) r.push_back(r.back() + n);
  return r;
}

template <class K>
typename K::Edge SplitEdge(const Vals& sizes, int rep = 0) {
  auto e = K::Edge::FromSplitPoints(K::Make(Splits(sizes), rep));
  MC_CHECK(e.ok(), e.status().ToString());
  return *e;
}
template <class K>
typename K::Edge MapEdge(const Vals& sizes, int rep = 0) {
  Vals m;
  for (size_t p = 0; p < sizes.size(); ++p)
    for (int64_t i = 0; i < sizes[p]; ++i) m.push_back(p);
  auto e = K::Edge::FromMapping(K::Make(m, rep), sizes.size());
  MC_CHECK(e.ok(), e.status().ToString());
  return *e;
}
template <class K>
typename K::Shape MakeShape(const Dims& d) {
  typename K::Shape::EdgeVec edges;
  for (auto& sizes : d) edges.push_back(SplitEdge<K>(sizes));
  auto s = K::Shape::FromEdges(std::move(edges));
  MC_CHECK(s.ok(), "FromEdges " << Str(d) << ": " << s.status().ToString());
  return *s;
}

template <class Edge>
void CheckSizes(const Edge& e, const Vals& sizes, const std::string& what) {
  MC_CHECK(e.edge_type() == DenseArrayEdge::SPLIT_POINTS, "an edge without split points: " << what);
  MC_EQ(e.parent_size(), (int64_t)sizes.size(), "parents of an edge of " << what);
  auto v = Elements(e.edge_values());
  auto want = Splits(sizes);
  MC_CHECK(v == want, "split points are " << Str(v) << ", expected " << Str(want) << " of " << what);
  MC_EQ(e.child_size(), want.back(), "children of an edge of " << what);
}

template <class K>
std::string ReprOf(const Dims& d) {
  std::string r = std::string(K::Name()) + "(";
  for (size_t i = 0; i < d.size(); ++i) {
    if (i) r += ", ";
    auto& v = d[i];
    bool same = true;
    for (int64_t x : v) same &= x == v[0];
    if (v.empty()) {
      r += "[]";
    } else if (same) {
      r += mc::cat(v[0]);
    } else {
      r += "[";
      for (size_t k = 0; k < v.size(); ++k) {
        if (v.size() > 6 && k == 3) r += ", ...", k = v.size() - 3;
        r += mc::cat(k ? ", " : "", v[k]);
      }
      r += "]";
    }
  }
  return r + ")";
}

template <class K>
void CheckShape(const typename K::Shape& s, const Dims& d, const std::string& what) {
  mc::step();
  MC_EQ(s.rank(), d.size(), "rank of " << what);
  MC_EQ(s.edges().size(), d.size(), "edges of " << what);
  MC_EQ(s.size(), Size(d), "size of " << what);
  for (size_t i = 0; i < d.size(); ++i) CheckSizes(s.edges()[i], d[i], mc::cat("dimension ", i, " of ", what));
  auto r = Repr(s);
  MC_CHECK(r == ReprOf<K>(d), "repr is " << r << ", expected " << ReprOf<K>(d) << " of " << what);
}

// Every shape of the given rank whose dimensions have up to `group` children for each group, up to `total` in all.
Dims ChooseDims(int rank, int group, int total) {
  Dims d;
  int64_t parents = 1;
  for (int i = 0; i < rank; ++i) {
    Vals v;
    int left = total;
    for (int64_t p = 0; p < parents; ++p) {
      v.push_back(mc::range(0, std::min(group, left)));
      left -= v.back();
    }
    parents = Sum(v);
    d.push_back(v);
  }
  return d;
}

// Continues a prefix.
Dims ExtendDims(Dims d, int rank, int group, int total) {
  int64_t parents = Size(d);
  for (int i = d.size(); i < rank; ++i) {
    Vals v;
    int left = total;
    for (int64_t p = 0; p < parents; ++p) {
      v.push_back(mc::range(0, std::min(group, left)));
      left -= v.back();
    }
    parents = Sum(v);
    d.push_back(v);
  }
  return d;
}

// ---- Making shapes

// Lists of edges: arbitrary sizes, mapping or split points in every representation, unsorted and sparse mappings.
template <class K>
void FromEdges() {
  int rank = mc::range(0, 3);
  int top = rank == 3 ? mc::tier(1, 2) : 2, reps = rank == 3 ? mc::tier(1, 2) : K::kReps;
  typename K::Shape::EdgeVec edges;
  Dims d;
  bool valid = true;
  int64_t parents = 1;
  std::string what = std::string(K::Name()) + " of";
  for (int i = 0; i < rank; ++i) {
    // The number of parents: right, one less, one more.
    int64_t p = parents;
    if (valid) {
      int k = mc::choose(3);
      if (k == 1) p -= 1;
      if (k == 2) p += 1;
      if (p < 0) mc::abandon();
    }
    valid &= p == parents;
    Vals sizes;
    for (int64_t j = 0; j < p; ++j) sizes.push_back(mc::range(0, j < 2 ? top : 1));
    bool map = mc::flag();
    if (map && mc::flag()) {
      // A mapping without split points.
      Vals m;
      for (int64_t j = 0; j < p; ++j)
        for (int64_t k = 0; k < sizes[j]; ++k) m.push_back(j);
      if (m.empty()) mc::abandon();
      if (mc::flag()) {
        m[mc::choose(m.size())] = kNone;
      } else {
        if (m.front() == m.back()) mc::abandon();
        std::reverse(m.begin(), m.end());
      }
      auto e = K::Edge::FromMapping(K::Make(m, mc::choose(reps)), p);
      MC_CHECK(e.ok(), e.status().ToString());
      edges.push_back(*e);
      what += " bad mapping " + Str(m);
      valid = false;
    } else {
      int rep = i == 0 || map ? mc::choose(reps) : 0;
      edges.push_back(map ? MapEdge<K>(sizes, rep) : SplitEdge<K>(sizes, rep));
      what += (map ? " mapping " : " splits ") + Str(sizes) + mc::cat(" rep ", rep);
    }
    d.push_back(sizes);
    parents = Sum(sizes);
  }
  MC_SAY(what);
  auto s = K::Shape::FromEdges(edges);
  MC_EQ(s.ok(), valid, "FromEdges: " << what);
  mc::step();
  mc::state(what);
  if (!s.ok()) {
    MC_CHECK(s.status().code() == absl::StatusCode::kInvalidArgument || s.status().code() == absl::StatusCode::kFailedPrecondition, "code of " << s.status().ToString());
    return;
  }
  CheckShape<K>(*s, d, what);
  // The same shape in steps.
  int cut = mc::range(0, rank);
  auto head = K::Shape::FromEdges(typename K::Shape::EdgeVec(edges.begin(), edges.begin() + cut));
  MC_CHECK(head.ok(), head.status().ToString());
  auto whole = head->AddDims(absl::MakeConstSpan(edges).subspan(cut));
  MC_CHECK(whole.ok(), whole.status().ToString());
  CheckShape<K>(*whole, d, what + " by AddDims");
  CheckShape<K>(*head, Dims(d.begin(), d.begin() + cut), what + " head after AddDims");
  MC_CHECK(s->IsEquivalentTo(*whole) && whole->IsEquivalentTo(*s), "AddDims is not equivalent: " << what);
}
MC_HARNESS(from_edges_dense) { FromEdges<DenseK>(); }
MC_HARNESS(from_edges_array) { FromEdges<ArrayK>(); }

// ---- Unary operations

template <class K>
void Unary() {
  int rank = mc::range(0, 3);
  auto d = ChooseDims(rank, mc::tier(2, 3), mc::tier(4, 5));
  auto what = std::string(K::Name()) + Str(d);
  MC_SAY(what);
  auto s = MakeShape<K>(d);
  CheckShape<K>(s, d, what);
  mc::state(what);
  for (int from = 0; from <= rank; ++from) {
    CheckShape<K>(s.RemoveDims(from), Dims(d.begin(), d.begin() + from), mc::cat("RemoveDims ", from, " of ", what));
    for (int to = from; to <= rank; ++to) {
      CheckShape<K>(s.FlattenDims(from, to), Flatten(d, from, to), mc::cat("FlattenDims ", from, " ", to, " of ", what));
    }
  }
  CheckShape<K>(s, d, what + " afterwards");
  // Operators count from the end and clamp.
  MC_EQ((JaggedShapeRankOp<typename K::Shape>()(s)), (int64_t)rank, "rank operator: " << what);
  MC_EQ((JaggedShapeSizeOp<typename K::Shape>()(s)), Size(d), "size operator: " << what);
  static const int64_t kFar[] = {std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()};
  auto clamp = [&](int64_t i) { return i < 0 ? std::max<int64_t>(i + rank, 0) : std::min<int64_t>(i, rank); };
  std::vector<int64_t> ids(kFar, kFar + 2);
  for (int64_t i = -rank - 1; i <= rank + 1; ++i) ids.push_back(i);
  for (int64_t i : ids) {
    auto e = JaggedShapeEdgeAtOp<typename K::Shape>()(s, i);
    bool ok = i >= -rank && i < rank;
    MC_EQ(e.ok(), ok, "edge_at " << i << " of " << what);
    if (ok) CheckSizes(*e, d[i < 0 ? i + rank : i], mc::cat("edge_at ", i, " of ", what));
    CheckShape<K>(JaggedShapeRemoveDimsOp<typename K::Shape>()(s, i), Dims(d.begin(), d.begin() + clamp(i)), mc::cat("remove_dims ", i, " of ", what));
    for (int64_t j : ids) {
      auto a = clamp(i), b = std::max<int64_t>(clamp(j), a);
      CheckShape<K>(JaggedShapeFlattenOp<typename K::Shape>()(s, i, j), Flatten(d, a, b), mc::cat("flatten ", i, " ", j, " of ", what));
    }
  }
  if (rank == 1) {
    auto f = K::Shape::FlatFromSize(d[0][0]);
    CheckShape<K>(f, d, "FlatFromSize " + what);
    MC_CHECK(f.IsEquivalentTo(s), "FlatFromSize: " << what);
  }
  if (rank == 0) {
    CheckShape<K>(K::Shape::Empty(), d, "Empty()");
    CheckShape<K>(typename K::Shape(), d, "default");
  }
}
MC_HARNESS(unary_dense) { Unary<DenseK>(); }
MC_HARNESS(unary_array) { Unary<ArrayK>(); }

// ---- Pairs

template <class K>
void Pairs() {
  // Two shapes with a common prefix (possibly of no dimensions).
  int g = mc::tier(2, 3), total = mc::tier(3, 4);
  int ra = mc::range(0, 3), rb = mc::range(0, 3);
  auto a = ChooseDims(ra, g, total);
  int common = mc::range(0, std::min(ra, rb));
  auto b = ExtendDims(Dims(a.begin(), a.begin() + common), rb, g, total);
  if (common < std::min(ra, rb) && a[common] == b[common]) mc::abandon();  // a longer prefix
  auto what = mc::cat(K::Name(), " ", Str(a), " and ", Str(b));
  MC_SAY(what);
  auto x = MakeShape<K>(a), y = MakeShape<K>(b);
  mc::step();
  mc::state(what);
  bool same = a == b, prefix = common == ra;
  MC_EQ(x.IsEquivalentTo(y), same, "IsEquivalentTo " << what);
  MC_EQ((JaggedShapeEqualOp<typename K::Shape>()(x, y).present), same, "equal operator " << what);
  auto fast = x.FastEquivalenceCheck(y);
  bool sizes = ra == rb;
  for (int i = 0; sizes && i < ra; ++i) sizes &= Sum(a[i]) == Sum(b[i]);
  MC_EQ(fast.AreAllSizesEqual(), sizes, "AreAllSizesEqual " << what);
  MC_EQ(fast.IsGuaranteedNotEq(), !sizes, "IsGuaranteedNotEq " << what);
  MC_CHECK(!fast.IsGuaranteedEq() || same, "IsGuaranteedEq " << what);
  MC_CHECK(!same || ra > 1 || fast.IsGuaranteedEq(), "IsGuaranteedEq of few dimensions " << what);
  MC_EQ(x.IsBroadcastableTo(y), prefix, "IsBroadcastableTo " << what);
  MC_EQ((JaggedShapeIsBroadcastableToOp<typename K::Shape>()(x, y).present), prefix, "is_broadcastable_to operator " << what);
  MC_EQ((FingerprintHasher("a").Combine(x).Finish() == FingerprintHasher("a").Combine(y).Finish()), same, "fingerprints " << what);
  MC_EQ((TypedValue::FromValue(x).GetFingerprint() == TypedValue::FromValue(y).GetFingerprint()), same, "fingerprints of values " << what);
  if (prefix) CheckSizes(x.GetBroadcastEdge(y), Leaves(b, ra, rb), "GetBroadcastEdge " + what);
  // Copies.
  auto z = x;
  MC_CHECK(z.IsEquivalentTo(x) && z.FastEquivalenceCheck(x).IsGuaranteedEq(), "a copy differs: " << what);
  z = y;
  MC_EQ(z.IsEquivalentTo(x), same, "an assigned copy: " << what);
  auto w = std::move(z);
  CheckShape<K>(w, b, "moved " + what);
  CheckShape<K>(x, a, what);
}
MC_HARNESS(pairs_dense) { Pairs<DenseK>(); }
MC_HARNESS(pairs_array) { Pairs<ArrayK>(); }

// ---- Concat and stack

template <class K>
void Concat() {
  int n = mc::range(0, 3);
  bool stack = mc::flag();
  int rank = mc::range(0, 3);
  int dim = mc::range(-1, rank + (stack ? 1 : 0));
  // Common dimensions before `dim`; a deviation in one of them or in the rank makes the arguments invalid.
  int common = std::max(0, std::min(dim, rank));
  bool valid = n > 0 && dim >= 0 && dim < rank + (stack ? 1 : 0);
  int odd = n >= 2 ? mc::choose(3) : 0;  // 1: another rank, 2: another prefix
  if (odd == 2 && common == 0) mc::abandon();
  if (!valid && (odd || rank > 1)) mc::abandon();
  int g = n == 3 && rank > 1 ? mc::tier(1, 2) : 2, total = n == 3 || rank == 3 ? mc::tier(2, 2) : mc::tier(3, 4);
  if (n == 3 && rank == 3 && mc::tier(1, 0)) mc::abandon();
  Dims prefix;
  if (n > 0) prefix = ChooseDims(common, g, total);
  std::vector<Dims> ds;
  std::vector<Node> nodes;
  std::vector<typename K::Shape> shapes;
  std::vector<typename K::Arr> arrays;
  int rep = n == 2 && rank < 3 ? mc::choose(K::kReps) : K::kReps - 1;
  int64_t next = 1;
  auto what = mc::cat(K::Name(), stack ? " stack" : " concat", " along ", dim, " rep ", rep);
  for (int i = 0; i < n; ++i) {
    bool last = i == n - 1;
    auto p = prefix;
    int r = rank;
    if (odd && last) {
      if (odd == 1) {
        r = rank + (mc::flag() ? 1 : -1);
        if (r < 0) mc::abandon();
        p.resize(std::min<size_t>(r, p.size()));
      } else {
        p = ChooseDims(common, g, total);
        if (p == prefix) mc::abandon();
      }
      valid = false;
    }
    auto d = odd && !last ? ExtendDims(p, r, 1, 1) : ExtendDims(p, r, g, total);
    Vals v;
    // Every third element is missing; the second array has none but missing elements or all.
    int64_t size = Size(d);
    for (int64_t k = 0; k < size; ++k, ++next) v.push_back((next % 3 == 0) != (i == 1) ? kNone : next);
    what += " " + Str(d);
    ds.push_back(d);
    shapes.push_back(MakeShape<K>(d));
    arrays.push_back(K::Make(v, rep));
    nodes.push_back(Nest(d, v));
  }
  MC_SAY(what);
  mc::step();
  mc::state(what);
  auto s = stack ? StackJaggedShapesAlongDimension<typename K::Shape>(shapes, dim) : ConcatJaggedShapesAlongDimension<typename K::Shape>(shapes, dim);
  auto a = stack ? StackJaggedArraysAlongDimension<typename K::Arr, typename K::Shape>(arrays, shapes, dim) : ConcatJaggedArraysAlongDimension<typename K::Arr, typename K::Shape>(arrays, shapes, dim);
  MC_EQ(s.ok(), valid, what);
  MC_EQ(a.ok(), valid, "arrays: " << what);
  if (!valid) {
    MC_CHECK(s.status().code() == absl::StatusCode::kInvalidArgument && a.status() == s.status(), "status " << s.status().ToString() << ": " << what);
    return;
  }
  auto [d, v] = Unnest(ConcatNodes(nodes, dim, stack), rank + (stack ? 1 : 0));
  CheckShape<K>(*s, d, what);
  CheckShape<K>(std::get<1>(*a), d, "arrays: " + what);
  auto got = Elements(std::get<0>(*a));
  MC_CHECK(got == v, "elements are " << Str(got) << ", expected " << Str(v) << ": " << what);
  for (int i = 0; i < n; ++i) CheckShape<K>(shapes[i], ds[i], "argument of " + what);
  // An array of a wrong size, or an array too much.
  int k = mc::choose(n);
  auto bad = arrays;
  bad[k] = K::Make(Vals(arrays[k].size() + 1, 5));
  auto run = [&] { return stack ? StackJaggedArraysAlongDimension<typename K::Arr, typename K::Shape>(bad, shapes, dim) : ConcatJaggedArraysAlongDimension<typename K::Arr, typename K::Shape>(bad, shapes, dim); };
  MC_EQ(int(run().status().code()), int(absl::StatusCode::kInvalidArgument), "an array longer than its shape: " << what);
  bad = arrays;
  bad.push_back(arrays[0]);
  MC_EQ(int(run().status().code()), int(absl::StatusCode::kInvalidArgument), "an array without a shape: " << what);
}
MC_HARNESS(concat_dense) { Concat<DenseK>(); }
MC_HARNESS(concat_array) { Concat<ArrayK>(); }

MC_HARNESS(repr_sizes) {
  int n = mc::range(0, mc::tier(6, 7));
  Vals sizes;
  for (int i = 0; i < n; ++i) sizes.push_back(mc::choose(3) * 5);
  int part = mc::range(0, 3);
  std::string want;
  bool same = true;
  for (int64_t x : sizes) same &= x == sizes[0];
  if (n == 0) {
    want = "[]";
  } else if (same) {
    want = mc::cat(sizes[0]);
  } else {
    want = "[";
    bool first = true;
    auto add = [&](const std::string& s) {
      want += (first ? "" : ", ") + s;
      first = false;
    };
    for (int i = 0; i < n; ++i) {
      if (n > 2 * part && i == part) add("..."), i = n - part;
      if (i < n) add(mc::cat(sizes[i]));
    }
    want += "]";
  }
  MC_SAY(Str(sizes) << " parts of " << part);
  auto sp = Splits(sizes);
  auto got = CompactSplitPointsAsSizesRepr(sp, part);
  MC_CHECK(got == want, "repr is " << got << ", expected " << want << " of " << Str(sizes) << " parts of " << part);
  if (n == 0) MC_CHECK(CompactSplitPointsAsSizesRepr({}, part) == "[]", "repr of nothing");
  mc::step();
  mc::state(mc::cat(Str(sizes), part));
}

// ---- Operators over types

template <class K>
void RunOps() {
  using Shape = typename K::Shape;
  using Edge = typename K::Edge;
  int rank = mc::range(0, 3);
  auto d = ChooseDims(rank, 2, mc::tier(3, 4));
  int cut = mc::range(0, rank);
  int bad = mc::range(0, 1);
  auto what = mc::cat(K::Name(), Str(d), " cut at ", cut, bad ? " with one edge too much" : "");
  MC_SAY(what);
  FrameLayout::Builder lb;
  std::vector<TypedSlot> all, tail;
  auto shape_slot = lb.AddSlot<Shape>();
  auto out = lb.AddSlot<Shape>();
  auto seq = lb.AddSlot<Sequence>();
  std::vector<FrameLayout::Slot<Edge>> slots;
  tail.push_back(TypedSlot::FromSlot(shape_slot));
  for (int i = 0; i < rank + bad; ++i) {
    slots.push_back(lb.AddSlot<Edge>());
    all.push_back(TypedSlot::FromSlot(slots.back()));
    if (i >= cut) tail.push_back(all.back());
  }
  auto layout = std::move(lb).Build();
  MemoryAllocation mem(&layout);
  auto frame = mem.frame();
  for (int i = 0; i < rank; ++i) frame.Set(slots[i], mc::flag() ? MapEdge<K>(d[i]) : SplitEdge<K>(d[i]));
  if (bad) frame.Set(slots[rank], SplitEdge<K>(Vals(Size(d) + 1, 1)));
  auto run = [&](const QExprOperator& op, const std::vector<TypedSlot>& in, TypedSlot o) {
    auto b = op.Bind(in, o);
    MC_CHECK(b.ok(), "Bind: " << b.status().ToString());
    EvaluationContext ctx;
    (*b)->Run(&ctx, frame);
    return ctx.status();
  };
  mc::step();
  mc::state(what);
  auto st = run(JaggedShapeFromEdgesOperator<Shape>(rank + bad), all, TypedSlot::FromSlot(out));
  MC_EQ(st.ok(), !bad, "from_edges: " << what);
  if (!bad) CheckShape<K>(frame.Get(out), d, "from_edges " + what);
  frame.Set(shape_slot, MakeShape<K>(Dims(d.begin(), d.begin() + cut)));
  frame.Set(out, Shape());
  st = run(JaggedShapeAddDimsOperator<Shape>(tail.size()), tail, TypedSlot::FromSlot(out));
  MC_EQ(st.ok(), !bad, "add_dims: " << what);
  if (!bad) CheckShape<K>(frame.Get(out), d, "add_dims " + what);
  frame.Set(shape_slot, MakeShape<K>(d));
  st = run(JaggedShapeEdgesOperator<Shape>(), std::vector<TypedSlot>{TypedSlot::FromSlot(shape_slot)}, TypedSlot::UnsafeFromOffset(GetSequenceQType(GetQType<Edge>()), seq.byte_offset()));
  MC_CHECK(st.ok(), st.ToString());
  auto& s = frame.Get(seq);
  MC_EQ(s.size(), d.size(), "edges of " << what);
  MC_CHECK(s.value_qtype() == GetQType<Edge>(), "type of edges of " << what);
  for (int i = 0; i < rank; ++i) CheckSizes(s.GetRef(i).template UnsafeAs<Edge>(), d[i], mc::cat("edges ", i, " of ", what));
}
MC_HARNESS(ops_dense) { RunOps<DenseK>(); }
MC_HARNESS(ops_array) { RunOps<ArrayK>(); }

MC_HARNESS(shape_types) {
  static bool init = (InitArolla(), true);
  (void)init;
  // Types of shapes and of edges belong to each other.
  auto a = GetJaggedShapeQTypeFromEdgeQType(GetQType<ArrayEdge>());
  auto b = GetJaggedShapeQTypeFromEdgeQType(GetQType<DenseArrayEdge>());
  MC_CHECK(a.ok() && *a == GetQType<JaggedArrayShape>(), "array shape type");
  MC_CHECK(b.ok() && *b == GetQType<JaggedDenseArrayShape>(), "dense array shape type");
  MC_CHECK(IsJaggedShapeQType(*a) && IsJaggedShapeQType(*b) && !IsJaggedShapeQType(GetQType<int64_t>()) && !IsJaggedShapeQType(nullptr), "IsJaggedShapeQType");
  MC_CHECK(static_cast<const JaggedShapeQType*>(*a)->edge_qtype() == GetQType<ArrayEdge>(), "edge type");
  MC_CHECK(static_cast<const JaggedShapeQType*>(*b)->edge_qtype() == GetQType<DenseArrayEdge>(), "edge type");
  MC_CHECK(!GetJaggedShapeQTypeFromEdgeQType(GetQType<int64_t>()).ok() && !GetJaggedShapeQTypeFromEdgeQType(GetQType<ArrayGroupScalarEdge>()).ok(), "a shape type of no edge");
  MC_CHECK(!SetEdgeQTypeToJaggedShapeQType(GetQType<ArrayEdge>(), *b).ok(), "the type of a shape was replaced");
  MC_CHECK(*GetJaggedShapeQTypeFromEdgeQType(GetQType<ArrayEdge>()) == GetQType<JaggedArrayShape>(), "replaced type");
  mc::step();
}

}  // namespace

MC_MAIN()
