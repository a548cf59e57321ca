// Decision forests: every evaluator against a walk over the trees.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/hash/hash.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/pointwise_evaluation/oblivious.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/bytes.h"
#include "arolla/util/fingerprint.h"
#include "mc.h"

namespace {

using namespace arolla;
using NodeId = DecisionTreeNodeId;

constexpr float kInf = std::numeric_limits<float>::infinity();
constexpr float kMax = std::numeric_limits<float>::max();
const float kNan = std::numeric_limits<float>::quiet_NaN();

// ---- Conditions and inputs of the oracle. Inputs 0 and 3 are floats, 1 is an integer, 2 is bytes.

struct Cond {
  int input;
  float lo = 0, hi = 0;        // floats: an interval
  std::vector<int64_t> ints;   // input 1
  std::vector<std::string> strs;
  bool missing = false;        // result for a missing value (sets only)
};
struct Row {
  std::optional<float> f;
  std::optional<int64_t> i;
  std::optional<std::string> s;
  std::optional<float> g;
};

Cond F(float lo, float hi, int input = 0) { return {input, lo, hi}; }
Cond I(std::vector<int64_t> v, bool m = false) {
  Cond c{1};
  c.ints = std::move(v);
  c.missing = m;
  return c;
}
Cond S(std::vector<std::string> v, bool m = false) {
  Cond c{2};
  c.strs = std::move(v);
  c.missing = m;
  return c;
}
std::string Str(const Cond& c) {
  if (c.input == 0 || c.input == 3) return mc::cat("#", c.input, " in [", c.lo, ",", c.hi, "]");
  std::string r = mc::cat("#", c.input, " in {");
  for (auto v : c.ints) r += mc::cat(v, " ");
  for (auto& v : c.strs) r += "'" + v + "' ";
  return r + (c.missing ? "or missing}" : "}");
}
template <class T>
std::string Str(const std::optional<T>& v) {
  return v ? mc::cat(*v) : std::string("-");
}
std::string Str(const Row& r) { return mc::cat("(", Str(r.f), ", ", Str(r.i), ", ", Str(r.s), ", ", Str(r.g), ")"); }

bool Holds(const Cond& c, const Row& r) {
  if (c.input == 1) return r.i ? std::find(c.ints.begin(), c.ints.end(), *r.i) != c.ints.end() : c.missing;
  if (c.input == 2) return r.s ? std::find(c.strs.begin(), c.strs.end(), *r.s) != c.strs.end() : c.missing;
  auto v = c.input == 0 ? r.f : r.g;
  return v && c.lo <= *v && *v <= c.hi;
}

std::shared_ptr<const SplitCondition> Make(const Cond& c, int shift = 0) {
  if (c.input == 1) return SetOfValuesSplit<int64_t>(c.input + shift, {c.ints.begin(), c.ints.end()}, c.missing);
  if (c.input == 2) {
    absl::flat_hash_set<Bytes> s;
    for (auto& v : c.strs) s.insert(Bytes(v));
    return SetOfValuesSplit<Bytes>(c.input + shift, s, c.missing);
  }
  return IntervalSplit(c.input + shift, c.lo, c.hi);
}

// ---- Trees of the oracle

struct Tree {
  struct Node {
    bool leaf = true;
    float value = 0;
    Cond cond{0};
    int no = -1, yes = -1;  // positions in nodes
  };
  std::vector<Node> nodes = {Node()};  // the first is the root
  float weight = 1;
  int step = 0, submodel = 0;
};

float Walk(const Tree& t, const Row& r) {
  int i = 0;
  while (!t.nodes[i].leaf) i = Holds(t.nodes[i].cond, r) ? t.nodes[i].yes : t.nodes[i].no;
  return t.nodes[i].value * t.weight;
}
std::string Str(const Tree& t, int i = 0) {
  auto& n = t.nodes[i];
  if (n.leaf) return mc::cat(n.value);
  return mc::cat("(", Str(n.cond), " ? ", Str(t, n.yes), " : ", Str(t, n.no), ")");
}

// style 0: inner nodes and leaves in depth-first order; 1: in breadth-first order, leaves backwards.
DecisionTree Make(const Tree& t, int style) {
  DecisionTree r;
  r.weight = t.weight;
  r.tag.step = t.step;
  r.tag.submodel_id = t.submodel;
  std::vector<int> order, id(t.nodes.size());
  std::vector<int> work = {0};
  while (!work.empty()) {
    int i = style ? work.front() : work.back();
    work.erase(style ? work.begin() : work.end() - 1);
    order.push_back(i);
    if (t.nodes[i].leaf) continue;
    work.push_back(t.nodes[i].yes);
    work.push_back(t.nodes[i].no);
  }
  int leaves = (t.nodes.size() + 1) / 2;
  int k = 0, l = 0;
  r.adjustments.resize(leaves);
  for (int i : order) {
    if (t.nodes[i].leaf) {
      id[i] = style ? leaves - 1 - l : l;
      ++l;
      r.adjustments[id[i]] = t.nodes[i].value;
    } else {
      id[i] = k++;
    }
  }
  r.split_nodes.resize(k);
  auto ref = [&](int i) { return t.nodes[i].leaf ? NodeId::AdjustmentId(id[i]) : NodeId::SplitNodeId(id[i]); };
  for (int i : order) {
    auto& n = t.nodes[i];
    if (!n.leaf) r.split_nodes[id[i]] = {ref(n.no), ref(n.yes), Make(n.cond)};
  }
  return r;
}

// Splits leaf `i`.
void Split(Tree& t, int i, const Cond& c) {
  t.nodes[i].leaf = false;
  t.nodes[i].cond = c;
  t.nodes[i].no = t.nodes.size();
  t.nodes[i].yes = t.nodes.size() + 1;
  t.nodes.emplace_back();
  t.nodes.emplace_back();
}
// Different values in all leaves. Sums of few trees are exact.
void Number(Tree& t, float scale = 1) {
  int k = 0;
  for (auto& n : t.nodes)
    if (n.leaf) n.value = scale * ++k;
}

// ---- Evaluation

struct Env {
  FrameLayout::Slot<OptionalValue<float>> f, g;
  FrameLayout::Slot<OptionalValue<int64_t>> i;
  FrameLayout::Slot<OptionalValue<Bytes>> s;
  std::vector<FrameLayout::Slot<float>> out;
  std::vector<TypedSlot> inputs;
  FrameLayout layout;
  std::unique_ptr<MemoryAllocation> mem;
  FramePtr frame() { return mem->frame(); }
  void Set(const Row& r) {
    frame().Set(f, OptionalValue<float>(r.f));
    frame().Set(g, OptionalValue<float>(r.g));
    frame().Set(i, OptionalValue<int64_t>(r.i));
    frame().Set(s, r.s ? OptionalValue<Bytes>(Bytes(*r.s)) : OptionalValue<Bytes>());
  }
};
Env& TheEnv() {
  static Env* env = [] {
    FrameLayout::Builder b;
    b.AddSlot<double>();
    auto f = b.AddSlot<OptionalValue<float>>();
    auto i = b.AddSlot<OptionalValue<int64_t>>();
    auto s = b.AddSlot<OptionalValue<Bytes>>();
    auto g = b.AddSlot<OptionalValue<float>>();
    std::vector<FrameLayout::Slot<float>> out;
    for (int k = 0; k < 4; ++k) out.push_back(b.AddSlot<float>());
    std::vector<TypedSlot> in = {TypedSlot::FromSlot(f), TypedSlot::FromSlot(i), TypedSlot::FromSlot(s), TypedSlot::FromSlot(g)};
    auto e = new Env{f, g, i, s, out, in, std::move(b).Build(), nullptr};
    e->mem = std::make_unique<MemoryAllocation>(&e->layout);
    return e;
  }();
  return *env;
}

struct Filter {
  int from = 0, to = -1;
  std::vector<int> submodels;
  bool operator()(const Tree& t) const { return t.step >= from && (to == -1 || t.step < to) && (submodels.empty() || std::count(submodels.begin(), submodels.end(), t.submodel)); }
  TreeFilter Make() const {
    TreeFilter f;
    f.step_range_from = from;
    f.step_range_to = to;
    f.submodels.insert(submodels.begin(), submodels.end());
    return f;
  }
};
std::string Str(const Filter& f) {
  std::string r = mc::cat("[", f.from, ",", f.to, ")");
  for (int s : f.submodels) r += mc::cat(" s", s);
  return r;
}

std::unique_ptr<DecisionForest> MakeForest(const std::vector<Tree>& trees, int style) {
  std::vector<DecisionTree> dt;
  for (auto& t : trees) dt.push_back(Make(t, style));
  auto f = DecisionForest::FromTrees(std::move(dt));
  MC_CHECK(f.ok(), f.status().ToString());
  return *std::move(f);
}

float Sum(const std::vector<Tree>& trees, const Row& r, const Filter& f) {
  double s = 0;
  for (auto& t : trees)
    if (f(t)) s += Walk(t, r);
  return s;
}

// Which inputs trees use.
unsigned Used(const std::vector<Tree>& trees) {
  unsigned u = 0;
  for (auto& t : trees)
    for (auto& n : t.nodes)
      if (!n.leaf) u |= 1u << n.cond.input;
  return u;
}

std::vector<Row> AllRows(unsigned used, const std::vector<float>& floats) {
  std::vector<std::optional<float>> fs = {std::nullopt}, gs = {std::nullopt};
  std::vector<std::optional<int64_t>> is = {std::nullopt};
  std::vector<std::optional<std::string>> ss = {std::nullopt};
  if (used & 1) fs.insert(fs.end(), floats.begin(), floats.end());
  if (used & 2) is.insert(is.end(), {-2, 0, 1, 2, std::numeric_limits<int64_t>::max()});
  if (used & 4) ss.insert(ss.end(), {std::string(), std::string("a"), std::string("b")});
  if (used & 8) gs.insert(gs.end(), {0.5f, 1, kNan, 3});
  std::vector<Row> rows;
  for (auto& f : fs)
    for (auto& i : is)
      for (auto& s : ss)
        for (auto& g : gs) rows.push_back({f, i, s, g});
  return rows;
}
const std::vector<float> kFloats = {kNan, -kInf, -kMax, -1, 0, 0.5, 1, 1.5, 2, 3, kMax, kInf};
const std::vector<float> kFewFloats = {kNan, 0.5, 1, 1.5, 2, 3};

bool Same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// Checks all evaluators on all rows.
void CheckForest(const std::vector<Tree>& trees, int style, const std::vector<Filter>& groups, const std::vector<Row>& rows, const std::string& what) {
  auto& env = TheEnv();
  auto forest = MakeForest(trees, style);
  std::vector<ForestEvaluator::Output> outs;
  for (size_t k = 0; k < groups.size(); ++k) outs.push_back({groups[k].Make(), env.out[k]});
  bool disjoint = true;
  for (auto& t : trees) {
    int n = 0;
    for (auto& g : groups) n += g(t);
    disjoint &= n <= 1;
  }
  std::vector<std::optional<ForestEvaluator>> evals;
  for (int flags = 0; flags < 8; ++flags) {
    auto e = ForestEvaluator::Compile(*forest, env.inputs, outs, {.enable_regular_eval = (flags & 1) != 0, .enable_bitmask_eval = (flags & 2) != 0, .enable_single_input_eval = (flags & 4) != 0});
    mc::step();
    if (!disjoint || groups.empty()) {
      MC_EQ(int(e.status().code()), int(absl::StatusCode::kInvalidArgument), "overlapping groups: " << what);
    } else if (flags & 1) {
      MC_CHECK(e.ok(), "Compile: " << e.status().ToString() << ": " << what);
    } else {
      MC_CHECK(e.ok() || e.status().code() == absl::StatusCode::kInvalidArgument, "Compile: " << e.status().ToString() << ": " << what);
    }
    if (e.ok()) evals.push_back(*std::move(e));
    else evals.push_back(std::nullopt);
  }
  for (auto& r : rows) {
    env.Set(r);
    for (size_t k = 0; k < groups.size(); ++k) {
      float want = Sum(trees, r, groups[k]);
      MC_CHECK(Same(DecisionForestNaiveEvaluation(*forest, env.frame(), env.inputs, groups[k].Make()), want), "naive evaluation of " << Str(r) << ": " << what);
    }
    for (int flags = 0; flags < 8; ++flags) {
      if (!evals[flags]) continue;
      for (auto o : env.out) env.frame().Set(o, 12345.f);
      evals[flags]->Eval(env.frame(), env.frame());
      for (size_t k = 0; k < env.out.size(); ++k) {
        float got = env.frame().Get(env.out[k]), want = k < groups.size() ? Sum(trees, r, groups[k]) : 12345.f;
        MC_CHECK(Same(got, want), "group " << k << " of " << Str(r) << " is " << got << ", expected " << want << " (regular, bitmask, single: " << (flags & 1) << (flags >> 1 & 1) << (flags >> 2) << "): " << what);
      }
      mc::step();
    }
  }
}

// ---- Every tree

Cond ChooseCond(int n) {
  static const Cond kPool[] = {F(-kInf, 1), F(1, 2), I({1}, true), F(1, 1), S({"a"}), F(1, kInf, 3), F(1, kInf), I({1, 2}), F(-kInf, 2), F(2, 2), F(2, 1), S({"a", ""}, true), I({}, true), F(-kInf, kInf), F(2, 3), F(1, 1, 3),
                               F(-kInf, -kInf), F(kInf, kInf), F(kInf, -kInf), I({-2, std::numeric_limits<int64_t>::max()})};
  int k = mc::choose(n);
  return kPool[k];
}
constexpr int kConds = 20;

MC_HARNESS(trees) {
  int splits = mc::range(0, 3);
  Tree t;
  int conds = splits == 1 ? kConds : splits == 2 ? mc::tier(12, kConds) : mc::tier(5, 8);
  // Leaves are split in order: each shape is made once.
  std::vector<int> leaves = {0};
  int from = 0;
  for (int i = 0; i < splits; ++i) {
    from = mc::range(from, (int)leaves.size() - 1);
    int l = leaves[from];
    Split(t, l, ChooseCond(conds));
    leaves.erase(leaves.begin() + from);
    leaves.insert(leaves.begin() + from, {t.nodes[l].no, t.nodes[l].yes});
  }
  Number(t);
  t.weight = mc::flag() ? 0.5 : 1;
  int style = mc::choose(2);
  auto what = mc::cat("weight ", t.weight, " ", Str(t), " style ", style);
  MC_SAY(what);
  CheckForest({t}, style, {Filter()}, AllRows(Used({t}), splits < 3 ? kFloats : kFewFloats), what);
  mc::state(what);
}

// ---- Several trees, groups and batches

const std::vector<Tree>& SomeTrees() {
  static const auto* trees = [] {
    auto r = new std::vector<Tree>();
    auto add = [&](std::vector<std::pair<int, Cond>> splits, float weight) {
      Tree t;
      for (auto& [i, c] : splits) Split(t, i, c);
      // Values of different trees have different bits.
      Number(t, std::pow(8.f, (float)(r->size() % 5)));
      t.weight = weight;
      r->push_back(t);
    };
    add({}, 1);
    add({{0, F(-kInf, 1)}}, 1);                                      // single input
    add({{0, F(-kInf, 1)}, {1, F(1, kInf, 3)}, {2, F(1, kInf, 3)}}, 0.5);  // oblivious
    add({{0, S({"a"})}, {2, F(1, 2)}}, 1);                           // regular
    add({{0, I({1, 2}, true)}, {2, F(1, 1)}, {1, F(1, 2)}}, 1);      // bitmask
    add({{0, F(1, 2)}, {1, F(2, 2)}, {2, F(-kInf, 1)}}, 2);          // single input
    add({{0, F(1, 2, 3)}, {2, F(1, 1)}}, 1);                         // intervals only
    add({{0, I({-2})}, {1, I({1}, true)}}, 1);
    add({{0, F(1, 2)}, {1, I({1, 2}, true)}, {2, I({1, 2}, true)}}, 1);  // oblivious with sets
    add({}, -2);
    return r;
  }();
  return *trees;
}

std::vector<Tree> ChooseForest(int top, std::string& what) {
  int n = mc::range(0, top);
  std::vector<Tree> trees;
  for (int k = 0; k < n; ++k) {
    int i = mc::choose(SomeTrees().size());
    auto t = SomeTrees()[i];
    what += mc::cat(" ", i);
    trees.push_back(t);
  }
  return trees;
}

MC_HARNESS(forests) {
  std::string what = "trees";
  auto trees = ChooseForest(mc::tier(3, 4), what);
  MC_SAY(what);
  CheckForest(trees, 0, {Filter()}, AllRows(Used(trees), {kNan, 0.5, 1, 2}), what);
  mc::state(what);
}

Filter ChooseFilter(int n) {
  static const Filter kPool[] = {{}, {0, -1, {0}}, {0, -1, {1}}, {1, -1}, {0, 1}, {1, 2, {0, 1}}, {0, 0}, {0, -1, {0, 1}}, {0, 1, {1}}, {2, -1, {7}}};
  return kPool[mc::choose(n)];
}

MC_HARNESS(groups) {
  static const int kKinds[] = {1, 4, 6, 0, 2, 3};
  std::vector<Tree> trees;
  int n = mc::range(1, 2);
  std::string what;
  for (int k = 0; k < n; ++k) {
    int i = kKinds[mc::choose(mc::tier(3, 6))];
    auto t = SomeTrees()[i];
    t.step = mc::choose(2);
    t.submodel = mc::choose(2);
    if (k == 0) t.step += mc::flag();
    what += mc::cat(" tree ", i, " step ", t.step, " submodel ", t.submodel);
    trees.push_back(t);
  }
  std::vector<Filter> groups;
  int m = mc::range(1, 2);
  for (int k = 0; k < m; ++k) groups.push_back(ChooseFilter(k == 0 ? 10 : mc::tier(4, 10))), what += " group " + Str(groups.back());
  MC_SAY(what);
  std::vector<Row> rows = {{0.5f, 1, "a", 1}, {1.f, 0, "b", std::nullopt}, {std::nullopt, std::nullopt, std::nullopt, 2}};
  CheckForest(trees, 0, groups, rows, what);
  mc::state(what);
  auto f = MakeForest(trees, 0);
  int steps = 0, subs = 0;
  for (auto& t : trees) steps = std::max(steps, t.step + 1), subs = std::max(subs, t.submodel + 1);
  MC_EQ(f->step_count(), steps, "steps " << what);
  MC_EQ(f->submodel_count(), subs, "submodels " << what);
  for (auto& g : groups)
    for (auto& h : groups) {
      auto set = [](const Filter& x) { return std::set<int>(x.submodels.begin(), x.submodels.end()); };
      bool same = g.from == h.from && g.to == h.to && set(g) == set(h);
      MC_EQ((FingerprintHasher("a").Combine(g.Make()).Finish() == FingerprintHasher("a").Combine(h.Make()).Finish()), same, "fingerprints of filters " << what);
    }
}

// ---- Trees around the limits of the algorithms

MC_HARNESS(big_trees) {
  static const int kSizes[] = {4, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 100};
  int kind = mc::choose(6), n = 0, style = mc::choose(2);
  Tree t;
  std::vector<Row> rows;
  std::string what;
  auto floats = [&](int top) {
    for (int k = -1; k <= 2 * top + 2; ++k) rows.push_back({k * 0.5f, k, k % 2 ? "a" : "b", k % 3 * 1.f});
    for (float v : {kNan, -kInf, kInf, kMax, -kMax}) rows.push_back({v, std::nullopt, std::nullopt, v});
    rows.push_back({});
    rows.push_back({1.f, std::nullopt, std::nullopt, std::nullopt});
    rows.push_back({std::nullopt, 1, std::nullopt, std::nullopt});
  };
  if (kind < 5) {
    // Chains: thresholds, intervals, points, sets of integers, mixed.
    n = mc::pick(kSizes);
    bool right = mc::flag();
    int at = 0;
    for (int k = 0; k < n; ++k) {
      Cond c = kind == 0 ? F(-kInf, right ? n - k : k) : kind == 1 ? F(k, k + 1.5f) : kind == 2 ? F(k, k) : kind == 3 ? I({k, n - k}, k == n / 2) : k % 3 == 0 ? F(k, kInf) : k % 3 == 1 ? I({k, k + 1}, k % 2) : F(k * 0.5f, k, 3);
      Split(t, at, c);
      at = right ? t.nodes[at].yes : t.nodes[at].no;
    }
    floats(n);
    what = mc::cat("chain ", kind, " of ", n, right ? " to the right" : " to the left");
  } else {
    // Balanced trees, with equal layers or not.
    n = mc::range(1, 7);
    int mix = mc::choose(4);
    std::vector<int> level = {0};
    for (int d = 0; d < n; ++d) {
      std::vector<int> next;
      for (size_t k = 0; k < level.size(); ++k) {
        float x = d + (mix == 1 && k == level.size() - 1 && d == n - 1 ? 0.5f : 0.f);
        Cond c = mix == 2 ? I({d, d + 1}, d % 2) : mix == 3 && d % 2 ? F(-kInf, 1 + d % 3, 3) : d % 3 ? F(-kInf, x) : F(x, x + 2);
        Split(t, level[k], c);
        next.push_back(t.nodes[level[k]].no);
        next.push_back(t.nodes[level[k]].yes);
      }
      level = next;
    }
    floats(n);
    what = mc::cat("balanced ", n, " mix ", mix);
  }
  Number(t);
  // Alone, and with another tree.
  int more = mc::choose(3);
  std::vector<Tree> trees = {t};
  if (more) trees.push_back(SomeTrees()[more == 1 ? 4 : 2]);
  what += mc::cat(" more ", more, " style ", style);
  MC_SAY(what);
  CheckForest(trees, style, {Filter()}, rows, what);
  mc::state(what);
}

// Numbers at the ends of the ranges.
MC_HARNESS(far_thresholds) {
  static const float kF[] = {-kInf, -kMax, -3e38f, -2e38f, 0, 1e-45f, 2e-45f, 2e38f, 3e38f, kMax, kInf};
  Tree t;
  int n = mc::range(1, mc::tier(1, 2)), at = 0;
  bool ints = mc::flag();
  std::vector<Row> rows = {{}};
  constexpr int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
  static const int64_t kI[] = {lo, lo + 1, lo + 2, -2, -1, 0, 1, 2, hi - 2, hi - 1, hi};
  for (int k = 0; k < n; ++k) {
    if (ints) {
      int64_t a = mc::pick(kI), b = mc::pick(kI), c = k == 0 ? mc::pick(kI) : a;
      Split(t, at, I({a, b, c}));
    } else {
      float a = mc::pick(kF), b = mc::pick(kF);
      if (a > b) mc::abandon();
      Split(t, at, F(a, b));
    }
    at = t.nodes[at].no;
  }
  if (ints && n == 2) mc::abandon();
  Number(t);
  for (size_t i = 0; i < std::size(kF); ++i) {
    rows.push_back({kF[i], std::nullopt, std::nullopt, std::nullopt});
    if (i > 0) rows.push_back({kF[i - 1] / 2 + kF[i] / 2, std::nullopt, std::nullopt, std::nullopt});
  }
  for (int64_t v : kI) rows.push_back({std::nullopt, v, std::nullopt, std::nullopt});
  auto what = Str(t);
  MC_SAY(what);
  CheckForest({t}, 0, {Filter()}, rows, what);
  mc::state(what);
}

// ---- Batches

template <class T>
DenseArray<T> Column(const std::vector<std::optional<T>>& v) {
  DenseArrayBuilder<T> b(v.size());
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i]) b.Add(i, *v[i]);
  return std::move(b).Build();
}

void Batch(bool sparse) {
  std::string what = sparse ? "arrays, trees" : "dense arrays, trees";
  auto trees = ChooseForest(2, what);
  // More trees, so that there are more than two evaluators.
  int more = trees.size() == 2 ? mc::choose(3) : 0;
  for (int k = 0; k < more; ++k) trees.push_back(trees[k]);
  what += mc::cat(" more ", more);
  for (size_t k = 0; k < trees.size(); ++k) trees[k].submodel = k % 2, trees[k].step = k;
  static const int kRows[] = {0, 1, 63, 65, 130, 2, 64, 128, 129};
  int n = kRows[mc::choose(more ? mc::tier(2, 5) : mc::tier(5, 9))];
  int groups = mc::choose(3);
  std::vector<Filter> fs = groups == 0 ? std::vector<Filter>{Filter()} : groups == 1 ? std::vector<Filter>{{0, -1, {0}}, {0, -1, {1}}} : std::vector<Filter>{{0, 1}, {1, -1, {1}}, {5, -1}};
  static const int64_t kPer[] = {500000, 1, 2, 3};
  int64_t per = mc::pick(kPer);
  what += mc::cat(" rows ", n, " groups ", groups, " splits per evaluator ", per);
  MC_SAY(what);
  auto forest = MakeForest(trees, 0);
  std::vector<TreeFilter> tf;
  for (auto& f : fs) tf.push_back(f.Make());
  auto ev = BatchedForestEvaluator::Compile(*forest, tf, {.optimal_splits_per_evaluator = per});
  MC_CHECK(ev.ok(), "Compile " << ev.status().ToString() << ": " << what);
  std::vector<std::optional<float>> f, g;
  std::vector<std::optional<int64_t>> i;
  std::vector<std::optional<Bytes>> s;
  std::vector<Row> rows;
  for (int k = 0; k < n; ++k) {
    Row r;
    if (k % 5) r.f = k % 5 * 0.5f;
    if (k % 4) r.i = k % 4 - 1;
    if (k % 3) r.s = k % 3 == 1 ? "a" : "b";
    if (k % 7) r.g = k % 7 * 0.5f;
    f.push_back(r.f), g.push_back(r.g), i.push_back(r.i), rows.push_back(r);
    if (r.s) s.push_back(Bytes(*r.s));
    else s.push_back(std::nullopt);
  }
  FrameLayout::Builder b;
  std::vector<TypedSlot> in, out;
  auto run = [&](auto wrap) {
    auto cf = wrap(Column(f));
    auto cg = wrap(Column(g));
    auto ci = wrap(Column(i));
    auto cs = wrap(Column(s));
    auto sf = b.AddSlot<decltype(cf)>();
    auto si = b.AddSlot<decltype(ci)>();
    auto ss = b.AddSlot<decltype(cs)>();
    auto sg = b.AddSlot<decltype(cg)>();
    in = {TypedSlot::FromSlot(sf), TypedSlot::FromSlot(si), TypedSlot::FromSlot(ss), TypedSlot::FromSlot(sg)};
    std::vector<decltype(sf)> so;
    for (size_t k = 0; k < fs.size(); ++k) so.push_back(b.AddSlot<decltype(cf)>()), out.push_back(TypedSlot::FromSlot(so.back()));
    auto layout = std::move(b).Build();
    MemoryAllocation mem(&layout);
    mem.frame().Set(sf, cf);
    mem.frame().Set(si, ci);
    mem.frame().Set(ss, cs);
    mem.frame().Set(sg, cg);
    for (int pass = 0; pass < 2; ++pass) {
      auto st = (*ev)->EvalBatch(in, out, mem.frame(), GetHeapBufferFactory(), pass ? std::optional<int64_t>(n) : std::nullopt);
      MC_CHECK(st.ok(), "EvalBatch " << st.ToString() << ": " << what);
      for (size_t k = 0; k < fs.size(); ++k) {
        auto& r = mem.frame().Get(so[k]);
        MC_EQ((int64_t)r.size(), (int64_t)n, "rows " << what);
        for (int j = 0; j < n; ++j) {
          float want = Sum(trees, rows[j], fs[k]);
          auto got = r[j];
          MC_CHECK(got.present && got.value == want, "row " << j << " group " << k << " is " << (got.present ? mc::cat(got.value) : "-") << ", expected " << want << ": " << what);
        }
        mem.frame().Set(so[k], {});
      }
      mc::step();
    }
    unsigned used = Used(trees);
    int need = used & 8 ? 4 : used & 4 ? 3 : used & 2 ? 2 : used;
    for (int k = 0; k < need; ++k) {
      auto st = (*ev)->EvalBatch(absl::MakeConstSpan(in).first(k), out, mem.frame());
      MC_CHECK(!st.ok(), "EvalBatch with " << k << " inputs: " << what);
    }
    // A column of another size.
    if (used & (used - 1)) {
      int which = used & 1 ? 0 : used & 2 ? 1 : 2;
      if (which == 0) mem.frame().Set(sf, wrap(Column(std::vector<std::optional<float>>(n + 1))));
      if (which == 1) mem.frame().Set(si, wrap(Column(std::vector<std::optional<int64_t>>(n + 1))));
      if (which == 2) mem.frame().Set(ss, wrap(Column(std::vector<std::optional<Bytes>>(n + 1))));
      MC_CHECK(!(*ev)->EvalBatch(in, out, mem.frame()).ok(), "EvalBatch of columns of different sizes: " << what);
    }
  };
  if (sparse) {
    run([](auto d) { return Array<typename decltype(d)::base_type>(d).ToSparseForm(); });
  } else {
    run([](auto d) { return d; });
  }
  mc::state(what);
}
MC_HARNESS(batch_dense) { Batch(false); }
MC_HARNESS(batch_array) { Batch(true); }

// ---- Making forests

MC_HARNESS(from_trees) {
  // Small trees with one possible fault.
  int k = mc::choose(SomeTrees().size());
  auto t = Make(SomeTrees()[k], 0);
  int n = t.split_nodes.size();
  int fault = mc::choose(8);
  auto what = mc::cat("tree ", k, " fault ", fault);
  bool valid = fault == 0;
  int at = n ? mc::choose(n) : 0;
  bool yes = mc::flag();
  auto set = [&](NodeId id) {
    if (n == 0) mc::abandon();
    (yes ? t.split_nodes[at].child_if_true : t.split_nodes[at].child_if_false) = id;
  };
  if (fault == 1) t.adjustments.push_back(1);
  if (fault == 2) t.adjustments.pop_back();
  if (fault == 3) set(NodeId::SplitNodeId(n));
  if (fault == 4) set(NodeId::AdjustmentId(n + 1));
  if (fault == 5) t.tag.step = -1;
  if (fault == 6) t.tag.submodel_id = -1;
  if (fault == 7) {
    // One input with two types.
    if (n == 0) mc::abandon();
    auto used = Used({SomeTrees()[k]});
    int input = used & 1 ? 0 : used & 8 ? 3 : 1;
    DecisionTree o;
    o.adjustments = {1, 2};
    o.split_nodes = {{NodeId::AdjustmentId(0), NodeId::AdjustmentId(1), input == 1 ? Make(F(1, 2), 1) : Make(I({1}), input - 1)}};
    auto f = DecisionForest::FromTrees(yes ? std::vector<DecisionTree>{t, o} : std::vector<DecisionTree>{o, t});
    MC_EQ(int(f.status().code()), int(absl::StatusCode::kInvalidArgument), "FromTrees: " << what);
    return;
  }
  MC_SAY(what);
  int pos = mc::choose(2);
  std::vector<DecisionTree> dt = {Make(SomeTrees()[1], 0)};
  dt.insert(dt.begin() + pos, t);
  auto f = DecisionForest::FromTrees(std::move(dt));
  MC_EQ(f.ok(), valid, "FromTrees: " << what);
  mc::step();
  mc::state(mc::cat(what, at, yes));
  if (!valid) {
    MC_EQ(int(f.status().code()), int(absl::StatusCode::kInvalidArgument), "code: " << what);
    return;
  }
  // Required types and input slots.
  auto& env = TheEnv();
  unsigned used = Used({SomeTrees()[k], SomeTrees()[1]});
  auto& q = (*f)->GetRequiredQTypes();
  for (int i = 0; i < 4; ++i) {
    MC_EQ(q.count(i), (size_t)(used >> i & 1), "required types of " << what);
    if (used >> i & 1) MC_CHECK(q.at(i) == env.inputs[i].GetType(), "type of input " << i << " of " << what);
  }
  MC_CHECK((*f)->ValidateInputSlots(env.inputs).ok(), "ValidateInputSlots of " << what);
  for (int i = 0; i < 4; ++i) {
    bool need = used >> i;
    auto in = env.inputs;
    in.erase(in.begin() + i, in.end());
    MC_EQ((*f)->ValidateInputSlots(in).ok(), !need, "ValidateInputSlots of " << i << " inputs of " << what);
    in = env.inputs;
    in[i] = TypedSlot::FromSlot(env.out[0]);
    MC_EQ((*f)->ValidateInputSlots(in).ok(), !(used >> i & 1), "ValidateInputSlots with a wrong type of input " << i << " of " << what);
  }
}

// Two trees which differ in at most one respect.
MC_HARNESS(fingerprints) {
  int k = mc::choose(SomeTrees().size());
  auto a = Make(SomeTrees()[k], 0), b = Make(SomeTrees()[k], 0);
  int n = a.split_nodes.size();
  int change = mc::choose(8);
  if (n == 0 && (change == 4 || change == 5 || change == 6 || change == 7)) mc::abandon();
  int at = n ? mc::choose(n) : 0;
  if (change == 1) b.weight += 1;
  if (change == 2) b.tag.step += 1;
  if (change == 3) b.adjustments[mc::choose(n + 1)] += 1;
  if (change == 4) std::swap(b.split_nodes[at].child_if_false, b.split_nodes[at].child_if_true);
  if (change == 5) b.split_nodes[at].condition = Make(F(-1, 7, 3));
  if (change == 6) b.split_nodes[at].condition = a.split_nodes[at].condition->RemapInputs({{0, 10}, {1, 11}, {2, 12}, {3, 13}});
  if (change == 7) b.tag.submodel_id += 1;
  auto what = mc::cat("tree ", k, " change ", change, " at ", at);
  auto f = DecisionForest::FromTrees({a}), g = DecisionForest::FromTrees({b}), h = DecisionForest::FromTrees({a, b});
  MC_CHECK(f.ok() && g.ok(), "FromTrees " << what);
  MC_EQ((*f)->fingerprint() == (*g)->fingerprint(), change == 0, "fingerprints " << what);
  if (h.ok()) MC_CHECK((*h)->fingerprint() != (*f)->fingerprint(), "fingerprint of two trees " << what);
  mc::step();
  mc::state(what);
}

MC_HARNESS(conditions) {
  auto a = ChooseCond(kConds), b = ChooseCond(kConds);
  int sa = mc::choose(2), sb = mc::choose(2);
  auto what = mc::cat(Str(a), " + ", sa, " and ", Str(b), " + ", sb);
  MC_SAY(what);
  auto x = Make(a, sa), y = Make(b, sb);
  auto set = [](auto v) { return std::set<typename decltype(v)::value_type>(v.begin(), v.end()); };
  auto kind = [](const Cond& c) { return c.input == 3 ? 0 : c.input; };
  bool same = kind(a) == kind(b) && a.input + sa == b.input + sb && a.lo == b.lo && a.hi == b.hi && set(a.ints) == set(b.ints) && set(a.strs) == set(b.strs) && a.missing == b.missing;
  auto fp = [](auto& c) {
    FingerprintHasher h("a");
    c->CombineToFingerprintHasher(&h);
    return std::move(h).Finish();
  };
  MC_EQ(*x == *y, same, "operator== of " << what);
  MC_EQ(*x != *y, !same, "operator!= of " << what);
  if (a.input == b.input || same) MC_EQ(fp(x) == fp(y), same, "fingerprints of " << what);
  if (same) {
    MC_CHECK(absl::Hash<SplitCondition>()(*x) == absl::Hash<SplitCondition>()(*y), "hashes of " << what);
    MC_CHECK(x->StableHash() == y->StableHash(), "stable hashes of " << what);
    MC_CHECK(x->ToString() == y->ToString(), "texts of " << what);
  } else if (x->ToString() == y->ToString()) {
    // Only sets of different types are written alike.
    MC_CHECK(kind(a) != kind(b), "texts of " << what);
  }
  // Renumbered inputs.
  auto z = x->RemapInputs({{a.input + sa, 20}});
  auto sig = z->GetInputSignatures();
  MC_EQ(sig.size(), (size_t)1, "signatures of " << what);
  MC_EQ(sig[0].id, 20, "remapped " << what);
  MC_CHECK(sig[0].type == x->GetInputSignatures()[0].type && x->GetInputSignatures()[0].id == a.input + sa, "signature of " << what);
  MC_CHECK(*z == *Make(a, 20 - a.input) && *x->RemapInputs({{19, 7}}) == *x, "RemapInputs of " << what);
  mc::step();
  mc::state(what);
}

MC_HARNESS(oblivious) {
  // Every tree of up to 3 splits over three conditions.
  static const Cond kPool[] = {F(-kInf, 1), F(1, 2), I({1}, true)};
  int splits = mc::range(0, 3);
  Tree t;
  std::vector<int> leaves = {0};
  int from = 0;
  for (int i = 0; i < splits; ++i) {
    from = mc::range(from, (int)leaves.size() - 1);
    int l = leaves[from];
    Split(t, l, mc::pick(kPool));
    leaves.erase(leaves.begin() + from);
    leaves.insert(leaves.begin() + from, {t.nodes[l].no, t.nodes[l].yes});
  }
  Number(t);
  t.weight = 2;
  int style = mc::choose(2);
  auto what = Str(t);
  auto o = ToObliviousTree(Make(t, style));
  bool want = splits == 0 || splits == 1;
  if (splits == 3) {
    auto& r = t.nodes[0];
    want = !t.nodes[r.no].leaf && !t.nodes[r.yes].leaf && Str(t.nodes[r.no].cond) == Str(t.nodes[r.yes].cond);
  }
  MC_EQ(o.has_value(), want, "ToObliviousTree " << what);
  mc::step();
  mc::state(what);
  if (!want) return;
  size_t depth = splits == 3 ? 2 : splits;
  MC_EQ(o->layer_splits.size(), depth, "layers of " << what);
  MC_EQ(o->adjustments.size(), size_t{1} << depth, "adjustments of " << what);
  for (size_t k = 0; k < o->adjustments.size(); ++k) {
    int i = 0;
    for (size_t d = 0; d < depth; ++d) {
      MC_CHECK(*o->layer_splits[d] == *Make(t.nodes[i].cond), "layer " << d << " of " << what);
      i = k >> (depth - 1 - d) & 1 ? t.nodes[i].yes : t.nodes[i].no;
    }
    MC_EQ(o->adjustments[k], t.nodes[i].value * 2, "adjustment " << k << " of " << what);
  }
}

}  // namespace

MC_MAIN()
