// Expressions: every way to compile them against an interpreter.
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/expr/eval/eval.h"
#include "arolla/expr/eval/invoke.h"
#include "arolla/expr/eval/slot_allocator.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/expr_visitor.h"
#include "arolla/expr/operator_loader/dummy_operator.h"
#include "arolla/expr/optimization/default/default_optimizer.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/evaluation_engine.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/unit.h"
#include "mc.h"

namespace {

using namespace arolla;
using namespace arolla::expr;

const double kNan = std::numeric_limits<double>::quiet_NaN();
const double kInf = std::numeric_limits<double>::infinity();

// ---- Types and values of the oracle

enum Base { UNIT, BOOL, I32, I64, F32, F64 };
struct Ty {
  Base b;
  bool opt;
  bool operator==(const Ty&) const = default;
  auto operator<=>(const Ty&) const = default;
};
struct V {
  Ty t;
  bool has = false;
  double d = 0;
};
using MaybeTy = std::optional<Ty>;

std::string Str(Ty t) {
  static const char* kNames[] = {"UNIT", "BOOLEAN", "INT32", "INT64", "FLOAT32", "FLOAT64"};
  return std::string(t.opt ? "OPTIONAL_" : "") + kNames[t.b];
}
std::string Str(const V& v) { return v.has ? v.t.b == UNIT ? "present" : mc::cat(v.d) : "missing"; }

template <class F>
auto WithType(Base b, F f) {
  switch (b) {
    case UNIT: return f(Unit());
    case BOOL: return f(bool());
    case I32: return f(int32_t());
    case I64: return f(int64_t());
    case F32: return f(float());
    default: return f(double());
  }
}
QTypePtr QTypeOf(Ty t) {
  return WithType(t.b, [&](auto x) -> QTypePtr { return t.opt ? (QTypePtr)GetOptionalQType<decltype(x)>() : GetQType<decltype(x)>(); });
}
TypedValue Make(const V& v) {
  return WithType(v.t.b, [&](auto x) {
    using T = decltype(x);
    T val{};
    if constexpr (!std::is_same_v<T, Unit>) val = (T)v.d;
    if (!v.t.opt) return TypedValue::FromValue(val);
    return TypedValue::FromValue(v.has ? OptionalValue<T>(val) : OptionalValue<T>());
  });
}
std::optional<V> Read(TypedRef r) {
  for (int b = UNIT; b <= F64; ++b)
    for (int opt = 0; opt < 2; ++opt) {
      Ty t{(Base)b, opt != 0};
      if (QTypeOf(t) != r.GetType()) continue;
      return WithType(t.b, [&](auto x) {
        using T = decltype(x);
        auto num = [](const T& v) {
          if constexpr (std::is_same_v<T, Unit>) return 0.0;
          else return (double)v;
        };
        if (!t.opt) return V{t, true, num(r.UnsafeAs<T>())};
        auto& o = r.UnsafeAs<OptionalValue<T>>();
        return V{t, o.present, o.present ? num(o.value) : 0};
      });
    }
  return std::nullopt;
}
bool Same(const V& a, const V& b) { return a.t == b.t && a.has == b.has && (!a.has || a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))); }

V Cast(const V& v, Ty t) {
  double d = v.d;
  if (t.b == F32) d = (float)d;
  return {t, v.has, d};
}
MaybeTy Common(Ty a, Ty b) {
  bool opt = a.opt || b.opt;
  if (a.b == b.b) return Ty{a.b, opt};
  if (a.b < I32 || b.b < I32) return std::nullopt;
  return Ty{std::max(a.b, b.b), opt};
}
bool IsNum(Ty t) { return t.b >= I32; }
bool IsCond(Ty t) { return t.b == UNIT; }

// ---- Operators

struct Op {
  const char* name;
  int arity;
  std::function<MaybeTy(const std::vector<Ty>&)> type;
  std::function<std::optional<V>(const std::vector<V>&, Ty)> eval;  // nullopt: an error
};
using Ts = std::vector<Ty>;
using Vs = std::vector<V>;

V Present(Ty t, double d) { return {t, true, t.b == F32 ? (double)(float)d : d}; }
V Missing(Ty t) { return {t, false, 0}; }

Op Has() {
  return {"core.has", 1, [](const Ts& t) -> MaybeTy { return t[0].opt && t[0].b != UNIT ? MaybeTy(Ty{UNIT, true}) : t[0] == Ty{UNIT, true} ? MaybeTy(t[0]) : std::nullopt; },
          [](const Vs& v, Ty t) { return V{t, v[0].has, 0}; }};
}
Op Not() {
  return {"core.presence_not", 1, [](const Ts&) -> MaybeTy { return Ty{UNIT, true}; }, [](const Vs& v, Ty t) { return V{t, !v[0].has, 0}; }};
}
Op ToOptional() {
  return {"core.to_optional", 1, [](const Ts& t) -> MaybeTy { return Ty{t[0].b, true}; }, [](const Vs& v, Ty t) { return Cast(v[0], t); }};
}
Op And() {
  return {"core.presence_and", 2, [](const Ts& t) -> MaybeTy { return IsCond(t[1]) ? MaybeTy(Ty{t[0].b, t[0].opt || t[1].opt}) : std::nullopt; },
          [](const Vs& v, Ty t) { return v[0].has && v[1].has ? Cast(v[0], t) : Missing(t); }};
}
MaybeTy OrType(Ty a, Ty b) {
  auto t = Common(a, b);
  if (t) t->opt = a.opt && b.opt;
  return t;
}
Op Or() {
  return {"core.presence_or", 2, [](const Ts& t) { return OrType(t[0], t[1]); }, [](const Vs& v, Ty t) { return v[0].has ? Cast(v[0], t) : Cast(v[1], t); }};
}
Op AndOr() {
  return {"core._presence_and_or", 3,
          [](const Ts& t) -> MaybeTy {
            if (t[1] != Ty{UNIT, true}) return std::nullopt;
            return OrType({t[0].b, true}, t[2]);
          },
          [](const Vs& v, Ty t) { return v[0].has && v[1].has ? Cast(v[0], t) : Cast(v[2], t); }};
}
Op Where() {
  return {"core.where", 3, [](const Ts& t) -> MaybeTy { return IsCond(t[0]) ? Common(t[1], t[2]) : std::nullopt; },
          [](const Vs& v, Ty t) { return v[0].has ? Cast(v[1], t) : Cast(v[2], t); }};
}
bool Compare(int k, double a, double b) {
  switch (k) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
  }
}
Op Cmp(const char* name, int kind, bool core) {
  return {name, 2,
          [core, kind](const Ts& t) -> MaybeTy {
            auto c = Common(t[0], t[1]);
            if (!c || (c->b == UNIT && (kind >= 2 || !core))) return std::nullopt;
            return Ty{core ? UNIT : BOOL, core || c->opt};
          },
          [core, kind](const Vs& v, Ty t) {
            if (!v[0].has || !v[1].has) return Missing(t);
            auto c = *Common(v[0].t, v[1].t);
            bool r = Compare(kind, Cast(v[0], c).d, Cast(v[1], c).d);
            return core ? V{t, r, 0} : Present(t, r);
          }};
}
MaybeTy Bools(const Ts& t, size_t n) {
  bool opt = false;
  for (size_t i = 0; i < n; ++i) {
    if (t[i].b != BOOL) return std::nullopt;
    opt |= t[i].opt;
  }
  return Ty{BOOL, opt};
}
Op LNot() {
  return {"bool.logical_not", 1, [](const Ts& t) { return Bools(t, 1); }, [](const Vs& v, Ty t) { return v[0].has ? Present(t, !v[0].d) : Missing(t); }};
}
// Kleene logic: `win` decides.
Op Logic(const char* name, bool win) {
  return {name, 2, [](const Ts& t) { return Bools(t, 2); },
          [win](const Vs& v, Ty t) {
            for (auto& x : v)
              if (x.has && (x.d != 0) == win) return Present(t, win);
            return v[0].has && v[1].has ? Present(t, !win) : Missing(t);
          }};
}
Op LIf() {
  return {"bool.logical_if", 4,
          [](const Ts& t) -> MaybeTy {
            if (t[0].b != BOOL) return std::nullopt;
            auto a = Common(t[1], t[2]);
            return a ? Common(*a, t[3]) : std::nullopt;
          },
          [](const Vs& v, Ty t) { return Cast(!v[0].has ? v[3] : v[0].d ? v[1] : v[2], t); }};
}
Op Arith(const char* name, char k) {
  return {name, 2,
          [k](const Ts& t) -> MaybeTy {
            auto c = Common(t[0], t[1]);
            return c && IsNum(*c) ? c : std::nullopt;
          },
          [k](const Vs& v, Ty t) -> std::optional<V> {
            if (!v[0].has || !v[1].has) return Missing(t);
            double a = Cast(v[0], t).d, b = Cast(v[1], t).d;
            if (k == '/' && b == 0 && t.b < F32) return std::nullopt;
            return Present(t, k == '+' ? a + b : k == '-' ? a - b : k == '*' ? a * b : std::floor(a / b));
          }};
}

// ---- Expressions of the oracle: a list of nodes, the arguments of a node are before it.

struct Leaf_ {
  std::string name;      // empty: a literal
  Ty t;
  std::vector<V> values;
};
Leaf_ Var(std::string name, Ty t, std::vector<double> values) {
  Leaf_ l{name, t, {}};
  if (t.opt) l.values.push_back(Missing(t));
  for (double d : values) l.values.push_back(Present(t, d));
  return l;
}
Leaf_ Lit(Ty t, double d) { return {"", t, {Present(t, d)}}; }
Leaf_ NoLit(Ty t) { return {"", t, {Missing(t)}}; }

struct Node {
  int leaf = -1;  // index in the pool
  int op = -1;    // index in the operators
  std::vector<int> args;
  Ty t;
};
struct Family {
  std::vector<Op> ops;
  std::vector<Leaf_> pool;
};
struct Dag {
  const Family* f;
  std::vector<Node> nodes;
};

std::string Str(const Dag& g, int i) {
  auto& n = g.nodes[i];
  if (n.leaf >= 0) {
    auto& l = g.f->pool[n.leaf];
    return l.name.empty() ? mc::cat(Str(l.t), "(", Str(l.values[0]), ")") : l.name;
  }
  std::string name = g.f->ops[n.op].name;
  std::string r = name.substr(name.find('.') + 1) + "(";
  for (size_t k = 0; k < n.args.size(); ++k) r += (k ? ", " : "") + Str(g, n.args[k]);
  return r + ")";
}

struct Result {
  bool must_fail = false, may_fail = false;
  V v;
};

// Evaluates everything; a node may fail.
Result Interpret(const Dag& g, const std::vector<V>& env, bool lazy) {
  int n = g.nodes.size();
  std::vector<std::optional<V>> val(n);
  std::vector<bool> bad(n);  // the node itself fails or depends on one that does
  for (int i = 0; i < n; ++i) {
    auto& x = g.nodes[i];
    if (x.leaf >= 0) {
      val[i] = env[x.leaf];
      continue;
    }
    auto& op = g.f->ops[x.op];
    bool where = lazy && std::string(op.name) == "core.where";
    std::vector<V> a;
    bool b = false;
    for (size_t k = 0; k < x.args.size(); ++k) {
      if (where && k > 0) {
        if (bad[x.args[0]]) break;
        bool c = val[x.args[0]]->has;
        if (k == (c ? 2u : 1u)) {
          a.push_back(Missing(g.nodes[x.args[k]].t));
          continue;
        }
      }
      if (bad[x.args[k]]) b = true;
      else a.push_back(*val[x.args[k]]);
    }
    if (!b) {
      val[i] = op.eval(a, x.t);
      b = !val[i];
    }
    bad[i] = b;
  }
  Result r;
  r.must_fail = bad[n - 1];
  for (int i = 0; i < n; ++i) r.may_fail = r.may_fail || bad[i];
  if (!bad[n - 1]) r.v = *val[n - 1];
  return r;
}

// Whether a failing node may be evaluated although it is not needed: it is not if every way to it passes
// through the same unneeded branch of one `where`.
bool MayFail(const Dag& g, const std::vector<V>& env) {
  int n = g.nodes.size();
  // Which nodes fail by themselves when all their arguments are fine.
  std::vector<std::optional<V>> val(n);
  std::vector<int> suspects;
  for (int i = 0; i < n; ++i) {
    auto& x = g.nodes[i];
    if (x.leaf >= 0) {
      val[i] = env[x.leaf];
      continue;
    }
    std::vector<V> a;
    bool known = true;
    auto& op = g.f->ops[x.op];
    bool where = std::string(op.name) == "core.where";
    for (size_t k = 0; k < x.args.size(); ++k) {
      int j = x.args[k];
      if (where && k > 0 && val[x.args[0]] && k == (val[x.args[0]]->has ? 2u : 1u)) {
        a.push_back(Missing(g.nodes[j].t));
        continue;
      }
      if (val[j]) a.push_back(*val[j]);
      else known = false;
    }
    if (known) {
      val[i] = op.eval(a, x.t);
      if (!val[i]) suspects.push_back(i);
    }
  }
  for (int s : suspects) {
    bool guarded = false;
    for (int w = 0; w < n && !guarded; ++w) {
      auto& x = g.nodes[w];
      if (x.leaf >= 0 || std::string(g.f->ops[x.op].name) != "core.where" || !val[x.args[0]]) continue;
      int off = val[x.args[0]]->has ? 2 : 1;
      if (x.args[1] == x.args[2]) continue;
      // Is `s` reachable from the root without the edge to the unneeded branch?
      std::vector<bool> seen(n);
      std::function<void(int)> go = [&](int i) {
        if (seen[i]) return;
        seen[i] = true;
        for (size_t k = 0; k < g.nodes[i].args.size(); ++k)
          if (!(i == w && (int)k == off)) go(g.nodes[i].args[k]);
      };
      go(n - 1);
      guarded = !seen[s];
    }
    if (!guarded) return true;
  }
  return false;
}

// ---- The real thing

absl::StatusOr<ExprNodePtr> Build(const Dag& g, const std::vector<V>* env) {
  std::vector<ExprNodePtr> nodes;
  for (auto& n : g.nodes) {
    if (n.leaf >= 0) {
      auto& l = g.f->pool[n.leaf];
      if (l.name.empty() || env) nodes.push_back(Literal(Make(env ? (*env)[n.leaf] : l.values[0])));
      else {
        auto e = CallOp("annotation.qtype", {Leaf(l.name), Literal(QTypeOf(l.t))});
        if (!e.ok()) return e;
        nodes.push_back(*e);
      }
      continue;
    }
    std::vector<absl::StatusOr<ExprNodePtr>> args;
    for (int a : n.args) args.push_back(nodes[a]);
    absl::StatusOr<ExprNodePtr> e;
    switch (args.size()) {
      case 1: e = CallOp(g.f->ops[n.op].name, {args[0]}); break;
      case 2: e = CallOp(g.f->ops[n.op].name, {args[0], args[1]}); break;
      case 3: e = CallOp(g.f->ops[n.op].name, {args[0], args[1], args[2]}); break;
      default: e = CallOp(g.f->ops[n.op].name, {args[0], args[1], args[2], args[3]}); break;
    }
    if (!e.ok()) return e;
    nodes.push_back(*std::move(e));
  }
  return nodes.back();
}

struct Compiled {
  std::unique_ptr<BoundExpr> bound;
  std::unique_ptr<FrameLayout> layout;
  std::unique_ptr<MemoryAllocation> mem;
  absl::flat_hash_map<std::string, TypedSlot> slots;
};

const Optimizer& TheOptimizer() {
  static const Optimizer* o = new Optimizer(*DefaultOptimizer());
  return *o;
}
const Optimizer& OtherOptimizer() {
  static const Optimizer* o = new Optimizer(*CodegenOptimizer());
  return *o;
}
constexpr const char* kModes[] = {"not optimized", "optimized", "optimized, overriding inputs, with stack trace", "optimized for code generation"};

std::optional<Compiled> Compile(const ExprNodePtr& e, const Dag& g, int mode, const std::string& what) {
  DynamicEvaluationEngineOptions o;
  if (mode == 1 || mode == 2) o.optimizer = TheOptimizer();
  if (mode == 3) o.optimizer = OtherOptimizer();
  if (mode == 2) o.allow_overriding_input_slots = o.enable_expr_stack_trace = true;
  Compiled c;
  FrameLayout::Builder b;
  for (auto& l : g.f->pool)
    if (!l.name.empty()) c.slots.emplace(l.name, AddSlot(QTypeOf(l.t), &b));
  auto r = CompileAndBindForDynamicEvaluation(o, &b, e, c.slots);
  // Literals are evaluated at compile time, so compilation may fail as the evaluation would.
  if (!r.ok()) {
    MC_CHECK(r.status().code() == absl::StatusCode::kInvalidArgument && r.status().message().find("division by zero") != std::string::npos, "cannot compile (" << kModes[mode] << "): " << r.status().ToString() << ": " << what);
    return std::nullopt;
  }
  c.bound = *std::move(r);
  c.layout = std::make_unique<FrameLayout>(std::move(b).Build());
  c.mem = std::make_unique<MemoryAllocation>(c.layout.get());
  EvaluationContext ctx;
  c.bound->InitializeLiterals(&ctx, c.mem->frame());
  MC_CHECK(ctx.status().ok(), "InitializeLiterals: " << ctx.status().ToString() << ": " << what);
  return c;
}

void CheckDag(const Dag& g, int modes, bool strict_lazy) {
  auto what = Str(g, g.nodes.size() - 1);
  MC_SAY(what);
  auto e = Build(g, nullptr);
  MC_CHECK(e.ok(), "cannot build: " << e.status().ToString() << ": " << what);
  Ty t = g.nodes.back().t;
  MC_CHECK((*e)->qtype() == QTypeOf(t), "type is " << ((*e)->qtype() ? (*e)->qtype()->name() : "unknown") << ", expected " << Str(t) << ": " << what);
  std::vector<std::optional<Compiled>> cs;
  for (int m = 0; m < modes; ++m) cs.push_back(Compile(*e, g, m, what));
  // All values of the leaves in use.
  std::vector<int> used;
  std::set<int> seen;
  for (auto& n : g.nodes)
    if (n.leaf >= 0 && seen.insert(n.leaf).second) used.push_back(n.leaf);
  std::vector<V> env;
  for (auto& l : g.f->pool) env.push_back(l.values[0]);
  std::vector<size_t> at(used.size());
  bool first = true;
  for (;;) {
    for (size_t k = 0; k < used.size(); ++k) env[used[k]] = g.f->pool[used[k]].values[at[k]];
    auto eager = Interpret(g, env, false), lazy = Interpret(g, env, true);
    auto say = [&] {
      std::string s;
      for (int u : used)
        if (!g.f->pool[u].name.empty()) s += mc::cat(" ", g.f->pool[u].name, "=", Str(env[u]));
      return s + ": " + what;
    };
    bool may = eager.must_fail || eager.may_fail;
    bool may_opt = strict_lazy ? MayFail(g, env) : may;
    auto check = [&](const absl::Status& s, const Compiled* c, const TypedValue* v, int m, const char* how) {
      bool f = !s.ok();
      bool opt = m > 0;
      if (lazy.must_fail) MC_CHECK(f, how << " succeeded, an error expected" << say());
      if (!(opt ? may_opt : may)) MC_CHECK(!f, how << " failed with " << s.ToString() << say());
      if (f) {
        MC_CHECK(s.code() == absl::StatusCode::kInvalidArgument, how << " failed with " << s.ToString() << say());
        return;
      }
      auto got = c ? Read(TypedRef::FromSlot(c->bound->output_slot(), c->mem->frame())) : Read(v->AsRef());
      MC_CHECK(got.has_value() && Same(*got, lazy.v), how << " gives " << (got ? Str(got->t) + " " + Str(*got) : std::string("another type")) << ", expected " << Str(lazy.v.t) << " " << Str(lazy.v) << say());
    };
    for (int m = 0; m < modes; ++m) {
      if (!cs[m]) {
        MC_CHECK(m == 0 ? may : may_opt, "compilation failed (" << kModes[m] << ")" << say());
        continue;
      }
      for (auto& l : g.f->pool)
        if (!l.name.empty()) {
          auto st = Make(env[&l - &g.f->pool[0]]).CopyToSlot(cs[m]->slots.at(l.name), cs[m]->mem->frame());
          MC_CHECK(st.ok(), st.ToString());
        }
      EvaluationContext ctx;
      cs[m]->bound->Execute(&ctx, cs[m]->mem->frame());
      check(ctx.status(), &*cs[m], nullptr, m, kModes[m]);
      mc::step();
    }
    size_t k = 0;
    while (k < used.size() && ++at[k] == g.f->pool[used[k]].values.size()) at[k++] = 0;
    bool last = k == used.size();
    if (last || (first && mc::tier(0, 1))) {
      // The same with literals in place of leaves.
      auto le = Build(g, &env);
      if (le.ok()) {
        MC_CHECK((*le)->qtype() == QTypeOf(t), "type with literals" << say());
        for (int m = 0; m < 2; ++m) {
          DynamicEvaluationEngineOptions o;
          if (m) o.optimizer = TheOptimizer();
          auto r = Invoke(*le, {}, o);
          check(r.status(), nullptr, r.ok() ? &*r : nullptr, 0, "evaluation of literals");
        }
      } else {
        MC_CHECK(may, "cannot build with literals: " << le.status().ToString() << say());
      }
      first = false;
    }
    if (last) break;
  }
  mc::state(what);
}

bool init = (InitArolla(), true);

// Chooses a tree with `budget` operators. Returns the position of its root.
int ChooseTree(Dag& g, int budget, size_t pool) {
  Node n;
  if (budget == 0) {
    n.leaf = mc::choose(pool);
    n.t = g.f->pool[n.leaf].t;
    // Equal leaves are one node.
    for (size_t i = 0; i < g.nodes.size(); ++i)
      if (g.nodes[i].leaf == n.leaf) return i;
  } else {
    n.op = mc::choose(g.f->ops.size());
    auto& op = g.f->ops[n.op];
    int left = budget - 1;
    std::vector<Ty> ts;
    for (int k = 0; k < op.arity; ++k) {
      int b = k + 1 == op.arity ? left : mc::range(0, left);
      left -= b;
      n.args.push_back(ChooseTree(g, b, pool));
      ts.push_back(g.nodes[n.args.back()].t);
    }
    auto t = op.type(ts);
    if (!t) mc::abandon();
    n.t = *t;
    for (size_t i = 0; i < g.nodes.size(); ++i)
      if (g.nodes[i].op == n.op && g.nodes[i].args == n.args) return i;
  }
  g.nodes.push_back(n);
  return g.nodes.size() - 1;
}

void Trees(const Family& f, int budget, size_t pool, int modes = mc::tier(2, 4)) {
  Dag g{&f, {}};
  ChooseTree(g, mc::range(1, budget), std::min(pool, f.pool.size()));
  CheckDag(g, modes, false);
}

const Ty kU{UNIT, false}, kOU{UNIT, true}, kB{BOOL, false}, kOB{BOOL, true}, kI{I32, false}, kOI{I32, true}, kF{F32, false}, kOF{F32, true};

MC_HARNESS(presence) {
  static const Family f = {{Has(), Not(), ToOptional(), And(), Or(), Where()},
                           {Var("x", kF, {1}), Var("ox", kOF, {2}), Var("p", kOU, {0}), Var("q", kOU, {0}), Lit(kOF, 5), NoLit(kOF), Lit(kOU, 0), Lit(kF, 4), Var("oy", kOF, {3}), NoLit(kOU), Lit(kU, 0), Var("i", kI, {7}), Var("oi", kOI, {8})}};
  Trees(f, 2, mc::tier(6, 11), mc::tier(3, 4));
}

MC_HARNESS(bools) {
  static const Family f = {{LNot(), Logic("bool.logical_and", false), Logic("bool.logical_or", true), Cmp("core.equal", 0, true), ToOptional(), Or(), Cmp("bool.equal", 0, false)},
                           {Var("a", kOB, {0, 1}), Var("b", kB, {0, 1}), Lit(kB, 1), Lit(kOB, 1), Var("c", kOB, {0, 1}), NoLit(kOB), Lit(kB, 0), Lit(kOB, 0)}};
  Trees(f, 2, mc::tier(5, 8));
}

// Deeper combinations of presence operators that have optimizations of their own.
MC_HARNESS(presence_combinations) {
  static const Family f = {{Has(), Not(), ToOptional(), And(), Or(), Where()},
                           {Var("x", kF, {1}), Var("ox", kOF, {2}), Lit(kOF, 5), Lit(kF, 4), NoLit(kOF), Var("oy", kOF, {3}), Var("oi", kOI, {8}),
                            Var("p", kOU, {0}), Var("q", kOU, {0}), Lit(kOU, 0), NoLit(kOU), Lit(kU, 0)}};
  Dag g{&f, {}};
  auto node = [&](Node n) -> int {
    for (size_t i = 0; i < g.nodes.size(); ++i)
      if (g.nodes[i].leaf == n.leaf && g.nodes[i].op == n.op && g.nodes[i].args == n.args) return i;
    g.nodes.push_back(n);
    return g.nodes.size() - 1;
  };
  auto op = [&](int o, std::vector<int> args) -> int {
    std::vector<Ty> ts;
    for (int a : args) ts.push_back(g.nodes[a].t);
    auto t = f.ops[o].type(ts);
    if (!t) mc::abandon();
    return node({-1, o, args, *t});
  };
  int kind = mc::choose(6);
  bool units = mc::flag();
  auto cond = [&] { int k = 7 + mc::choose(mc::tier(3, 5)); return node({k, -1, {}, f.pool[k].t}); };
  auto value = [&]() -> int {
    if (units) return cond();
    int k = mc::choose(mc::tier(kind == 2 ? 3 : 4, 6));
    return node({k, -1, {}, f.pool[k].t});
  };
  // Arguments are chosen in order.
  auto land = [&](bool neg) { int v = value(), c = cond(); return op(3, {v, neg ? op(1, {c}) : c}); };
  if (kind < 2) {
    int a = land(false);
    op(4, {a, land(kind == 1)});
  } else if (kind == 2) {
    int d = value(), a = land(false), o = op(4, {d, a});
    op(4, {o, land(false)});
  } else if (kind == 3) {
    int a = land(mc::flag()), o = op(4, {a, value()});
    op(mc::choose(3), {o});
  } else if (kind == 4) {
    int c = cond(), a = value(), b = value();
    op(mc::choose(3), {op(5, {c, a, b})});
  } else {
    int c = cond();
    if (mc::flag()) c = op(1, {c});
    int a = mc::flag() ? land(false) : value(), b = land(mc::flag());
    if (mc::flag()) std::swap(a, b);
    op(5, {c, a, b});
  }
  // The root is the last node.
  if (g.nodes.back().op < 0) mc::abandon();
  CheckDag(g, mc::tier(2, 4), false);
}

// logical_if over every condition of up to one operator.
MC_HARNESS(logical_if) {
  static const Family f = {{LIf(), ToOptional(), Or(), LNot(), Cmp("core.equal", 0, true)},
                           {Var("a", kOB, {0, 1}), Var("b", kB, {0, 1}), Lit(kB, 1), Lit(kB, 0), NoLit(kOB), Lit(kOB, 1), Lit(kOB, 0), Var("c", kOB, {0, 1}),
                            Var("x", kF, {1}), Var("ox", kOF, {2}), Var("i", kI, {3}), Lit(kOF, 5), NoLit(kOF), Lit(kF, 6)}};
  Dag g{&f, {}};
  auto leaf = [&](int k) -> int {
    for (size_t i = 0; i < g.nodes.size(); ++i)
      if (g.nodes[i].leaf == k) return i;
    g.nodes.push_back({k, -1, {}, f.pool[k].t});
    return g.nodes.size() - 1;
  };
  auto op = [&](int o, std::vector<int> args) -> int {
    std::vector<Ty> ts;
    for (int a : args) ts.push_back(g.nodes[a].t);
    auto t = f.ops[o].type(ts);
    if (!t) mc::abandon();
    g.nodes.push_back({-1, o, args, *t});
    return g.nodes.size() - 1;
  };
  int kind = mc::choose(4), c = leaf(mc::choose(mc::tier(5, 8)));
  if (kind == 1) c = op(1, {c});
  if (kind == 2) c = op(2, {c, leaf(2 + mc::choose(mc::tier(2, 5)))});
  if (kind == 3) c = op(3, {c});
  bool bools = mc::flag();
  std::vector<int> args = {c};
  for (int k = 0; k < 3; ++k) args.push_back(leaf(bools ? std::vector{2, 3, 0, 5, 1, 6, 7}[mc::choose(mc::tier(4, 7))] : 8 + mc::choose(mc::tier(4, 6))));
  int r = op(0, args);
  if (bools && mc::flag()) op(4, {r, leaf(2)});
  CheckDag(g, mc::tier(2, 4), false);
}

MC_HARNESS(compare) {
  static const Family f = {{Cmp("bool.equal", 0, false), Cmp("bool.not_equal", 1, false), Cmp("bool.less", 2, false), Cmp("bool.less_equal", 3, false), Cmp("bool.greater", 4, false), Cmp("bool.greater_equal", 5, false), Cmp("core.equal", 0, true),
                            Cmp("core.not_equal", 1, true), Cmp("core.less", 2, true), Cmp("core.less_equal", 3, true), LNot(), ToOptional(), Not()},
                           {Var("x", kF, {1, kNan}), Var("y", kF, {1, 2, kInf}), Var("ox", kOF, {1, kNan}), Lit(kB, 1), Lit(kOB, 1), Var("i", kI, {1, 2}), Lit(kF, 1)}};
  Trees(f, 2, mc::tier(5, 7));
}

MC_HARNESS(arithmetic) {
  static const Family f = {{Arith("math.add", '+'), Arith("math.multiply", '*'), Arith("math.subtract", '-'), Or()},
                           {Var("x", kF, {0, 3, kNan}), Var("oi", kOI, {2}), Lit(kF, 0), Lit(kOI, 1), Lit(kI, 0), Lit(kF, 1), Var("ox", kOF, {5}), Var("i", kI, {4}), Lit(kOF, 0), Lit(kOF, 1), Lit(kI, 1)}};
  Trees(f, 2, mc::tier(5, 9));
}

// Branches which are evaluated only if needed: every graph of up to 3/4 operators.
MC_HARNESS(branches) {
  static const Family f = {{Where(), Arith("math.floordiv", '/'), Arith("math.add", '+'), Cmp("core.equal", 0, true)}, {Var("p", kOU, {0}), Var("q", kOU, {0}), Var("i", kI, {0, 2}), Var("j", kI, {0, 1})}};
  Dag g{&f, {}};
  for (int k = 0; k < 4; ++k) g.nodes.push_back({k, -1, {}, f.pool[k].t});
  int n = mc::range(1, 3);
  std::vector<bool> used(4 + n);
  for (int k = 0; k < n; ++k) {
    Node x;
    x.op = mc::choose(mc::tier(2, 4));
    std::vector<Ty> ts;
    auto& op = f.ops[x.op];
    for (int a = 0; a < op.arity; ++a) {
      std::vector<int> pick;
      for (size_t i = 0; i < g.nodes.size(); ++i)
        if (IsCond(g.nodes[i].t) == (x.op == 0 && a == 0)) pick.push_back(i);
      x.args.push_back(pick[mc::choose(pick.size())]);
      used[x.args.back()] = true;
      ts.push_back(g.nodes[x.args.back()].t);
    }
    x.t = *op.type(ts);
    for (auto& y : g.nodes)
      if (y.op == x.op && y.args == x.args) mc::abandon();
    // Nodes in one order only.
    if (k > 0 && std::count(x.args.begin(), x.args.end(), 4 + k - 1) == 0 && std::make_pair(x.op, x.args) < std::make_pair(g.nodes.back().op, g.nodes.back().args)) mc::abandon();
    g.nodes.push_back(x);
  }
  for (int k = 4; k + 1 < 4 + n; ++k)
    if (!used[k]) mc::abandon();
  CheckDag(g, mc::tier(2, 4), true);
}

// Slots of intermediate results: every graph, every way to give a result its place.
MC_HARNESS(slots) {
  static const std::vector<ExprOperatorPtr>* ops = [] {
    auto* r = new std::vector<ExprOperatorPtr>;
    for (int i = 0; i < 6; ++i)
      r->push_back(std::make_shared<arolla::operator_loader::DummyOperator>(mc::cat("op", i), *ExprOperatorSignature::Make("*args"), "", arolla::GetQType<float>()));
    return r;
  }();
  enum Kind { kNew, kPermanent, kInherit };
  int n = mc::range(1, mc::tier(3, 4));
  std::vector<ExprNodePtr> nodes = {Leaf("x"), Leaf("y")};
  std::vector<Kind> kind(2, kNew);
  std::vector<bool> used(2 + n);
  bool reuse_inputs = mc::flag();
  for (int k = 0; k < n; ++k) {
    int a = mc::choose(nodes.size() + 1), b = a == 0 ? 0 : mc::choose(a + 1);  // 0: nothing
    std::vector<ExprNodePtr> deps;
    for (int d : {a, b})
      if (d > 0) deps.push_back(nodes[d - 1]), used[d - 1] = true;
    // The order of the arguments decides about the order of the nodes.
    if (deps.size() == 2 && a != b && mc::flag()) std::swap(deps[0], deps[1]);
    kind.push_back((Kind)mc::choose(deps.empty() ? 2 : 3));
    nodes.push_back(ExprNode::UnsafeMakeOperatorNode(ExprOperatorPtr((*ops)[k]), std::move(deps), arolla::expr::ExprAttributes(k % 2 ? arolla::GetQType<float>() : arolla::GetQType<int64_t>())));
  }
  for (int k = 2; k + 1 < 2 + n; ++k)
    if (!used[k]) mc::abandon();
  arolla::expr::PostOrder order(nodes.back());
  size_t m = order.nodes_size();
  std::vector<Kind> kinds(m);
  for (size_t i = 0; i < m; ++i)
    for (size_t k = 0; k < nodes.size(); ++k)
      if (order.node(i)->fingerprint() == nodes[k]->fingerprint()) kinds[i] = kind[k];
  arolla::FrameLayout::Builder builder;
  absl::flat_hash_map<std::string, arolla::TypedSlot> inputs = {{"x", arolla::TypedSlot::FromSlot(builder.AddSlot<int64_t>())}, {"y", arolla::TypedSlot::FromSlot(builder.AddSlot<float>())}};
  arolla::expr::eval_internal::SlotAllocator alloc(order, builder, inputs, reuse_inputs);
  // The node that owns the place of each, and the last node that reads it.
  std::vector<size_t> owner(m), last(m);
  for (size_t i = 0; i < m; ++i) {
    owner[i] = i;
    last[i] = i + 1 == m ? m : i;
    if (!order.node(i)->is_leaf() && kinds[i] == kInherit) owner[i] = owner[order.dep_indices(i)[0]];
  }
  for (size_t i = 0; i < m; ++i)
    for (size_t d : order.dep_indices(i)) last[owner[d]] = std::max(last[owner[d]], i);
  last[owner[m - 1]] = m;
  std::vector<std::optional<arolla::TypedSlot>> slot(m);
  for (size_t i = 0; i < m; ++i) {
    mc::step();
    auto& x = order.node(i);
    arolla::QTypePtr type = x->is_op() ? x->qtype() : inputs.at(x->leaf_key()).GetType();
    if (x->is_leaf()) {
      slot[i] = inputs.at(x->leaf_key());
      alloc.InheritSlotFrom(i, i);
    } else if (owner[i] != i) {
      slot[i] = slot[owner[i]];
      alloc.InheritSlotFrom(i, order.dep_indices(i)[0]);
    } else {
      slot[i] = kinds[i] == kPermanent ? alloc.AllocatePermanentSlot(i, type) : alloc.AllocateSlot(i, type);
      MC_CHECK(slot[i]->GetType() == type, "type of a slot");
    }
    if (owner[i] == i)
      for (size_t j = 0; j < m; ++j) {
        // Inputs have their places from the start, and keep them if they may not be reused.
        if (j == i || owner[j] != j || (j > i && !order.node(j)->is_leaf())) continue;
        auto other = order.node(j)->is_leaf() ? inputs.at(order.node(j)->leaf_key()) : *slot[j];
        bool live = order.node(j)->is_leaf() ? !reuse_inputs || last[j] >= i : last[j] >= i || kinds[j] == kPermanent;
        MC_CHECK(!live || other.byte_offset() != slot[i]->byte_offset(), "node " << i << " of " << m << " overwrites node " << j << " that is needed until " << last[j]);
      }
    alloc.ReleaseSlotsNotNeededAfter(i);
  }
  std::set<size_t> offsets;
  for (auto& s : alloc.ReusableSlots()) {
    MC_CHECK(offsets.insert(s.byte_offset()).second, "a slot is twice among the reusable ones");
  }
  mc::state(mc::cat(nodes.back()->fingerprint().AsString(), kind.size()));
}

}  // namespace

MC_MAIN()
