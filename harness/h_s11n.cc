// Serialization: encoding and decoding of values and expressions, and every single fault of an encoding.
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_debug_string.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/operator_loader/dummy_operator.h"
#include "arolla/expr/operators/while_loop/while_loop.h"
#include "arolla/expr/overloaded_expr_operator.h"
#include "arolla/expr/quote.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/memory/optional_value.h"
#include "arolla/proto/serialization_base.pb.h"
#include "arolla/qtype/array_like/array_like_qtype.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/serialization/decode.h"
#include "arolla/serialization/encode.h"
#include "arolla/serialization/utils.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "mc.h"

namespace {

using namespace arolla;
using namespace arolla::expr;
using arolla::expr_operators::WhileLoopOperator;
using serialization_base::ContainerProto;
using serialization_base::DecodingStepProto;

bool init = (InitArolla(), true);

struct Item {
  std::string name;
  TypedValue v;
};
struct Expr {
  std::string name;
  ExprNodePtr e;
};

template <class T>
void Scalars(std::vector<Item>& r, std::vector<T> values) {
  for (size_t i = 0; i < values.size(); ++i) {
    T v = values[i];
    r.push_back({mc::cat("scalar ", GetQType<T>()->name(), " ", i), TypedValue::FromValue(v)});
    r.push_back({mc::cat("optional ", GetQType<T>()->name(), " ", i), TypedValue::FromValue(OptionalValue<T>(v))});
  }
  r.push_back({mc::cat("missing ", GetQType<T>()->name()), TypedValue::FromValue(OptionalValue<T>())});
  r.push_back({mc::cat("qtype ", GetQType<T>()->name()), TypedValue::FromValue(GetQType<T>())});
  r.push_back({mc::cat("qtype ", GetOptionalQType<T>()->name()), TypedValue::FromValue((QTypePtr)GetOptionalQType<T>())});
  using O = std::vector<OptionalValue<T>>;
  T a = values[0], b = values[values.size() - 1];
  std::vector<O> lists = {{}, {a}, {OptionalValue<T>()}, {a, {}, b}, {{}, {}}, {a, b, a, b}};
  O big;
  for (int i = 0; i < 40; ++i) big.push_back(i % 3 == 0 ? OptionalValue<T>() : OptionalValue<T>(i % 2 ? a : b));
  lists.push_back(big);
  int k = 0;
  for (auto& l : lists) {
    auto d = CreateDenseArray<T>(l);
    auto n = [&](const char* what) { return mc::cat(what, " ", GetQType<T>()->name(), " ", k); };
    r.push_back({n("dense"), TypedValue::FromValue(d)});
    if (l.size() > 2) {
      r.push_back({n("dense slice"), TypedValue::FromValue(d.Slice(1, l.size() - 2))});
      r.push_back({n("array of a slice"), TypedValue::FromValue(Array<T>(d.Slice(1, l.size() - 1)))});
    }
    r.push_back({n("array"), TypedValue::FromValue(Array<T>(d))});
    r.push_back({n("sparse array"), TypedValue::FromValue(Array<T>(d).ToSparseForm())});
    r.push_back({n("sparse array with a default"), TypedValue::FromValue(Array<T>(d).ToSparseForm(OptionalValue<T>(b)))});
    if (l.size() > 3) r.push_back({n("slice of a sparse array"), TypedValue::FromValue(Array<T>(d).ToSparseForm().Slice(1, l.size() - 2))});
    ++k;
  }
  r.push_back({mc::cat("const array ", GetQType<T>()->name()), TypedValue::FromValue(Array<T>(100, OptionalValue<T>(a)))});
  r.push_back({mc::cat("missing array ", GetQType<T>()->name()), TypedValue::FromValue(Array<T>(7, OptionalValue<T>()))});
}

std::vector<Item> MakeItems() {
  std::vector<Item> r;
  Scalars<float>(r, {0.f, -0.f, 1.5f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::lowest()});
  Scalars<double>(r, {-0., 0.1, -std::numeric_limits<double>::infinity(), std::nan(""), std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min()});
  Scalars<int32_t>(r, {0, -1, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max()});
  Scalars<int64_t>(r, {0, -1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()});
  Scalars<uint64_t>(r, {0, 1, std::numeric_limits<uint64_t>::max()});
  Scalars<bool>(r, {false, true});
  Scalars<Unit>(r, {Unit()});
  Scalars<Bytes>(r, {Bytes(""), Bytes(std::string("\0\xff\n", 3)), Bytes("bytes that do not fit into a short string")});
  Scalars<Text>(r, {Text(""), Text("a"), Text("\xd0\xb6 and a long text that does not fit"), Text(std::string("x\0y", 3))});
  auto add = [&](std::string n, TypedValue v) { r.push_back({std::move(n), std::move(v)}); };
  add("weak float", *TypedValue::FromValueWithQType(0.5, GetWeakFloatQType()));
  add("qtype WEAK_FLOAT", TypedValue::FromValue(GetWeakFloatQType()));
  add("unspecified", GetUnspecifiedQValue());
  add("scalar shape", TypedValue::FromValue(ScalarShape()));
  add("optional shape", TypedValue::FromValue(OptionalScalarShape()));
  for (int64_t n : {0, 5}) {
    add(mc::cat("dense shape ", n), TypedValue::FromValue(DenseArrayShape{n}));
    add(mc::cat("array shape ", n), TypedValue::FromValue(ArrayShape{n}));
    add(mc::cat("dense to scalar ", n), TypedValue::FromValue(DenseArrayGroupScalarEdge(n)));
    add(mc::cat("array to scalar ", n), TypedValue::FromValue(ArrayGroupScalarEdge(n)));
  }
  for (auto& s : std::vector<std::vector<int64_t>>{{0}, {0, 0}, {0, 2, 2, 5}}) {
    auto d = CreateFullDenseArray(s);
    add(mc::cat("dense split points ", s.size()), TypedValue::FromValue(*DenseArrayEdge::FromSplitPoints(d)));
    add(mc::cat("array split points ", s.size()), TypedValue::FromValue(*ArrayEdge::FromSplitPoints(Array<int64_t>(d))));
  }
  for (auto& s : std::vector<std::vector<OptionalValue<int64_t>>>{{}, {2}, {{}, 0, 1, {}, 0}}) {
    auto d = CreateDenseArray<int64_t>(s);
    add(mc::cat("dense mapping ", s.size()), TypedValue::FromValue(*DenseArrayEdge::FromMapping(d, 3)));
    add(mc::cat("array mapping ", s.size()), TypedValue::FromValue(*ArrayEdge::FromMapping(Array<int64_t>(d), 3)));
    add(mc::cat("array sparse mapping ", s.size()), TypedValue::FromValue(*ArrayEdge::FromMapping(Array<int64_t>(d).ToSparseForm(), 3)));
  }
  add("empty tuple", MakeTuple(absl::Span<const TypedValue>()));
  add("tuple", MakeTupleFromFields(1.f, Text("a"), 1.f));
  add("nested tuple", MakeTupleFromFields(MakeTupleFromFields(1.f), MakeTupleFromFields(1.f), MakeTupleFromFields(MakeTupleFromFields(1.f), 2)));
  add("named tuple", *MakeNamedTuple({"a", "b"}, {TypedRef::FromValue(1.f), TypedRef::FromValue(2)}));
  add("empty named tuple", *MakeNamedTuple(absl::Span<const std::string>(), absl::Span<const TypedRef>()));
  add("tuple of named tuples", MakeTupleFromFields(*MakeNamedTuple({"a"}, {TypedRef::FromValue(1.f)}), *MakeNamedTuple({"b"}, {TypedRef::FromValue(1.f)})));
  auto slice_t = MakeSliceQType(GetQType<int32_t>(), GetQType<float>(), GetUnspecifiedQType());
  add("slice", UnsafeDowncastDerivedQValue(slice_t, MakeTupleFromFields(1, 2.f, GetUnspecifiedQValue())));
  add("slice of tuple", MakeTupleFromFields(UnsafeDowncastDerivedQValue(slice_t, MakeTupleFromFields(1, 2.f, GetUnspecifiedQValue())), 1));
  for (QTypePtr q : {GetQType<DenseArray<float>>(), GetQType<Array<Text>>(), GetQType<DenseArrayEdge>(), GetQType<ArrayEdge>(), GetQType<DenseArrayGroupScalarEdge>(), GetQType<ArrayGroupScalarEdge>(), GetQType<ScalarShape>(),
                     GetQType<OptionalScalarShape>(), GetQType<DenseArrayShape>(), GetQType<ArrayShape>(), GetUnspecifiedQType(), GetQTypeQType(), GetQType<ExprOperatorPtr>(), GetQType<ExprQuote>(), MakeTupleQType({}),
                     MakeTupleQType({GetQType<float>(), MakeTupleQType({GetQType<int>()})}), *MakeNamedTupleQType({"x", "y"}, MakeTupleQType({GetQType<float>(), GetQType<float>()})), slice_t,
                     *GetKeyToRowDictQType(GetQType<Text>()), *GetDictQType(GetQType<Text>(), GetQType<float>())})
    add(mc::cat("qtype ", q->name()), TypedValue::FromValue(q));
  auto op = [&](std::string n, ExprOperatorPtr o) { add("operator " + n, TypedValue::FromValue(std::move(o))); };
  ExprNodePtr x = Placeholder("x"), y = Placeholder("y");
  auto sum = *CallOp("math.add", {x, y});
  op("make_tuple", MakeTupleOperator::Make());
  op("get_nth", std::make_shared<GetNthOperator>(3));
  op("registered", std::make_shared<RegisteredOperator>("math.add"));
  op("lambda", *MakeLambdaOperator("add", *ExprOperatorSignature::Make("x, y"), sum, "doc"));
  op("lambda with a default", *MakeLambdaOperator("add", *ExprOperatorSignature::Make("x, y=", TypedValue::FromValue(1.f)), sum));
  op("lambda with an equal default", *MakeLambdaOperator("add", *ExprOperatorSignature::Make("x, y=", TypedValue::FromValue(1.f)), *CallOp("math.add", {*CallOp("math.add", {x, y}), Literal(1.f)})));
  op("variadic lambda", *MakeLambdaOperator("v", *ExprOperatorSignature::Make("x, *y"), *CallOp("core.make_tuple", {x, y})));
  op("overloaded", *MakeOverloadedOperator("o", *MakeLambdaOperator("a", x), *MakeLambdaOperator("b", *ExprOperatorSignature::Make("x, y"), sum)));
  op("dummy", std::make_shared<operator_loader::DummyOperator>("d", *ExprOperatorSignature::Make("x, y=", TypedValue::FromValue(Text("t"))), "doc", GetQType<float>()));
  auto less = *MakeLambdaOperator("less", *ExprOperatorSignature::Make("x, y"), *CallOp("core.less", {x, y}));
  auto step = *MakeLambdaOperator("step", *ExprOperatorSignature::Make("x, y"), *CallOp("core.make_tuple", {sum, y}));
  op("while loop", *WhileLoopOperator::Make("loop", *ExprOperatorSignature::Make("x, y"), less, step));
  add("quote", TypedValue::FromValue(ExprQuote(*CallOp("math.add", {Leaf("x"), Literal(1.f)}))));
  add("quote of a quote", TypedValue::FromValue(ExprQuote(Literal(ExprQuote(Leaf("x"))))));
  return r;
}
const std::vector<Item>& Items() {
  static const auto* r = new std::vector<Item>(MakeItems());
  return *r;
}
// One per kind.
std::vector<Item> Kinds() {
  std::vector<Item> r;
  std::set<std::string> seen;
  for (auto& i : Items()) {
    bool scalar_like = i.name.find("FLOAT32") != std::string::npos || i.name.find("TEXT") != std::string::npos || i.name.find("UNIT") != std::string::npos || i.name.find("BOOLEAN") != std::string::npos;
    bool other = i.name.find("FLOAT64") != std::string::npos || i.name.find("INT") != std::string::npos || i.name.find("BYTES") != std::string::npos;
    if (other && i.name.find("qtype") == std::string::npos) continue;
    if (scalar_like && i.name.back() != '3' && i.name.back() != '6' && i.name.find("qtype") == std::string::npos && i.name.find("const") == std::string::npos) continue;
    r.push_back(i);
  }
  return r;
}

std::vector<Expr> MakeExprs() {
  std::vector<Expr> r;
  ExprNodePtr x = Leaf("x"), y = Leaf(""), p = Placeholder("x"), l = Literal(1.f);
  auto add = [&](std::string n, ExprNodePtr e) { r.push_back({std::move(n), std::move(e)}); };
  add("leaf", x);
  add("leaf with an empty key", y);
  add("placeholder", p);
  add("literal", l);
  add("literal tuple", Literal(MakeTupleFromFields(1.f, 2)));
  add("literal operator", Literal((ExprOperatorPtr)MakeTupleOperator::Make()));
  auto s = *CallOp("math.add", {x, l});
  add("x + 1", s);
  add("(x + 1) + (x + 1)", *CallOp("math.add", {s, s}));
  add("(x + 1) * ((x + 1) + P.x)", *CallOp("math.multiply", {s, *CallOp("math.add", {s, p})}));
  add("1 + 1", *CallOp("math.add", {l, l}));
  add("empty tuple", *CallOp("core.make_tuple", {}));
  add("annotation", *CallOp("annotation.qtype", {x, Literal((QTypePtr)GetQType<float>())}));
  add("annotated sum", *CallOp("math.add", {*CallOp("annotation.qtype", {x, Literal((QTypePtr)GetQType<float>())}), l}));
  auto lam = *MakeLambdaOperator("add", *ExprOperatorSignature::Make("x, y"), *CallOp("math.add", {p, Placeholder("y")}));
  add("lambda", *CallOp(lam, {x, l}));
  add("lambda in a lambda", *CallOp(*MakeLambdaOperator(*CallOp(lam, {p, l})), {*CallOp(lam, {x, s})}));
  add("get_nth", *CallOp(std::make_shared<GetNthOperator>(1), {*CallOp("core.make_tuple", {x, s})}));
  auto deep = s;
  for (int i = 0; i < 30; ++i) deep = *CallOp("math.add", {deep, i % 2 ? x : deep});
  add("deep", deep);
  return r;
}
const std::vector<Expr>& Exprs() {
  static const auto* r = new std::vector<Expr>(MakeExprs());
  return *r;
}

using Values = std::vector<TypedValue>;
using Nodes = std::vector<ExprNodePtr>;

// The same structure, whatever is known about types.
bool Alike(const ExprNodePtr& a, const ExprNodePtr& b, std::set<std::pair<const ExprNode*, const ExprNode*>>& seen) {
  if (!seen.insert({a.get(), b.get()}).second) return true;
  if (a->type() != b->type() || a->leaf_key() != b->leaf_key() || a->placeholder_key() != b->placeholder_key() || a->node_deps().size() != b->node_deps().size()) return false;
  if (a->is_literal() && (a->qtype() != b->qtype() || (a->qvalue()->Repr() != b->qvalue()->Repr() && a->qvalue()->Repr().find(" at 0x") == std::string::npos))) return false;
  if (a->is_op() && (a->op()->display_name() != b->op()->display_name() || typeid(*a->op()) != typeid(*b->op()))) return false;
  for (size_t i = 0; i < a->node_deps().size(); ++i)
    if (!Alike(a->node_deps()[i], b->node_deps()[i], seen)) return false;
  return true;
}
bool Alike(const ExprNodePtr& a, const ExprNodePtr& b) {
  std::set<std::pair<const ExprNode*, const ExprNode*>> seen;
  return Alike(a, b, seen);
}

// All elements of an array, every one of which is read; what is inside a tuple; and whether edges and sparse arrays are what they must be.
template <class T>
bool ElementsOf(const TypedValue& v, std::string& r) {
  auto put = [&](const auto& a) {
    r += mc::cat(a.size(), ": ");
    for (int64_t i = 0; i < a.size(); ++i) r += Repr(OptionalValue<T>(a[i])) + " ";
  };
  if (v.GetType() == GetQType<DenseArray<T>>()) {
    auto& a = v.UnsafeAs<DenseArray<T>>();
    MC_CHECK(a.CheckBitmapMatchesValues(), "bitmap and values of a dense array");
    if (a.size() < 5000) put(a);
    return true;
  }
  if (v.GetType() == GetQType<Array<T>>()) {
    auto& a = v.UnsafeAs<Array<T>>();
    auto& f = a.id_filter();
    if (f.type() == IdFilter::kPartial) {
      MC_EQ(f.ids().size(), a.dense_data().size(), "ids of a sparse array");
      for (int64_t i = 0; i < f.ids().size(); ++i) {
        int64_t id = f.ids()[i] - f.ids_offset();
        MC_CHECK(id >= 0 && id < a.size() && (i == 0 || f.ids()[i - 1] < f.ids()[i]), "id " << id << " of a sparse array of size " << a.size());
      }
    }
    if (a.size() < 5000) put(a);
    return true;
  }
  return false;
}
template <class E>
void CheckEdge(const E& e) {
  if (e.edge_type() == E::MAPPING) {
    MC_EQ(e.edge_values().size(), e.child_size(), "size of a mapping");
    e.edge_values().ForEachPresent([&](int64_t, int64_t p) { MC_CHECK(p >= 0 && p < e.parent_size(), "parent " << p << " of " << e.parent_size()); });
  } else {
    MC_EQ(e.edge_values().size(), e.parent_size() + 1, "number of split points");
    MC_CHECK(e.edge_values().PresentCount() == e.edge_values().size() && e.edge_values()[0].value == 0 && e.edge_values()[e.parent_size()].value == e.child_size(), "split points");
    for (int64_t i = 0; i < e.parent_size(); ++i) MC_CHECK(e.edge_values()[i].value <= e.edge_values()[i + 1].value, "split points");
  }
}
std::string Elements(const TypedValue& v) {
  std::string r;
  if (v.GetType() == GetQType<DenseArrayEdge>()) CheckEdge(v.UnsafeAs<DenseArrayEdge>());
  if (v.GetType() == GetQType<ArrayEdge>()) CheckEdge(v.UnsafeAs<ArrayEdge>());
  if (IsTupleQType(v.GetType()) || IsNamedTupleQType(v.GetType()))
    for (int i = 0; i < v.GetFieldCount(); ++i) r += Elements(TypedValue(v.GetField(i))) + ", ";
  (void)(ElementsOf<float>(v, r) || ElementsOf<double>(v, r) || ElementsOf<int32_t>(v, r) || ElementsOf<int64_t>(v, r) || ElementsOf<uint64_t>(v, r) || ElementsOf<bool>(v, r) || ElementsOf<Unit>(v, r) ||
         ElementsOf<Bytes>(v, r) || ElementsOf<Text>(v, r));
  return r;
}

// Empty arrays and arrays that share buffers with others have fingerprints of their own.
bool SameValue(const TypedValue& a, const TypedValue& b) {
  if (a.GetFingerprint() == b.GetFingerprint()) return true;
  if (a.GetType() != b.GetType()) return false;
  if (!IsArrayQType(a.GetType()) && a.GetType() != GetQType<ArrayEdge>()) return false;
  return a.Repr() == b.Repr() && Elements(a) == Elements(b) && serialization::Encode({a}, {})->SerializeAsString() == serialization::Encode({b}, {})->SerializeAsString();
}

void CheckSame(const serialization::DecodeResult& d, const Values& v, const Nodes& e, const char* how) {
  MC_EQ(d.values.size(), v.size(), "number of values, " << how);
  MC_EQ(d.exprs.size(), e.size(), "number of expressions, " << how);
  for (size_t i = 0; i < v.size(); ++i) {
    MC_CHECK(d.values[i].GetType() == v[i].GetType(), "type of value " << i << " is " << d.values[i].GetType()->name() << ", expected " << v[i].GetType()->name() << ", " << how);
    MC_CHECK(SameValue(d.values[i], v[i]), "value " << i << " is " << d.values[i].Repr() << ", expected " << v[i].Repr() << ", " << how);
    if (v[i].Repr().find(" at 0x") == std::string::npos) MC_EQ(d.values[i].Repr(), v[i].Repr(), "value " << i << ", " << how);
  }
  for (size_t i = 0; i < e.size(); ++i) {
    MC_CHECK(d.exprs[i]->fingerprint() == e[i]->fingerprint(), "expression " << i << " differs, " << how);
  }
}

ContainerProto MustEncode(const Values& v, const Nodes& e) {
  auto c = serialization::Encode(v, e);
  MC_CHECK(c.ok(), "cannot encode: " << c.status().ToString());
  return *c;
}

// The same steps in the first version of the format.
ContainerProto Version1(const ContainerProto& c) {
  ContainerProto r;
  r.set_version(1);
  std::map<uint64_t, uint64_t> step, codec;
  for (int i = 0; i < c.decoding_steps_size(); ++i) {
    auto s = c.decoding_steps(i);
    auto at = [&](uint64_t k) { return step.at(k); };
    s.clear_decoder_hints();
    if (s.has_codec()) {
      codec[i] = r.codecs_size();
      r.add_codecs()->set_name(s.codec().name());
      continue;
    }
    if (s.type_case() == DecodingStepProto::kOutputValueIndex) {
      r.add_output_value_indices(at(s.output_value_index()));
      continue;
    }
    if (s.type_case() == DecodingStepProto::kOutputExprIndex) {
      r.add_output_expr_indices(at(s.output_expr_index()));
      continue;
    }
    if (s.type_case() == DecodingStepProto::TYPE_NOT_SET) continue;
    if (s.has_literal_node()) s.mutable_literal_node()->set_literal_value_index(at(s.literal_node().literal_value_index()));
    if (s.has_operator_node()) {
      s.mutable_operator_node()->set_operator_value_index(at(s.operator_node().operator_value_index()));
      for (auto& k : *s.mutable_operator_node()->mutable_input_expr_indices()) k = at(k);
    }
    if (s.has_value()) {
      if (s.value().has_codec_index()) s.mutable_value()->set_codec_index(codec.at(s.value().codec_index()));
      for (auto& k : *s.mutable_value()->mutable_input_expr_indices()) k = at(k);
      for (auto& k : *s.mutable_value()->mutable_input_value_indices()) k = at(k);
    }
    step[i] = r.decoding_steps_size();
    *r.add_decoding_steps() = s;
  }
  return r;
}

void RoundTrip(const Values& v, const Nodes& e) {
  auto c = MustEncode(v, e);
  MC_CHECK(MustEncode(v, e).SerializeAsString() == c.SerializeAsString(), "encoding is not deterministic");
  auto check = [&](const ContainerProto& p, const char* how, serialization::DecodingOptions o = {}) {
    auto d = serialization::Decode(p, o);
    MC_CHECK(d.ok(), "cannot decode " << how << ": " << d.status().ToString());
    CheckSame(*d, v, e, how);
    mc::step();
    return *std::move(d);
  };
  auto d = check(c, "as is");
  // What was decoded is encoded in the same way.
  MC_CHECK(MustEncode(d.values, d.exprs).SerializeAsString() == c.SerializeAsString(), "encoding of the decoded values differs");
  ContainerProto parsed;
  MC_CHECK(parsed.ParseFromString(c.SerializeAsString()), "cannot parse");
  check(parsed, "parsed");
  auto plain = c, blind = c;
  for (auto& s : *plain.mutable_decoding_steps()) s.clear_decoder_hints();
  check(plain, "without hints");
  for (auto& s : *blind.mutable_decoding_steps())
    if (s.has_value()) s.mutable_value()->clear_codec_index();
  check(blind, "without codec indices");
  check(Version1(c), "version 1");
  // Definitions of operators may need the attributes that are left out.
  if (v.empty()) {
    auto loose = serialization::Decode(c, {.infer_attributes_for_operator_nodes = false});
    MC_CHECK(loose.ok() && loose->exprs.size() == e.size(), "without attributes: " << loose.status().ToString());
    for (size_t i = 0; i < e.size(); ++i) MC_CHECK(Alike(loose->exprs[i], e[i]), "expression " << i << " without attributes");
  }
  // Every value once: the number of steps does not depend on repetitions.
  auto v2 = v;
  auto e2 = e;
  v2.insert(v2.end(), v.begin(), v.end());
  e2.insert(e2.end(), e.begin(), e.end());
  auto c2 = MustEncode(v2, e2);
  auto size = [](const ContainerProto& p) {
    int n = 0;
    for (auto& s : p.decoding_steps())
      if (s.type_case() != DecodingStepProto::TYPE_NOT_SET && s.type_case() != DecodingStepProto::kOutputValueIndex && s.type_case() != DecodingStepProto::kOutputExprIndex) ++n;
    return n;
  };
  MC_EQ(size(c2), size(c), "steps for repeated values");
}

TypedValue Decoded(const TypedValue& v) { return serialization::Decode(MustEncode({v}, {}))->values[0]; }

MC_HARNESS(value) {
  auto& i = mc::pick(Items());
  MC_SAY(i.name);
  RoundTrip({i.v}, {});
  if (Decoded(i.v).GetFingerprint() != i.v.GetFingerprint()) {
    MC_CHECK(i.name.find("sparse") != std::string::npos || (i.v.Repr().find("array([]") != std::string::npos), "another fingerprint");
    mc::state(i.name);
    return;
  }
  RoundTrip({MakeTupleFromFields(i.v, i.v)}, {Literal(i.v)});
  // In a lambda.
  auto l = MakeLambdaOperator("l", *ExprOperatorSignature::Make("x, y=", i.v), *CallOp("core.make_tuple", {Placeholder("x"), Placeholder("y"), Literal(i.v)}));
  MC_CHECK(l.ok(), l.status().ToString());
  RoundTrip({TypedValue::FromValue<ExprOperatorPtr>(*l), TypedValue::FromValue(i.v.GetType())}, {});
  mc::state(i.name);
}

MC_HARNESS(pair) {
  static const auto* ks = new std::vector<Item>(Kinds());
  auto& a = mc::pick(*ks);
  auto& b = mc::pick(*ks);
  if (mc::tier(1, 0) && (&a - &b) % 7 != 0) mc::abandon();
  MC_SAY(a.name << ", " << b.name);
  RoundTrip({a.v, b.v}, {});
  // Values are equal exactly if their fingerprints are.
  bool same = MustEncode({a.v}, {}).SerializeAsString() == MustEncode({b.v}, {}).SerializeAsString();
  MC_EQ(same, a.v.GetFingerprint() == b.v.GetFingerprint(), "equality of encodings");
  mc::state(a.name + b.name);
}

MC_HARNESS(expression) {
  auto& a = mc::pick(Exprs());
  MC_SAY(a.name);
  RoundTrip({}, {a.e});
  auto& b = mc::pick(Exprs());
  MC_SAY(b.name);
  RoundTrip({}, {a.e, b.e});
  RoundTrip({TypedValue::FromValue(ExprQuote(a.e))}, {b.e});
  // Named sets of expressions.
  auto s = serialization::EncodeExprSet({{"a", a.e}, {"b", b.e}, {"", a.e}});
  MC_CHECK(s.ok(), s.status().ToString());
  auto d = serialization::DecodeExprSet(*s);
  MC_CHECK(d.ok(), d.status().ToString());
  MC_EQ(d->size(), 3u, "size of a set");
  MC_CHECK(d->at("a")->fingerprint() == a.e->fingerprint() && d->at("b")->fingerprint() == b.e->fingerprint() && d->at("")->fingerprint() == a.e->fingerprint(), "set of expressions");
  MC_CHECK(!serialization::DecodeExpr(MustEncode({}, {a.e, b.e})).ok() && !serialization::DecodeExpr(MustEncode({}, {})).ok() && !serialization::DecodeValue(MustEncode({}, {a.e})).ok(), "several or no outputs");
  auto one = serialization::DecodeExpr(MustEncode({}, {a.e}));
  MC_CHECK(one.ok() && (*one)->fingerprint() == a.e->fingerprint(), "DecodeExpr");
  mc::state(a.name + b.name);
}

// Every operator of the standard package.
MC_HARNESS(package) {
  static const auto* names = [] {
    auto* r = new std::vector<std::string>;
    for (auto n : ExprOperatorRegistry::GetInstance()->ListRegisteredOperators()) r->push_back(std::string(n));
    std::sort(r->begin(), r->end());
    return r;
  }();
  int n = mc::choose(names->size());
  MC_SAY((*names)[n]);
  auto reg = LookupOperator((*names)[n]);
  MC_CHECK(reg.ok(), reg.status().ToString());
  RoundTrip({TypedValue::FromValue<ExprOperatorPtr>(*reg)}, {});
  auto op = DecayRegisteredOperator(*reg);
  MC_CHECK(op.ok(), op.status().ToString());
  auto v = TypedValue::FromValue(*op);
  auto c = serialization::Encode({v}, {});
  if (!c.ok()) {
    // Operators implemented in C++.
    MC_CHECK(c.status().code() == absl::StatusCode::kUnimplemented, c.status().ToString());
    mc::abandon();
  }
  RoundTrip({v}, {});
  mc::state((*names)[n]);
}

// ---- Faults

using google::protobuf::FieldDescriptor;
using google::protobuf::Message;

// Applies fault number `k` if it is in `m`, otherwise subtracts their number.
bool Fault(Message* m, int& k, std::string& what) {
  auto* r = m->GetReflection();
  std::vector<const FieldDescriptor*> set;
  r->ListFields(*m, &set);
  std::set<const FieldDescriptor*> is_set(set.begin(), set.end());
  auto hit = [&](const FieldDescriptor* f, const std::string& w) {
    if (k-- != 0) return false;
    what = mc::cat(f->full_name(), ": ", w);
    return true;
  };
  auto integers = [&](const FieldDescriptor* f, int64_t v, bool sign) {
    std::vector<int64_t> c = {0, 1, v + 1, v - 1, 1 << 20};
    if (sign) c.push_back(-1);
    if (v != 0) c.push_back(-v);
    c.push_back(f->cpp_type() == FieldDescriptor::CPPTYPE_INT32    ? std::numeric_limits<int32_t>::max()
                : f->cpp_type() == FieldDescriptor::CPPTYPE_UINT32 ? (int64_t)std::numeric_limits<uint32_t>::max()
                                                                   : std::numeric_limits<int64_t>::max());
    if (f->cpp_type() == FieldDescriptor::CPPTYPE_INT64) c.push_back(std::numeric_limits<int64_t>::min());
    return c;
  };
  for (auto* f : set) {
    if (f->is_repeated()) {
      int n = r->FieldSize(*m, f);
      if (hit(f, "cleared")) return r->ClearField(m, f), true;
      if (hit(f, "last removed")) return r->RemoveLast(m, f), true;
      for (int i = 0; i + 1 < n && i < 40; ++i)
        if (hit(f, mc::cat("swapped ", i))) return r->SwapElements(m, f, i, i + 1), true;
      for (int i = 0; i + 1 < n && i < 40; ++i)
        if (hit(f, mc::cat("removed ", i))) {
          for (int j = i; j + 1 < n; ++j) r->SwapElements(m, f, j, j + 1);
          return r->RemoveLast(m, f), true;
        }
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_MESSAGE:
          for (int i = 0; i < n; ++i) {
            if (hit(f, mc::cat("repeated ", i))) return r->AddMessage(m, f)->CopyFrom(r->GetRepeatedMessage(*m, f, i)), true;
            if (Fault(r->MutableRepeatedMessage(m, f, i), k, what)) return true;
          }
          break;
        case FieldDescriptor::CPPTYPE_STRING:
          for (int i = 0; i < n; ++i) {
            if (hit(f, "emptied")) return r->SetRepeatedString(m, f, i, ""), true;
            if (hit(f, "odd")) return r->SetRepeatedString(m, f, i, "\x80~"), true;
          }
          if (hit(f, "appended")) return r->AddString(m, f, "x"), true;
          break;
        case FieldDescriptor::CPPTYPE_INT64:
          for (int i = 0; i < n && i < 8; ++i)
            for (int64_t v : integers(f, r->GetRepeatedInt64(*m, f, i), true))
              if (hit(f, mc::cat("element ", i, " is ", v))) return r->SetRepeatedInt64(m, f, i, v), true;
          if (hit(f, "appended")) return r->AddInt64(m, f, 1), true;
          break;
        case FieldDescriptor::CPPTYPE_UINT64:
          for (int i = 0; i < n && i < 8; ++i)
            for (int64_t v : integers(f, r->GetRepeatedUInt64(*m, f, i), true))
              if (hit(f, mc::cat("element ", i, " is ", v))) return r->SetRepeatedUInt64(m, f, i, v), true;
          if (hit(f, "appended")) return r->AddUInt64(m, f, 1), true;
          break;
        case FieldDescriptor::CPPTYPE_UINT32:
          for (int i = 0; i < n && i < 8; ++i)
            for (int64_t v : integers(f, r->GetRepeatedUInt32(*m, f, i), true))
              if (hit(f, mc::cat("element ", i, " is ", v))) return r->SetRepeatedUInt32(m, f, i, v), true;
          if (hit(f, "appended")) return r->AddUInt32(m, f, 1), true;
          break;
        case FieldDescriptor::CPPTYPE_FLOAT:
          if (hit(f, "appended")) return r->AddFloat(m, f, 1), true;
          break;
        case FieldDescriptor::CPPTYPE_BOOL:
          if (hit(f, "appended")) return r->AddBool(m, f, true), true;
          break;
        default: break;
      }
      continue;
    }
    if (hit(f, "cleared")) return r->ClearField(m, f), true;
    switch (f->cpp_type()) {
      case FieldDescriptor::CPPTYPE_MESSAGE:
        if (hit(f, "emptied")) return r->MutableMessage(m, f)->Clear(), true;
        if (Fault(r->MutableMessage(m, f), k, what)) return true;
        break;
      case FieldDescriptor::CPPTYPE_STRING:
        for (const char* v : {"", "x", "\x80~", "x, *y", "x=, y", "math.add", "a.b.c"})
          if (hit(f, mc::cat("is '", v, "'"))) return r->SetString(m, f, v), true;
        if (hit(f, "appended")) return r->SetString(m, f, r->GetString(*m, f) + "z"), true;
        break;
      case FieldDescriptor::CPPTYPE_INT64:
        for (int64_t v : integers(f, r->GetInt64(*m, f), true))
          if (hit(f, mc::cat("is ", v))) return r->SetInt64(m, f, v), true;
        break;
      case FieldDescriptor::CPPTYPE_INT32:
        for (int64_t v : integers(f, r->GetInt32(*m, f), true))
          if (hit(f, mc::cat("is ", v))) return r->SetInt32(m, f, v), true;
        break;
      case FieldDescriptor::CPPTYPE_UINT64: {
        for (int64_t v : integers(f, r->GetUInt64(*m, f), true))
          if (hit(f, mc::cat("is ", v))) return r->SetUInt64(m, f, v), true;
        // Every other step.
        if (f->name().find("index") != std::string::npos)
          for (int v = 2; v < 24; ++v)
            if (hit(f, mc::cat("is ", v))) return r->SetUInt64(m, f, v), true;
        break;
      }
      case FieldDescriptor::CPPTYPE_BOOL:
        if (hit(f, "flipped")) return r->SetBool(m, f, !r->GetBool(*m, f)), true;
        break;
      case FieldDescriptor::CPPTYPE_ENUM:
        for (int v : {0, 1, 2, 77})
          if (hit(f, mc::cat("is ", v))) return r->SetEnumValue(m, f, v), true;
        break;
      default: break;
    }
  }
  // Fields that are not set, and other members of a choice.
  auto* d = m->GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (is_set.count(f) || d->full_name() == "arolla.serialization_base.ContainerProto") continue;
    if (!hit(f, "added")) continue;
    if (f->is_repeated()) {
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_STRING: r->AddString(m, f, "x"); break;
        case FieldDescriptor::CPPTYPE_INT64: r->AddInt64(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_UINT64: r->AddUInt64(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_UINT32: r->AddUInt32(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_MESSAGE: r->AddMessage(m, f); break;
        case FieldDescriptor::CPPTYPE_BOOL: r->AddBool(m, f, true); break;
        default: break;
      }
    } else {
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_STRING: r->SetString(m, f, "x"); break;
        case FieldDescriptor::CPPTYPE_INT64: r->SetInt64(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_UINT64: r->SetUInt64(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_INT32: r->SetInt32(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_BOOL: r->SetBool(m, f, true); break;
        case FieldDescriptor::CPPTYPE_MESSAGE: r->MutableMessage(m, f); break;
        case FieldDescriptor::CPPTYPE_FLOAT: r->SetFloat(m, f, 1); break;
        case FieldDescriptor::CPPTYPE_DOUBLE: r->SetDouble(m, f, 1); break;
        default: break;
      }
    }
    return true;
  }
  return false;
}
int CountFaults(const ContainerProto& c) {
  ContainerProto p = c;
  int k = 1 << 30;
  std::string what;
  Fault(&p, k, what);
  return (1 << 30) - k;
}

// A damaged encoding is either rejected or gives valid values.
void Damaged(const ContainerProto& c) {
  auto d = serialization::Decode(c);
  mc::step();
  auto loose = serialization::Decode(c, {.infer_attributes_for_operator_nodes = false});
  if (!d.ok()) return;
  MC_CHECK(loose.ok(), "cannot decode without attributes: " << loose.status().ToString());
  MC_EQ(loose->exprs.size(), d->exprs.size(), "expressions without attributes");
  std::string all;
  for (auto& v : d->values) all += v.Repr() + Elements(v);
  for (size_t i = 0; i < d->exprs.size(); ++i) {
    MC_CHECK(d->exprs[i] != nullptr, "no expression");
    MC_CHECK(Alike(loose->exprs[i], d->exprs[i]), "expression without attributes: " << ToDebugString(loose->exprs[i]) << " and " << ToDebugString(d->exprs[i]));
  }
  auto e = serialization::Encode(d->values, d->exprs);
  MC_CHECK(e.ok(), "cannot encode what was decoded: " << e.status().ToString() << "; " << all);
  auto d2 = serialization::Decode(*e);
  MC_CHECK(d2.ok(), "cannot decode again: " << d2.status().ToString() << "; " << all);
  CheckSame(*d2, d->values, d->exprs, "again");
}

void Faults(const std::string& name, const ContainerProto& c) {
  int n = CountFaults(c);
  MC_CHECK(n > 10, "no faults");
  // Executions are too small for one fault each.
  int block = mc::choose((n + 49) / 50);
  for (int k = block * 50; k < std::min(n, block * 50 + 50); ++k) {
    ContainerProto p = c;
    int left = k;
    std::string what;
    MC_CHECK(Fault(&p, left, what), "fault " << k << " of " << n);
    MC_SAY(name << ", fault " << k << ": " << what);
    Damaged(p);
  }
  mc::state(mc::cat(name, block));
}

MC_HARNESS(damaged_value) {
  static const auto* ks = new std::vector<Item>(Kinds());
  auto& i = mc::pick(mc::tier(0, 1) ? Items() : *ks);
  Faults(i.name, MustEncode({i.v}, {}));
}

MC_HARNESS(damaged_expression) {
  auto& e = mc::pick(Exprs());
  Faults(e.name, MustEncode({}, {e.e}));
}

// Two faults of small encodings.
MC_HARNESS(damaged_twice) {
  static const auto* cs = [] {
    auto* r = new std::vector<std::pair<std::string, ContainerProto>>;
    auto d = CreateDenseArray<Text>({Text("ab"), std::nullopt, Text("c")});
    r->emplace_back("dense text", *serialization::Encode({TypedValue::FromValue(d)}, {}));
    r->emplace_back("dense int", *serialization::Encode({TypedValue::FromValue(CreateDenseArray<int32_t>({1, std::nullopt}))}, {}));
    r->emplace_back("tuple", *serialization::Encode({MakeTupleFromFields(1.f, 2)}, {}));
    r->emplace_back("expression", *serialization::Encode({}, {*CallOp("math.add", {Leaf("x"), Literal(1.f)})}));
    r->emplace_back("sparse", *serialization::Encode({TypedValue::FromValue(Array<float>(20, IdFilter(20, CreateFullDenseArray<int64_t>({3, 7}).values), CreateDenseArray<float>({1.f, std::nullopt}), 5.f))}, {}));
    r->emplace_back("mapping", *serialization::Encode({TypedValue::FromValue(*DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>({1, 0}), 2))}, {}));
    r->emplace_back("split points", *serialization::Encode({TypedValue::FromValue(*DenseArrayEdge::FromSplitPoints(CreateDenseArray<int64_t>({0, 2, 3})))}, {}));
    return r;
  }();
  static const auto* faults = [] {
    auto* r = new std::vector<std::pair<int, int>>;
    for (size_t i = 0; i < cs->size(); ++i)
      for (int k = 0, n = CountFaults((*cs)[i].second); k < n; k += mc::tier(2, 1)) r->emplace_back(i, k);
    return r;
  }();
  auto [which, a] = mc::pick(*faults);
  auto& [name, c] = (*cs)[which];
  ContainerProto p = c;
  int left = a;
  std::string what;
  Fault(&p, left, what);
  MC_SAY(name << ": " << what);
  int m = CountFaults(p);
  for (int k = 0; k < m; ++k) {
    ContainerProto q = p;
    left = k;
    Fault(&q, left, what);
    MC_SAY(name << ", second fault " << what);
    Damaged(q);
  }
  mc::state(mc::cat(name, a));
}

}  // namespace

MC_MAIN()
