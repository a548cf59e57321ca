// Loads the committed snapshot of the standard operator package, as the
// generated embedding library does.
#include "verif_paths.h"
#include <fstream>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/strings/match.h"
#include "arolla/expr/backend_wrapping_operator.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/proto/serialization_base.pb.h"
#include "arolla/serialization_codecs/generic/operator_codec.pb.h"
#include "arolla/codegen/operator_package/operator_package.h"
#include "arolla/codegen/operator_package/operator_package.pb.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/util/status.h"
#include "arolla/util/init_arolla.h"
namespace {

using arolla::serialization_base::ContainerProto;
using arolla::serialization_base::DecodingStepProto;

// Overload conditions of the snapshot use the leaf `input_tuple_qtype`, which
// has been replaced since by `input_qtype_sequence`.
void Modernize(ContainerProto* c) {
  for (int p = 0; p < c->decoding_steps_size(); ++p) {
    if (c->decoding_steps(p).leaf_node().leaf_key() != "input_tuple_qtype") continue;
    int codec = -1;
    for (int i = 0; i < p; ++i)
      if (absl::StrContains(c->decoding_steps(i).codec().name(), "OperatorV1Proto")) codec = i;
    if (codec < 0) return;
    ContainerProto n;
    n.set_version(c->version());
    auto fix = [&](uint64_t i) { return i >= (uint64_t)p ? i + 2 : i; };
    auto fix_all = [&](auto* list) { for (auto& i : *list) i = fix(i); };
    for (int i = 0; i < c->decoding_steps_size(); ++i) {
      DecodingStepProto s = c->decoding_steps(i);
      s.clear_decoder_hints();
      if (i == p) {
        auto* op = n.add_decoding_steps()->mutable_value();
        op->set_codec_index(codec);
        op->MutableExtension(arolla::serialization_codecs::OperatorV1Proto::extension)->set_registered_operator_name("verif.make_tuple_qtype");
        n.add_decoding_steps()->mutable_leaf_node()->set_leaf_key("input_qtype_sequence");
        s.mutable_operator_node()->set_operator_value_index(p);
        s.mutable_operator_node()->add_input_expr_indices(p + 1);
      } else if (s.has_literal_node()) {
        s.mutable_literal_node()->set_literal_value_index(fix(s.literal_node().literal_value_index()));
      } else if (s.has_operator_node()) {
        s.mutable_operator_node()->set_operator_value_index(fix(s.operator_node().operator_value_index()));
        fix_all(s.mutable_operator_node()->mutable_input_expr_indices());
      } else if (s.has_value()) {
        if (s.value().has_codec_index()) s.mutable_value()->set_codec_index(fix(s.value().codec_index()));
        fix_all(s.mutable_value()->mutable_input_value_indices());
        fix_all(s.mutable_value()->mutable_input_expr_indices());
      } else if (s.type_case() == DecodingStepProto::kOutputValueIndex) {
        s.set_output_value_index(fix(s.output_value_index()));
      } else if (s.type_case() == DecodingStepProto::kOutputExprIndex) {
        s.set_output_expr_index(fix(s.output_expr_index()));
      }
      *n.add_decoding_steps() = s;
    }
    *c = std::move(n);
    p += 2;
  }
}

std::string mc_case_name(const std::string& name, size_t pos) { return name.substr(0, pos) + "." + name.substr(pos + 2) + "_case"; }

absl::Status run() {
  std::ifstream f(std::string(VERIF_SRC) + "/arolla/expr/operators/all/standard.operator_package.pb2.snapshot", std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  arolla::operator_package::OperatorPackageProto proto;
  if (!proto.ParseFromString(ss.str())) return absl::InternalError("cannot parse the operator package");
  // The snapshot is older than a few operators that are defined in C++ now.
  auto* registry = arolla::expr::ExprOperatorRegistry::GetInstance();
  {
    auto op = std::make_shared<arolla::expr::BackendWrappingOperator>(
        "qtype.make_tuple_qtype", arolla::expr::ExprOperatorSignature{{"field_qtypes"}},
        [](absl::Span<const arolla::QTypePtr>) -> absl::StatusOr<arolla::QTypePtr> { return arolla::GetQTypeQType(); });
    auto st = registry->Register("verif.make_tuple_qtype", op);
    if (!st.ok()) return st.status();
  }
  int bad = 0;
  auto load = [&](std::string name, const ContainerProto& implementation) {
    if (registry->LookupOperatorOrNull(name) != nullptr) return;
    arolla::operator_package::OperatorPackageProto one;
    one.set_version(1);
    auto* o = one.add_operators();
    o->set_registration_name(name);
    *o->mutable_implementation() = implementation;
    auto st = arolla::operator_package::LoadOperatorPackageProto(one);
    if (!st.ok()) {
      bad++;
      if (getenv("VERIF_STD_DEBUG")) {
        fprintf(stderr, "%s: %s\n", name.c_str(), std::string(st.message()).c_str());
        for (const absl::Status* c = arolla::GetCause(st); c; c = arolla::GetCause(*c)) fprintf(stderr, "  cause %s\n", std::string(c->message()).c_str());
      }
    }
  };
  for (const auto& op : proto.operators()) {
    ContainerProto c = op.implementation();
    Modernize(&c);
    // A case of a generic operator, `x._y`: `x.y_case` now; `x._y` is the backend operator itself.
    const std::string& name = op.registration_name();
    auto pos = name.find("._");
    int last = c.decoding_steps_size() - 2;
    if (pos != std::string::npos && last > 0 && c.decoding_steps(last).value().GetExtension(arolla::serialization_codecs::OperatorV1Proto::extension).has_generic_operator_overload()) {
      int base = c.decoding_steps(last).value().input_value_indices(0);
      if (c.decoding_steps(base).value().GetExtension(arolla::serialization_codecs::OperatorV1Proto::extension).has_backend_operator()) {
        ContainerProto b;
        b.set_version(c.version());
        for (int i = 0; i <= base; ++i) {
          *b.add_decoding_steps() = c.decoding_steps(i);
          b.mutable_decoding_steps(i)->clear_decoder_hints();
        }
        b.add_decoding_steps()->set_output_value_index(base);
        load(name, b);
      }
      std::string spec;
      for (int b = base;;) {
        const auto& v = c.decoding_steps(b).value().GetExtension(arolla::serialization_codecs::OperatorV1Proto::extension);
        if (v.has_lambda_operator()) spec = v.lambda_operator().signature_spec();
        else if (v.has_backend_operator()) spec = v.backend_operator().signature_spec();
        else if (c.decoding_steps(b).value().input_value_indices_size() > 0) { b = c.decoding_steps(b).value().input_value_indices(0); continue; }
        break;
      }
      auto* o = c.mutable_decoding_steps(last)->mutable_value()->MutableExtension(arolla::serialization_codecs::OperatorV1Proto::extension)->mutable_generic_operator_overload();
      o->set_name(name);
      o->set_signature_spec(spec);
      if (name.substr(0, pos) != "core.has") load(mc_case_name(name, pos), c);
      continue;
    }
    load(name, c);
  }
  if (getenv("VERIF_STD_DEBUG")) fprintf(stderr, "%d of %d operators not loaded\n", bad, proto.operators_size());
  return absl::OkStatus();
}
AROLLA_INITIALIZER(
    .name = "arolla_operators/standard:operator_package",
    .deps = {arolla::initializer_dep::kQExprOperators, arolla::initializer_dep::kQTypes,
             arolla::initializer_dep::kS11n, "arolla_operators/standard:bootstrap"},
    .reverse_deps = {arolla::initializer_dep::kOperators}, .init_fn = &run)
}  // namespace
