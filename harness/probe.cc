#include <cstdio>
#include "arolla/util/init_arolla.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/eval/invoke.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/typed_value.h"
int main() {
  arolla::InitArolla();
  using namespace arolla::expr;
  auto e = CallOp("math.add", {Literal<float>(1), Leaf("x")});
  if (!e.ok()) { printf("%s\n", e.status().ToString().c_str()); return 1; }
  auto r = Invoke(*e, {{"x", arolla::TypedValue::FromValue<float>(2)}});
  printf("%s\n", r.ok() ? r->Repr().c_str() : r.status().ToString().c_str());
}
