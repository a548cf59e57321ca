// Registration of generated accessors, loaders and listeners in a type-erased form, with printable results.
#ifndef VERIF_IO_CHECK_H_
#define VERIF_IO_CHECK_H_

#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/status/status.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/proto_types/types.h"
#include "arolla/io/slot_listener.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/bytes.h"
#include "arolla/util/map.h"
#include "arolla/util/meta.h"
#include "arolla/util/text.h"
#include "vp_test.pb.h"
#include "vp_test3.pb.h"

namespace vpc {

// A native structure with a message member, a pointer to a message and a plain member.
struct S {
  ::vp::M m;
  ::vp::M* p = nullptr;
  int x = 0;
};
using V = std::vector<::vp::M>;

enum Root { kM, kP3, kS, kV };
template <class T>
constexpr Root root_of() {
  if constexpr (std::is_same_v<T, ::vp::M>) return kM;
  else if constexpr (std::is_same_v<T, ::vp::P3>) return kP3;
  else if constexpr (std::is_same_v<T, S>) return kS;
  else return kV;
}

// ------------------------------------------------------------------ printing
inline std::string show_num(const char* t, double d) { return absl::StrFormat("%s:%.17g", t, d); }
inline std::string show(int32_t x) { return "i32:" + std::to_string(x); }
inline std::string show(int64_t x) { return "i64:" + std::to_string(x); }
inline std::string show(uint64_t x) { return "u64:" + std::to_string(x); }
inline std::string show(float x) { return show_num("f32", x); }
inline std::string show(double x) { return show_num("f64", x); }
inline std::string show(bool x) { return x ? "bool:1" : "bool:0"; }
inline std::string show(const ::arolla::Bytes& x) { return "bytes:" + std::string(x); }
inline std::string show(const ::arolla::Text& x) { return "text:" + std::string(absl::string_view(x)); }
inline std::string show(const ::arolla::DenseArrayShape& x) { return "shape:" + std::to_string(x.size); }
template <class T>
std::string tag() {
  std::string s = show(T());
  return s.substr(0, s.find(':'));
}
template <class T>
std::string show(const ::arolla::OptionalValue<T>& x) {
  return "opt<" + (x.present ? tag<T>() + ">" + show(T(x.value)) : tag<T>() + ">-");
}
template <class T>
std::string show(const ::arolla::DenseArray<T>& x) {
  std::string s = "arr<" + tag<T>() + ">[";
  for (int64_t i = 0; i < x.size(); ++i) s += (x.present(i) ? show(T(x.values[i])) : std::string("-")) + ",";
  return s + "]";
}

// Value number v of a type: 0 is the default value of the type.
template <class T>
T value(int v) {
  if constexpr (std::is_same_v<T, ::arolla::Bytes> || std::is_same_v<T, ::arolla::Text>) {
    return T(v == 0 ? "" : v == 1 ? "ab" : "z" + std::to_string(v));
  } else if constexpr (std::is_same_v<T, bool>) {
    return v % 2 != 0;
  } else {
    return static_cast<T>(v == 0 ? 0 : v == 1 ? 1 : 3 + v);
  }
}

struct ReadEntry {
  Root root;
  std::string path, cpp, name;
  bool has_default;
  std::function<std::string(const void*, const void*)> run;  // (dirty input, input)
};
struct WildEntry {
  std::string path, name;
  std::function<std::string(const void*, const void*, absl::string_view)> run;
};
using Items = std::vector<std::optional<int>>;
struct MutEntry {
  Root root;
  std::string path, cpp;
  std::string type;  // canonical name of the input type
  std::function<absl::Status(const Items&, void*)> run;
};
inline std::vector<ReadEntry>& reads() { static std::vector<ReadEntry> v; return v; }
inline std::vector<WildEntry>& wilds() { static std::vector<WildEntry> v; return v; }
inline std::vector<MutEntry>& muts() { static std::vector<MutEntry> v; return v; }

template <class In, class L>
void add_read(const char* path, const char* cpp, const char* name, bool has_default, L lambda) {
  using Res = ::arolla::InputLoaderAccessorResultType<L, In>;
  reads().push_back({root_of<In>(), path, cpp, name, has_default, [lambda](const void* dirty, const void* in) {
                       Res res{};
                       auto* f = ::arolla::GetHeapBufferFactory();
                       if (dirty) ::arolla::InvokeInputLoaderAccessor(lambda, *static_cast<const In*>(dirty), f, &res);
                       ::arolla::InvokeInputLoaderAccessor(lambda, *static_cast<const In*>(in), f, &res);
                       return show(res);
                     }});
}

template <class In, class L>
void add_wild(const char* path, const char* name, L lambda) {
  using Res = ::arolla::WildcardAccessorResultType<L, In, std::string>;
  wilds().push_back({path, name, [lambda](const void* dirty, const void* in, absl::string_view key) {
                       Res res{};
                       auto* f = ::arolla::GetHeapBufferFactory();
                       for (const void* x : {dirty, in}) {
                         if (!x) continue;
                         const In& input = *static_cast<const In*>(x);
                         if constexpr (std::is_invocable_v<const L&, const In&, absl::string_view, ::arolla::RawBufferFactory*, Res*>) {
                           lambda(input, key, f, &res);
                         } else if constexpr (std::is_invocable_v<const L&, const In&, absl::string_view, Res*>) {
                           lambda(input, key, &res);
                         } else {
                           res = lambda(input, key, f);
                         }
                       }
                       return show(res);
                     }});
}

template <class T>
struct MakeIn;
template <class T>
struct MakeIn<::arolla::OptionalValue<T>> {
  static ::arolla::OptionalValue<T> make(const Items& it) {
    return it[0] ? ::arolla::OptionalValue<T>(value<T>(*it[0])) : ::arolla::OptionalValue<T>();
  }
  static std::string name() { return "opt<" + tag<T>() + ">"; }
};
template <class T>
struct MakeIn<::arolla::DenseArray<T>> {
  static ::arolla::DenseArray<T> make(const Items& it) {
    std::vector<::arolla::OptionalValue<T>> v;
    for (auto& i : it) v.push_back(i ? ::arolla::OptionalValue<T>(value<T>(*i)) : ::arolla::OptionalValue<T>());
    return ::arolla::CreateDenseArray<T>(v);
  }
  static std::string name() { return "arr<" + tag<T>() + ">"; }
};
template <>
struct MakeIn<::arolla::DenseArrayShape> {
  static ::arolla::DenseArrayShape make(const Items& it) { return {*it[0]}; }
  static std::string name() { return "shape"; }
};

template <class Out, class F>
void add_mut(const char* path, const char* cpp, F factory) {
  auto fn = factory(std::decay<Out>());
  using In = std::decay_t<::arolla::meta::head_t<typename ::arolla::meta::function_traits<decltype(fn)>::arg_types>>;
  using Ret = typename ::arolla::meta::function_traits<decltype(fn)>::return_type;
  muts().push_back({root_of<Out>(), path, cpp, MakeIn<In>::name(), [fn](const Items& it, void* out) -> absl::Status {
                      if constexpr (std::is_same_v<Ret, absl::Status>) {
                        return fn(MakeIn<In>::make(it), static_cast<Out*>(out));
                      } else {
                        fn(MakeIn<In>::make(it), static_cast<Out*>(out));
                        return absl::OkStatus();
                      }
                    }});
}

// ------------------------------------------------- loaders and listeners
struct Column {
  std::string name, path, cpp;
  bool has_default;
};
// Frame with a slot for every column, loaded through the named columns.
struct LoaderEntry {
  std::string name;
  Root root;
  std::vector<Column> cols;
  std::shared_ptr<const ::arolla::InputLoaderBase> loader;
  // Binds the given slots and loads the inputs one after the other.
  std::function<absl::Status(const absl::flat_hash_map<std::string, ::arolla::TypedSlot>&, const std::vector<const void*>&, ::arolla::FramePtr)> run;
};
struct ListenerEntry {
  std::string name;
  Root root;
  std::vector<Column> cols;
  std::shared_ptr<const ::arolla::SlotListenerBase> listener;
  std::function<absl::Status(const absl::flat_hash_map<std::string, ::arolla::TypedSlot>&, ::arolla::ConstFramePtr, void*)> run;
};
inline std::map<std::string, LoaderEntry>& loaders() { static std::map<std::string, LoaderEntry> v; return v; }
inline std::map<std::string, ListenerEntry>& listeners() { static std::map<std::string, ListenerEntry> v; return v; }

inline void LA(const char* set, const char* name, const char* path, const char* cpp, bool has_default) {
  loaders()[set].cols.push_back({name, path, cpp, has_default});
}
inline void NA(const char* set, const char* name, const char* path, const char* cpp, bool has_default) {
  listeners()[set].cols.push_back({name, path, cpp, has_default});
}
template <class In>
void L(const char* set, std::unique_ptr<::arolla::InputLoader<In>> owned) {
  std::shared_ptr<const ::arolla::InputLoader<In>> loader = std::move(owned);
  auto& e = loaders()[set];
  e.name = set;
  e.root = root_of<In>();
  e.loader = loader;
  e.run = [loader](const auto& slots, const auto& inputs, ::arolla::FramePtr frame) -> absl::Status {
    auto bound = loader->Bind(slots);
    if (!bound.ok()) return bound.status();
    for (const void* in : inputs) {
      auto st = (*bound)(*static_cast<const In*>(in), frame);
      if (!st.ok()) return st;
    }
    return absl::OkStatus();
  };
}
template <class Out>
void N(const char* set, std::unique_ptr<::arolla::SlotListener<Out>> owned) {
  std::shared_ptr<const ::arolla::SlotListener<Out>> listener = std::move(owned);
  auto& e = listeners()[set];
  e.name = set;
  e.root = root_of<Out>();
  e.listener = listener;
  e.run = [listener](const auto& slots, ::arolla::ConstFramePtr frame, void* out) -> absl::Status {
    auto bound = listener->Bind(slots);
    if (!bound.ok()) return bound.status();
    return (*bound)(frame, static_cast<Out*>(out));
  };
}

}  // namespace vpc

#endif  // VERIF_IO_CHECK_H_
