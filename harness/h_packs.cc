// Packs of (name, accessor) pairs.
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "arolla/io/accessor_helpers.h"
#include "mc.h"

namespace {

using arolla::accessor_helpers_impl::ConvertNameAccessorsPackToNestedTuple;

struct In {
  int v;
};

// Names: how the I-th name is passed. Storage lives only during the conversion.
const char* const kTexts[] = {"a", "", "b/c", "a"};
std::string g_texts[4];

template <int Kind>
auto MakeName(int i) {
  if constexpr (Kind == 0) {
    return static_cast<const char*>(g_texts[i].c_str());
  } else if constexpr (Kind == 1) {
    return g_texts[i];
  } else {
    return std::string_view(g_texts[i]);
  }
}

struct Functor {
  int mul;
  int operator()(const In& s) const { return s.v * mul; }
};
struct RefFunctor {
  const int& operator()(const In& s) const { return s.v; }
};
template <int I>
int Function(const In& s) {
  return s.v + 1000 * (I + 1);
}
struct Setter {
  std::shared_ptr<int> out;
  void operator()(int x, In* s) const { s->v = x + *out; }
};

template <int Kind, int I>
auto MakeAccessor() {
  if constexpr (Kind == 0) {
    return [](const In& s) { return s.v + I; };
  } else if constexpr (Kind == 1) {
    return [k = std::string(I + 20, 'x')](const In& s) { return s.v + static_cast<int>(k.size()) * 100; };
  } else if constexpr (Kind == 2) {
    return Functor{I + 2};
  } else if constexpr (Kind == 3) {
    return &Function<I>;
  } else if constexpr (Kind == 4) {
    return RefFunctor{};
  } else {
    return std::function<int(const In&)>(Functor{I + 7});
  }
}

template <int Kind, int I>
int Want(int v) {
  switch (Kind) {
    case 0: return v + I;
    case 1: return v + (I + 20) * 100;
    case 2: return v * (I + 2);
    case 3: return v + 1000 * (I + 1);
    case 4: return v;
    default: return v * (I + 7);
  }
}

constexpr int kNames = 3, kAccessors = 6;

// Slot code: name kind + kNames * accessor kind.
template <int I, int Code, class Tuple>
void CheckOne(const Tuple& t, const std::string* names, int v) {
  using P = std::tuple_element_t<I, Tuple>;
  constexpr int kind = Code / kNames;
  using A = decltype(MakeAccessor<kind, I>());
  static_assert(std::is_same_v<typename P::first_type, std::string>);
  static_assert(std::is_same_v<typename P::second_type, A>);
  const P& p = std::get<I>(t);
  MC_EQ(p.first, names[I], "name of pair " << I);
  const In field{v};
  MC_EQ(p.second(field), (Want<kind, I>(v)), "value of accessor " << I);
  if constexpr (kind == 4) {
    In in{v};
    MC_CHECK(&p.second(in) == &in.v, "accessor " << I << " no longer returns a reference to the field");
  }
  mc::step();
}

template <int... Codes, size_t... Is>
void RunPack(std::index_sequence<Is...>) {
  std::string names[5];
  for (size_t i = 0; i < sizeof...(Codes); ++i) names[i] = g_texts[i];
  const bool lvalues = mc::flag();
  // The pack alternates names and accessors.
  using Pack = decltype(std::tuple_cat(std::make_tuple(MakeName<Codes % kNames>(Is), MakeAccessor<Codes / kNames, Is>())...));
  auto pack = std::make_unique<Pack>(std::tuple_cat(std::make_tuple(MakeName<Codes % kNames>(Is), MakeAccessor<Codes / kNames, Is>())...));
  auto convert = [&](auto&&... xs) { return ConvertNameAccessorsPackToNestedTuple(std::forward<decltype(xs)>(xs)...); };
  auto t = [&] {
    if (lvalues) {
      return std::apply(convert, *pack);
    }
    return std::apply(convert, std::move(*pack));
  }();
  static_assert(std::tuple_size_v<decltype(t)> == sizeof...(Codes));
  // The result must not refer to the arguments.
  pack.reset();
  for (auto& s : g_texts) {
    s.assign(s.size(), '#');
    s = std::string(40, '#');
  }
  for (int v : {0, 5, -3}) {
    (CheckOne<Is, Codes>(t, names, v), ...);
  }
  auto copy = t;
  (CheckOne<Is, Codes>(copy, names, 9), ...);
}

template <int... Codes>
void Run() {
  RunPack<Codes...>(std::make_index_sequence<sizeof...(Codes)>());
}

using Fn = void (*)();

template <int Base, size_t... Is>
constexpr std::array<Fn, sizeof...(Is)> Table1(std::index_sequence<Is...>) {
  return {&Run<static_cast<int>(Is)>...};
}
constexpr int kSome[] = {0, 4, 8, 11, 13};
template <size_t... Is>
constexpr std::array<Fn, sizeof...(Is)> Table2(std::index_sequence<Is...>) {
  return {(Is % 2 ? &Run<static_cast<int>(Is) / 10, kSome[Is / 2 % 5]> : &Run<kSome[Is / 2 % 5], static_cast<int>(Is) / 10>)...};
}
template <size_t... Is>
constexpr std::array<Fn, sizeof...(Is)> Table3(std::index_sequence<Is...>) {
  return {&Run<kSome[Is / 9], kSome[1 + Is / 3 % 3], kSome[2 + Is % 3]>...};
}
template <size_t... Is>
constexpr std::array<Fn, sizeof...(Is)> Table4(std::index_sequence<Is...>) {
  return {&Run<kSome[Is / 8], kSome[Is / 4 % 2 + 1], kSome[Is / 2 % 2 + 2], kSome[Is % 2 + 3]>...};
}

// Name texts: long ones are on the heap, equal names are legal here.
void ChooseTexts(int n) {
  static const std::string kAll[] = {"a", "", std::string("q\0z", 3), std::string(60, 'n')};
  for (int i = 0; i < n; ++i) g_texts[i] = kAll[mc::choose(4)];
}

MC_HARNESS(empty) {
  auto t = ConvertNameAccessorsPackToNestedTuple();
  static_assert(std::is_same_v<decltype(t), std::tuple<>>);
  mc::choose(1);
  mc::state("empty");
}

void RunTable(const Fn* table, int size, int n, bool text_choice) {
  int k = mc::choose(size);
  if (text_choice) {
    ChooseTexts(n);
  } else {
    for (int i = 0; i < n; ++i) g_texts[i] = kTexts[i] + std::string(i * 9, 'n');
  }
  std::string names;
  for (int i = 0; i < n; ++i) names += g_texts[i] + "|";
  MC_SAY("pack " << k << " of " << n << " pairs, names " << names);
  mc::state(mc::cat(n, ":", k, ":", names));
  table[k]();
}

MC_HARNESS(pack1) {
  static constexpr auto t = Table1<0>(std::make_index_sequence<18>());
  int k = mc::choose(18);
  ChooseTexts(1);
  if (k % kNames == 0) g_texts[0] = g_texts[0].c_str();
  MC_SAY("pack " << k << " name " << g_texts[0]);
  mc::state(mc::cat(k, g_texts[0]));
  t[k]();
}
MC_HARNESS(pack2) {
  static constexpr auto t = Table2(std::make_index_sequence<180>());
  int k = mc::choose(180);
  ChooseTexts(2);
  int c1 = k / 10, c2 = kSome[k / 2 % 5];
  if (k % 2 == 0) std::swap(c1, c2);
  if (c1 % kNames == 0) g_texts[0] = g_texts[0].c_str();
  if (c2 % kNames == 0) g_texts[1] = g_texts[1].c_str();
  MC_SAY("pack " << k << " names " << g_texts[0] << " " << g_texts[1]);
  mc::state(mc::cat(k, g_texts[0], "|", g_texts[1]));
  t[k]();
}
MC_HARNESS(pack3) {
  static constexpr auto t = Table3(std::make_index_sequence<27>());
  RunTable(t.data(), 27, 3, false);
}
MC_HARNESS(pack4) {
  static constexpr auto t = Table4(std::make_index_sequence<16>());
  RunTable(t.data(), 16, 4, false);
}

// Longer packs of one kind of pair; the passed variables change afterwards.
template <size_t N>
void Long() {
  std::array<std::string, N> names;
  std::array<Functor, N> fns;
  for (size_t i = 0; i < N; ++i) names[i] = std::string(i * 3, 'n') + std::to_string(i), fns[i] = Functor{(int)i + 2};
  auto t = [&]<size_t... I>(std::index_sequence<I...>) {
    auto args = std::tuple_cat(std::tie(names[I], fns[I])...);
    return std::apply([](auto&... a) { return ConvertNameAccessorsPackToNestedTuple(a...); }, args);
  }(std::make_index_sequence<N>());
  static_assert(std::tuple_size_v<decltype(t)> == N);
  for (size_t i = 0; i < N; ++i) {
    MC_EQ(names[i], std::string(i * 3, 'n') + std::to_string(i), "the caller's name");
    MC_EQ(fns[i].mul, (int)i + 2, "the caller's accessor");
    names[i] = "changed";
    fns[i].mul = -1;
  }
  [&]<size_t... I>(std::index_sequence<I...>) {
    auto one = [&](size_t i, const std::pair<std::string, Functor>& p) {
      MC_EQ(p.first, std::string(i * 3, 'n') + std::to_string(i), "name " << i << " of " << N);
      MC_EQ(p.second(In{7}), 7 * ((int)i + 2), "accessor " << i << " of " << N);
      mc::step();
    };
    (one(I, std::get<I>(t)), ...);
  }(std::make_index_sequence<N>());
}
MC_HARNESS(long_packs) {
  static constexpr Fn t[] = {&Long<1>, &Long<2>, &Long<3>, &Long<4>, &Long<5>, &Long<6>, &Long<7>, &Long<8>, &Long<9>, &Long<10>, &Long<12>, &Long<16>, &Long<17>};
  int k = mc::choose(13);
  mc::state(mc::cat("long", k));
  t[k]();
}

// Accessors with two arguments (setters) share their state.
MC_HARNESS(setters) {
  auto x = std::make_shared<int>(mc::choose(3));
  Setter s{x};
  auto t = ConvertNameAccessorsPackToNestedTuple("s", s, "t", [x](int v, In* in) { in->v = v - *x; }, "g", RefFunctor{});
  MC_EQ(x.use_count(), 4, "copies of the accessors' state");
  *x += 10;
  In in{0};
  std::get<0>(t).second(5, &in);
  MC_EQ(in.v, 5 + *x, "first setter");
  std::get<1>(t).second(5, &in);
  MC_EQ(in.v, 5 - *x, "second setter");
  MC_EQ(std::get<2>(t).second(in), in.v, "getter");
  mc::state(mc::cat(*x));
}

}  // namespace

MC_MAIN()
