// Ordered search and index iteration against linear scans.
#include <iterator>
#include <list>
#include <forward_list>
#include <map>
#include <unordered_map>

#include "arolla/util/algorithms.h"
#include "arolla/util/binary_search.h"
#include "arolla/util/iterator.h"
#include "arolla/util/map.h"
#include "arolla/util/switch_index.h"
#include "mc.h"
#include "absl/container/flat_hash_map.h"

namespace {

template <class T>
size_t linear_lower(const std::vector<T>& v, T x) {
  size_t i = 0;
  while (i < v.size() && v[i] < x) ++i;
  return i;
}
template <class T>
size_t linear_upper(const std::vector<T>& v, T x) {
  size_t i = 0;
  while (i < v.size() && v[i] <= x) ++i;
  return i;
}

template <class T>
void searches(const std::vector<T>& v, T x) {
  std::string what = mc::show(x) + " in " + mc::show(v);
  size_t lo = linear_lower(v, x), up = linear_upper(v, x);
  mc::step(4);
  MC_EQ(arolla::LowerBound(x, absl::Span<const T>(v)), lo, what);
  MC_EQ(arolla::UpperBound(x, absl::Span<const T>(v)), up, what);
  MC_EQ((size_t)(arolla::exp_lower_bound(v.begin(), v.end(), x) - v.begin()), lo, what);
  MC_EQ((size_t)(arolla::GallopingLowerBound(v.begin(), v.end(), x) - v.begin()), lo, what);
}

// Every non-decreasing array of `n` values over {0,2,4}: only the two change
// points matter.  Probes between and beyond the values.
template <class T>
void sorted_body() {
  int n = mc::choose(mc::tier(35, 140));
  int i = mc::choose(n + 1);
  for (int j = i; j <= n; ++j) {
    std::vector<T> v(n);
    for (int k = 0; k < n; ++k) v[k] = k < i ? T(0) : k < j ? T(2) : T(4);
    v.shrink_to_fit();
    mc::state(mc::mix(mc::mix(n, i), mc::mix(j, sizeof(T))));
    for (int x = -1; x <= 5; ++x) searches<T>(v, T(x));
  }
  MC_SAY("search in sorted arrays of size " << n << " with first change at " << i);
}

// Strictly increasing arrays: every position and every gap.
template <class T>
void strict_body() {
  int n = mc::choose(mc::tier(140, 600));
  MC_SAY("search in 0,2,4..., size " << n);
  std::vector<T> v(n);
  for (int k = 0; k < n; ++k) v[k] = T(2 * k);
  mc::state(mc::mix(n, sizeof(T)) + 5);
  for (int x = -1; x <= 2 * n; ++x) {
    size_t lo = x <= 0 ? 0 : std::min<size_t>(n, (x + 1) / 2), up = x < 0 ? 0 : std::min<size_t>(n, x / 2 + 1);
    mc::step(4);
    absl::Span<const T> s(v);
    MC_EQ(arolla::LowerBound(T(x), s), lo, x << " size " << n);
    MC_EQ(arolla::UpperBound(T(x), s), up, x << " size " << n);
    MC_EQ((size_t)(arolla::exp_lower_bound(v.begin(), v.end(), T(x)) - v.begin()), lo, x << " size " << n);
    MC_EQ((size_t)(arolla::GallopingLowerBound(v.begin(), v.end(), T(x)) - v.begin()), lo, x << " size " << n);
  }
}

// Extreme and special values.
template <class T>
void special_body() {
  using L = std::numeric_limits<T>;
  std::vector<T> pool = {L::lowest(), L::lowest() + 1, T(-1), T(0), T(1), L::max()};
  std::vector<T> probes = pool;
  probes.push_back(T(2));
  probes.push_back(L::max() - 1);
  if constexpr (!L::is_integer) {
    pool = {-L::infinity(), L::lowest(), T(-1), T(0), L::denorm_min(), L::max(), L::infinity()};
    probes = pool;
    probes.push_back(-L::denorm_min());
    probes.push_back(-T(0.0));
  }
  std::vector<T> v;
  for (T x : pool) for (int c = mc::choose(3); c > 0; --c) v.push_back(x);
  mc::state(mc::show(v) + std::to_string(sizeof(T)));
  for (T x : probes) searches<T>(v, x);
  if constexpr (!L::is_integer) {
    // NaN compares false with everything: nothing is less than it, and every
    // element counts as not greater.
    mc::step(2);
    T nan = L::quiet_NaN();
    MC_EQ(arolla::LowerBound(nan, absl::Span<const T>(v)), (size_t)0, "NaN in " << mc::show(v));
    MC_EQ(arolla::UpperBound(nan, absl::Span<const T>(v)), v.size(), "NaN in " << mc::show(v));
  }
  MC_SAY("boundary values: " << mc::show(v));
}

// A partition predicate that is not `<`, and iterators weaker than random
// access.
void comparator_body() {
  int n = mc::choose(40), p = mc::choose(n + 1);
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i;
  std::list<int> l(v.begin(), v.end());
  std::forward_list<int> f(v.begin(), v.end());
  mc::state(mc::mix(n, p) + 11);
  int calls = 0;
  auto cmp = [&](int a, int b) { ++calls; return a < b; };
  auto desc = [](int a, int b) { return a > b; };
  std::vector<int> r(v.rbegin(), v.rend());
  mc::step(4);
  MC_EQ((int)(arolla::exp_lower_bound(v.begin(), v.end(), p, cmp) - v.begin()), p, "size " << n);
  MC_EQ((int)std::distance(l.begin(), arolla::exp_lower_bound(l.begin(), l.end(), p, cmp)), p, "list size " << n);
  MC_EQ((int)std::distance(f.begin(), arolla::exp_lower_bound(f.begin(), f.end(), p, cmp)), p, "forward list size " << n);
  MC_EQ((int)(arolla::exp_lower_bound(r.begin(), r.end(), p, desc) - r.begin()), p == n ? 0 : n - 1 - p, "descending size " << n << " value " << p);
  // Sub-ranges: the search stays inside [first, last).
  for (int a = 0; a <= std::min(n, 6); ++a) {
    for (int b = std::max(a, n - 6); b <= n; ++b) {
      mc::step();
      MC_EQ((int)(arolla::exp_lower_bound(v.begin() + a, v.begin() + b, p) - v.begin()), std::clamp(p, a, b), "[" << a << "," << b << ") of size " << n);
    }
  }
  // Duplicate keys of another type: first of the equal run.
  std::vector<int> d;
  for (int i = 0; i < n; ++i) d.push_back(i / 3);
  for (long x = -1; x <= n / 3 + 1; ++x) {
    mc::step();
    int want = 0;
    while (want < n && d[want] < x) ++want;
    MC_EQ((int)(arolla::exp_lower_bound(d.begin(), d.end(), x) - d.begin()), want, x << " in triples, size " << n);
  }
  MC_SAY("partition point " << p << " of " << n);
}

struct Squares {  // values produced on the fly
  using value_type = int;
  using size_type = uint64_t;
  using difference_type = int64_t;
  int n;
  int operator[](size_type i) const { return (int)(i * i); }
  size_type size() const { return n; }
};
struct Items {  // values by reference
  struct V { int x; };
  using value_type = V;
  using size_type = uint32_t;
  using difference_type = int32_t;
  std::vector<V> v;
  const V& operator[](size_type i) const { return v[i]; }
};

// Every sequence of moves on an iterator agrees with index arithmetic.
template <class A>
void iterator_body(const A& arr, int n, auto get) {
  using It = arolla::ConstArrayIterator<A>;
  static_assert(std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>);
  It begin(&arr, 0), end(&arr, n);
  int pos = 0;
  It it = begin;
  std::string hist = "begin";
  int depth = mc::tier(3, 5);
  for (int k = 0; k < depth; ++k) {
    static const char* names[] = {"++it", "it++", "--it", "it--", "+=", "-=", "it+n", "n+it", "it-n"};
    int op = mc::choose(9);
    int target;
    if (op < 2) {
      if (pos + 1 > n) mc::abandon();
      target = pos + 1;
    } else if (op < 4) {
      if (pos == 0) mc::abandon();
      target = pos - 1;
    } else {
      target = mc::choose(n + 1);
    }
    int d = target - pos;
    hist += std::string(",") + names[op] + "(" + std::to_string(d) + ")";
    mc::step();
    It before = it, ret = it;
    switch (op) {
      case 0: { It& r = ++it; MC_CHECK(&r == &it, hist); ret = it; break; }
      case 1: ret = it++; MC_CHECK(ret == before && ret - begin == pos, "post-increment returns the old position: " << hist); break;
      case 2: { It& r = --it; MC_CHECK(&r == &it, hist); break; }
      case 3: ret = it--; MC_CHECK(ret == before && ret - begin == pos, "post-decrement returns the old position: " << hist); break;
      case 4: { It& r = it += d; MC_CHECK(&r == &it, hist); break; }
      case 5: { It& r = it -= -d; MC_CHECK(&r == &it, hist); break; }
      case 6: it = before + d; break;
      case 7: it = d + before; break;
      case 8: it = before - (-d); break;
    }
    pos = target;
    mc::state(mc::mix(mc::mix(pos, n), mc::hash_str(hist)));
    MC_EQ((int)(it - begin), pos, hist);
    MC_EQ((int)(begin - it), -pos, hist);
    MC_EQ((int)(end - it), n - pos, hist);
    if (pos < n) {
      MC_EQ(get(*it), get(arr[pos]), hist);
    }
    for (int q = 0; q <= n; ++q) {
      It o(&arr, q);
      mc::step(6);
      MC_EQ(it == o, pos == q, hist << " vs " << q);
      MC_EQ(it != o, pos != q, hist << " vs " << q);
      MC_EQ(it < o, pos < q, hist << " vs " << q);
      MC_EQ(it > o, pos > q, hist << " vs " << q);
      MC_EQ(it <= o, pos <= q, hist << " vs " << q);
      MC_EQ(it >= o, pos >= q, hist << " vs " << q);
      MC_EQ((int)(it - o), pos - q, hist << " vs " << q);
      if (q < n) MC_EQ(get(o[0]), get(arr[q]), hist);
      if (q >= pos && q < n) MC_EQ(get(it[q - pos]), get(arr[q]), hist << " [" << q - pos << "]");
    }
  }
  MC_SAY("iterator moves " << hist << " over " << n << " items");
}

}  // namespace

MC_HARNESS(sorted_arrays) {
  switch (mc::choose(4)) {
    case 0: sorted_body<float>(); break;
    case 1: sorted_body<double>(); break;
    case 2: sorted_body<int32_t>(); break;
    case 3: sorted_body<int64_t>(); break;
  }
}
MC_HARNESS(strict_arrays) {
  switch (mc::choose(4)) {
    case 0: strict_body<float>(); break;
    case 1: strict_body<double>(); break;
    case 2: strict_body<int32_t>(); break;
    case 3: strict_body<int64_t>(); break;
  }
}
MC_HARNESS(boundary_values) {
  switch (mc::choose(4)) {
    case 0: special_body<float>(); break;
    case 1: special_body<double>(); break;
    case 2: special_body<int32_t>(); break;
    case 3: special_body<int64_t>(); break;
  }
}
MC_HARNESS(custom_order) { comparator_body(); }
MC_HARNESS(array_iterator) {
  int n = mc::choose(4);
  if (mc::flag()) {
    Squares s{n};
    iterator_body(s, n, [](int x) { return x; });
  } else {
    Items s;
    for (int i = 0; i < n; ++i) s.v.push_back({i * 3 + 1});
    arolla::ConstArrayIterator<Items> b(&s, 0);
    for (int i = 0; i < n; ++i) {
      MC_EQ((b + i)->x, i * 3 + 1, "arrow");
      MC_CHECK(&*(b + i) == &s.v[i], "reference identity");
      MC_CHECK((b + i).operator->() == &s.v[i], "pointer identity");
    }
    iterator_body(s, n, [](const Items::V& x) { return x.x; });
  }
}
// Distances beyond 32 bits, and backwards over the origin of the index type.
MC_HARNESS(iterator_far) {
  static const uint64_t offs[] = {0, 1, 2147483647, 2147483648u, 4294967295u, 4294967296ull, 1ull << 40, (1ull << 62)};
  Squares s{0};
  using It = arolla::ConstArrayIterator<Squares>;
  uint64_t a = mc::pick(offs), b = mc::pick(offs);
  It x(&s, a), y(&s, b);
  int64_t d = (int64_t)(b - a);
  mc::state(mc::mix(a, b));
  mc::step(8);
  MC_EQ(y - x, d, a << " " << b);
  MC_EQ(x < y, a < b, a << " " << b);
  MC_EQ(x > y, a > b, a << " " << b);
  MC_EQ(x <= y, a <= b, a << " " << b);
  MC_EQ(x >= y, a >= b, a << " " << b);
  MC_CHECK(x + d == y && d + x == y && y - d == x, a << " " << b);
  It z = x;
  z += d;
  MC_CHECK(z == y, a << " " << b);
  z -= d;
  MC_CHECK(z == x, a << " " << b);
  MC_CHECK(It() == It(), "default constructed iterators are equal");
}
// Standard algorithms over the iterator.
MC_HARNESS(iterator_algorithms) {
  int n = mc::choose(20);
  Squares s{n};
  using It = arolla::ConstArrayIterator<Squares>;
  It b(&s, 0), e(&s, n);
  std::vector<int> v(b, e);
  mc::state(n);
  mc::step(2 * n + 3);
  MC_EQ((int)v.size(), n, "");
  for (int i = 0; i < n; ++i) MC_EQ(v[i], i * i, "");
  std::vector<int> r(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
  std::reverse(r.begin(), r.end());
  MC_EQ(r, v, "reverse");
  for (int x = -1; x <= n * n + 1; ++x) {
    MC_EQ(std::lower_bound(b, e, x) - b, std::lower_bound(v.begin(), v.end(), x) - v.begin(), x);
    MC_EQ(std::find(b, e, x) - b, std::find(v.begin(), v.end(), x) - v.begin(), x);
    MC_EQ(arolla::exp_lower_bound(b, e, x) - b, std::lower_bound(v.begin(), v.end(), x) - v.begin(), x);
  }
}
// Keys of any map: sorted, complete, no duplicates.
MC_HARNESS(sorted_keys) {
  int mask = mc::choose(1 << mc::tier(7, 11)), kind = mc::choose(4), order = mc::choose(3);
  static const std::vector<std::string> keys = {"b", "", "a", "ab", "B", "10", "9", "\xff", "aa", "z", "Z"};
  std::vector<std::string> ins, want;
  for (size_t i = 0; i < keys.size(); ++i) if (mask >> i & 1) ins.push_back(keys[i]);
  want = ins;
  for (size_t i = 0; i < want.size(); ++i)
    for (size_t j = i + 1; j < want.size(); ++j) if (want[j] < want[i]) std::swap(want[i], want[j]);
  if (order == 1) std::reverse(ins.begin(), ins.end());
  if (order == 2 && ins.size() > 2) std::rotate(ins.begin(), ins.begin() + 2, ins.end());
  auto run = [&](auto m) {
    for (auto& k : ins) m.emplace(k, 1);
    mc::step();
    MC_EQ(arolla::SortedMapKeys(m), want, "");
  };
  mc::state(mc::mix(mask, kind * 3 + order));
  switch (kind) {
    case 0: run(std::map<std::string, int>()); break;
    case 1: run(std::unordered_map<std::string, int>()); break;
    case 2: run(absl::flat_hash_map<std::string, int>()); break;
    case 3: run(std::map<std::string, int, std::greater<>>()); break;
  }
}
// A run-time index selects the same-numbered compile-time constant.
MC_HARNESS(switch_index) {
  int i = mc::choose(64);
  mc::step(2);
  mc::state(i);
  int calls = 0;
  auto f = [&](auto c) { ++calls; return (int)c; };
  MC_EQ(arolla::switch_index<64>(i, f), i, "");
  if (i < 32) MC_EQ(arolla::switch_index<32>(i, f), i, "");
  MC_EQ(calls, i < 32 ? 2 : 1, "called once");
}
MC_MAIN()
