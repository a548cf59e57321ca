// Scalar operators on every pair/triple of a grid of boundary values, against
// exact (128-bit integer, rational-free long double) arithmetic.
#include <cmath>
#include <cstdint>
#include <limits>
#include <optional>

#include "arolla/qexpr/operators/bitwise/bitwise.h"
#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/core/cast_operator.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/qexpr/operators/math/math.h"
#include "arolla/util/overflow.h"
#include "mc.h"

using namespace arolla;

namespace {

template <class T>
std::vector<T> grid() {
  using L = std::numeric_limits<T>;
  std::vector<T> r;
  if constexpr (std::is_integral_v<T>) {
    for (int i = 0; i <= mc::tier(9, 40); ++i) {
      r.push_back(T(i));
      if constexpr (L::is_signed) r.push_back(T(-i));
      r.push_back(L::min() + i);
      r.push_back(L::max() - i);
    }
    for (int b = 4; b < L::digits; ++b) {
      if (!mc::thorough() && b % 4 != 3 && b != 4 && b < L::digits - 2 && b != 31 && b != 32 && b != 24 && b != 53) continue;
      for (int d = -1; d <= 1; ++d) {
        T v = (T{1} << b) + d;
        r.push_back(v);
        if constexpr (L::is_signed) r.push_back(-v);
      }
    }
    r.push_back(T(12345));
    r.push_back(T(1000000007));
  } else {
    for (T v : {T(0), T(1), T(2), T(3), T(5), T(7), T(10), T(100), T(0.5), T(0.25), T(0.75), T(1.5), T(2.5), T(3.5), T(4.5), T(0.1), T(0.3),
                T(1e-3), T(1e-7), T(1e-20), T(1e20), T(16777217), T(8388607.5), T(4503599627370495.5), T(2147483647), T(2147483648.0),
                T(4294967296.0), T(9223372036854775807.0), T(1.8446744073709552e19), T(20), T(50), T(88.5), T(100.5), T(709.5), T(750),
                T(0.9999999), T(1.0000001), L::epsilon(), L::min(), L::denorm_min(), L::max(), L::infinity()}) {
      r.push_back(v);
      r.push_back(-v);
    }
    r.push_back(L::quiet_NaN());
    if (mc::thorough()) {
      for (int e = -30; e <= 30; ++e) {
        r.push_back(std::ldexp(T(1.37), e));
        r.push_back(-std::ldexp(T(1.01), e * 3));
      }
      for (int i = 0; i <= 64; ++i) r.push_back(T(i) / 8 - 4);
    }
  }
  std::vector<T> u;
  for (T v : r) {
    bool dup = false;
    for (T w : u) dup |= std::memcmp(&v, &w, sizeof v) == 0;
    if (!dup) u.push_back(v);
  }
  return u;
}
template <class T>
const std::vector<T>& G() {
  static const std::vector<T> g = grid<T>();
  return g;
}
template <class T>
T val() {
  return mc::pick(G<T>());
}
template <class T>
bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
  } else {
    return a == b;
  }
}
#define SAME(got, want, ...)                                                                                          \
  do {                                                                                                                \
    mc::step();                                                                                                       \
    auto mc_g = (got);                                                                                                \
    decltype(mc_g) mc_w = (want);                                                                                     \
    if (!same(mc_g, mc_w)) {                                                                                          \
      std::ostringstream o;                                                                                           \
      o << #got << " is " << mc::show(mc_g) << ", expected " << mc::show(mc_w) << " for " << __VA_ARGS__;             \
      mc::fail("", o.str());                                                                                          \
    }                                                                                                                 \
  } while (0)

template <class T>
std::string S(T v) {
  return mc::show(v) + (std::is_same_v<T, float> ? "f" : std::is_same_v<T, double> ? "" : sizeof(T) == 8 ? "L" : "");
}

template <class T>
void ints() {
  using I = __int128;
  using U = std::make_unsigned_t<T>;
  T a = val<T>();
  std::string as = S(a);
  MC_SAY("integer operators on " << as << " and every grid value");
  auto wrap = [](I x) { return (T)(U)x; };
  SAME(NegOp()(a), wrap(-(I)a), as);
  SAME(PosOp()(a), a, as);
  SAME(AbsOp()(a), wrap(a < 0 ? -(I)a : (I)a), as);
  SAME(SignOp()(a), T(a < 0 ? -1 : a > 0), as);
  SAME(InvertOp()(a), wrap(-(I)a - 1), as);
  int ones = 0;
  for (size_t i = 0; i < 8 * sizeof(T); ++i) ones += ((U)a >> i) & 1;
  SAME((int)BitwiseCountOp()(a), ones, as);
  SAME(ToBoolOp()(a), a != 0, as);
  for (T b : G<T>()) {
    std::string s = as + ", " + S(b);
    mc::state(mc::mix(mc::mix((uint64_t)a, (uint64_t)b), sizeof(T) * 2 + std::is_signed_v<T>));
    SAME(AddOp()(a, b), wrap((I)a + b), s);
    SAME(AddOp()(a, b, a), wrap((I)a + b + a), s);
    SAME(SubtractOp()(a, b), wrap((I)a - b), s);
    SAME(MultiplyOp()(a, b), (T)(U)((unsigned __int128)(U)a * (U)b), s);
    SAME(MaxOp()(a, b), a > b ? a : b, s);
    SAME(MinOp()(a, b), a < b ? a : b, s);
    SAME(BitwiseAndOp()(a, b), (T)((U)a & (U)b), s);
    SAME(BitwiseOrOp()(a, b), (T)((U)a | (U)b), s);
    SAME(BitwiseXorOp()(a, b), (T)((U)a ^ (U)b), s);
    auto d = FloorDivOp()(a, b);
    auto m = ModOp()(a, b);
    SAME(d.ok(), b != 0, "floordiv " << s);
    SAME(m.ok(), b != 0, "mod " << s);
    if (b != 0) {
      I q = (I)a / (I)b, r = (I)a % (I)b;
      if (r != 0 && (r < 0) != (b < 0)) {
        q -= 1;
        r += b;
      }
      SAME(*d, wrap(q), "floordiv " << s);
      SAME(*m, wrap(r), "mod " << s);
    } else {
      SAME(d.status().code() == absl::StatusCode::kInvalidArgument && m.status().code() == absl::StatusCode::kInvalidArgument, true, s);
    }
    SAME(EqualOp()(a, b), (I)a - b == 0, s);
    SAME(NotEqualOp()(a, b), (I)a - b != 0, s);
    SAME(LessOp()(a, b), (I)a - b < 0, s);
    SAME(LessEqualOp()(a, b), (I)a - b <= 0, s);
    // Checked helpers.
    auto fits = [](I x) { return x >= std::numeric_limits<int64_t>::min() && x <= std::numeric_limits<int64_t>::max(); };
    I sum = (I)a + b, prod;
    bool pov = __builtin_mul_overflow((I)a, (I)b, &prod);
    auto sa = SafeAdd(a, b), sm = SafeMul(a, b);
    SAME(sa.ok(), fits(sum), "SafeAdd " << s);
    SAME(sm.ok(), !pov && fits(prod), "SafeMul " << s);
    if (sa.ok()) SAME(*sa, (int64_t)sum, "SafeAdd " << s);
    if (sm.ok()) SAME(*sm, (int64_t)prod, "SafeMul " << s);
    bool overflow = false;
    safe_add<int32_t>(a, b, &overflow);
    SAME(overflow, sum < INT32_MIN || sum > INT32_MAX, "safe_add<int32> " << s);
    bool sticky = true;
    safe_add(a, T(0), &sticky);
    safe_mul(a, T(1), &sticky);
    SAME(sticky, true, "overflow flag must stay set " << s);
  }
  auto ab = SafeAbs(a);
  I aa = a < 0 ? -(I)a : (I)a;
  // The result is an int64_t.
  bool representable = aa <= std::numeric_limits<int64_t>::max();
  SAME(ab.ok(), representable, "SafeAbs " << as);
  if (representable) SAME(*ab, (int64_t)aa, "SafeAbs " << as);
}

template <class T>
void floats() {
  T a = val<T>();
  std::string as = S(a);
  bool nan = std::isnan(a);
  MC_SAY("floating point operators on " << as << " and every grid value");
  SAME(NegOp()(a), std::copysign(a, std::signbit(a) ? T(1) : T(-1)), as);
  SAME(AbsOp()(a), std::copysign(a, T(1)), as);
  SAME(PosOp()(a), a, as);
  T sg = SignOp()(a);
  SAME(nan ? std::isnan(sg) : sg == (a > 0 ? 1 : a < 0 ? -1 : 0), true, "sign " << as);
  SAME(IsNanOp()(a).present, a != a, as);
  SAME(IsInfOp()(a).present, a == std::numeric_limits<T>::infinity() || a == -std::numeric_limits<T>::infinity(), as);
  SAME(IsFiniteOp()(a).present, std::fabs(a) <= std::numeric_limits<T>::max(), as);
  T fl = FloorOp()(a), ce = CeilOp()(a), ro = RoundOp()(a);
  if (!nan && !std::isinf(a)) {
    SAME(fl <= a && (fl == a || fl + 1 > a) && std::fmod(fl, T(1)) == 0, true, "floor " << as);
    SAME(ce >= a && (ce == a || ce - 1 < a) && std::fmod(ce, T(1)) == 0, true, "ceil " << as);
    // Half away from zero.
    T f = std::trunc(a);
    T want = std::fabs(a - f) >= T(0.5) ? f + (a < 0 ? -1 : 1) : f;
    SAME(ro == want, true, "round " << as << " gives " << ro);
  } else {
    SAME(fl, a, as);
    SAME(ce, a, as);
    SAME(ro, a, as);
  }
  for (T b : G<T>()) {
    std::string s = as + ", " + S(b);
    uint64_t ha = 0, hb = 0;
    std::memcpy(&ha, &a, sizeof a);
    std::memcpy(&hb, &b, sizeof b);
    mc::state(mc::mix(mc::mix(ha, hb), sizeof(T) + 100));
    bool un = nan || std::isnan(b);
    SAME(EqualOp()(a, b), !un && !(a < b) && !(a > b), s);
    SAME(NotEqualOp()(a, b), un || a < b || a > b, s);
    SAME(LessOp()(a, b), !un && b > a, s);
    SAME(LessEqualOp()(a, b), !un && !(a > b), s);
    T mx = MaxOp()(a, b), mn = MinOp()(a, b);
    if (un) {
      SAME(std::isnan(mx) && std::isnan(mn), true, "max/min propagate NaN " << s);
    } else {
      SAME(mx >= a && mx >= b && (mx == a || mx == b), true, "max " << s);
      SAME(mn <= a && mn <= b && (mn == a || mn == b), true, "min " << s);
    }
    volatile T va = a, vb = b;
    T sum = va + vb, dif = va - vb, pro = va * vb, quo = va / vb;
    SAME(AddOp()(a, b), sum, s);
    SAME(SubtractOp()(a, b), dif, s);
    SAME(MultiplyOp()(a, b), pro, s);
    SAME(DivideOp()(a, b), quo, s);
    T fm = FmodOp()(a, b);
    if (un || std::isinf(a) || b == 0) SAME(std::isnan(fm), true, "fmod " << s);
    else SAME(std::fabs(fm) < std::fabs(b) && (fm == 0 || std::signbit(fm) == std::signbit(a)), true, "fmod " << s);
    auto d = FloorDivOp()(a, b);
    auto m = ModOp()(a, b);
    SAME(d.ok(), b != 0, "floordiv " << s);
    SAME(m.ok(), b != 0, "mod " << s);
    if (b == 0) continue;
    if (!std::isfinite(quo)) {
      SAME(std::isnan(*d) && std::isnan(*m), true, "floordiv/mod without a finite quotient " << s);
      continue;
    }
    if (std::isinf(b)) {
      bool neg = a != 0 && std::signbit(a) != std::signbit(b);
      SAME(*d == (neg ? -1 : 0), true, "floordiv by infinity " << s);
      SAME(*m == (neg ? b : a), true, "mod by infinity " << s);
      SAME(std::signbit(*m) == std::signbit(b), true, "sign of mod by infinity " << s);
      continue;
    }
    SAME(*d == std::floor(*d), true, "floordiv is integral " << s);
    if (a == 0) SAME(*d == 0 && *m == 0, true, s);
    // The remainder has the sign of the divisor.
    SAME(std::signbit(*m) == std::signbit(b), true, "sign of mod " << s << " gives " << *m);
    // Exact whenever the operands are moderate multiples of a common power of
    // two, so that every intermediate is representable.
    auto dyadic = [](T x) { return std::fabs(x) <= 4096 && x * 8 == std::floor(x * 8); };
    if (dyadic(a) && dyadic(b)) {
      long long ia = (long long)(a * 8), ib = (long long)(b * 8);
      long long q = ia / ib, r = ia % ib;
      if (r && (r < 0) != (ib < 0)) { q -= 1; r += ib; }
      SAME(*d == (T)q, true, "floordiv " << s << " gives " << *d);
      SAME(*m == (T)r / 8, true, "mod " << s << " gives " << *m);
    } else if (a != 0) {
      // floor(quotient), up to rounding of the quotient.
      long double exact = std::floor((long double)a / (long double)b);
      long double slack = 1.0L + std::fabs(exact) * 2 * std::numeric_limits<T>::epsilon();
      SAME(std::fabs((long double)*d - exact) <= slack, true, "floordiv " << s << " gives " << *d);
      if (((a < 0) != (b < 0)) && quo == 0) SAME(*d == -1, true, "tiny negative quotient " << s);
    }
  }
}

template <class T>
void close(T got, long double want, const std::string& what, long double ulps = 8) {
  mc::step();
  if (std::isnan(want)) {
    MC_CHECK(std::isnan(got), what << " is " << got << ", expected NaN");
    return;
  }
  T w = (T)want;
  if (std::isinf(w) || std::isinf(got)) {
    bool edge = std::fabs(want) > (long double)std::numeric_limits<T>::max() * 0.99L;
    MC_CHECK(got == w || (edge && std::fabs(got) >= std::numeric_limits<T>::max() * T(0.99) && std::signbit(got) == std::signbit(w)),
             what << " is " << got << ", expected " << w);
    return;
  }
  long double tol = ulps * std::numeric_limits<T>::epsilon() * std::fabs(want) + 4 * (long double)std::numeric_limits<T>::denorm_min();
  MC_CHECK(std::fabs((long double)got - want) <= tol, what << " is " << mc::show(got) << ", expected " << mc::show(w));
}

template <class T>
void functions() {
  T a = val<T>();
  long double x = a;
  std::string s = S(a);
  MC_SAY("math functions on " << s);
  uint64_t ha = 0;
  std::memcpy(&ha, &a, sizeof a);
  mc::state(mc::mix(ha, sizeof(T) + 200));
  auto bad = [&](bool c, long double v) { return c ? std::numeric_limits<long double>::quiet_NaN() : v; };
  close(LogOp()(a), bad(x < 0, std::log(x)), "log " + s);
  close(Log2Op()(a), bad(x < 0, std::log2(x)), "log2 " + s);
  close(Log10Op()(a), bad(x < 0, std::log10(x)), "log10 " + s);
  close(Log1pOp()(a), bad(x < -1, std::log1p(x)), "log1p " + s);
  close(SqrtOp()(a), bad(x < 0, std::sqrt(x)), "sqrt " + s);
  close(Symlog1pOp()(a), x >= 0 ? std::log1p(x) : -std::log1p(-x), "symlog1p " + s);
  close(Symlog1pOp()(-a), -(long double)Symlog1pOp()(a), "symlog1p is odd " + s, 0.001L);
  close(ExpOp()(a), std::exp(x), "exp " + s);
  close(Expm1Op()(a), std::expm1(x), "expm1 " + s);
  close(SinhOp()(a), std::sinh(x), "sinh " + s);
  close(AtanOp()(a), std::atan(x), "atan " + s);
  if (std::fabs(x) <= 1000) {
    mc::step(2);
    MC_CHECK(std::fabs((long double)SinOp()(a) - std::sin(x)) <= 4 * std::numeric_limits<T>::epsilon(), "sin " << s);
    MC_CHECK(std::fabs((long double)CosOp()(a) - std::cos(x)) <= 4 * std::numeric_limits<T>::epsilon(), "cos " << s);
  }
  // log(sigmoid(x)) without overflow or premature rounding to zero.
  long double ls = std::isnan(x) ? x : x >= 0 ? -std::log1p(std::exp(-x)) : x - std::log1p(std::exp(x));
  close(LogSigmoidOp()(a), ls, "log_sigmoid " + s);
  // logit
  if (x >= 0 && x <= 1) {
    T l = LogitOp()(a);
    long double want = std::log(x) - std::log1p(-x);
    mc::step();
    if (std::isinf(want)) MC_CHECK(l == (T)want, "logit " << s << " is " << l);
    else MC_CHECK(std::fabs(l - want) <= 16 * std::numeric_limits<T>::epsilon() * (std::fabs(std::log(x)) + std::fabs(std::log1p(-x))) +
                                           4 * (long double)std::numeric_limits<T>::denorm_min(),
                  "logit " << s << " is " << l << ", expected " << (T)want);
  } else {
    mc::step();
    MC_CHECK(std::isnan(LogitOp()(a)), "logit outside of [0,1] " << s);
  }
  for (T b : G<T>()) {
    long double y = b;
    std::string p = s + ", " + S(b);
    // Powers whose exact value is moderate or special.
    // (glibc's powl is wrong for some huge exponents.)
    long double want = std::isinf(x) || std::fabs(y) > 1e15L ? (long double)std::pow((double)x, (double)y) : std::pow(x, y);
    close(PowOp()(a, b), want, "pow " + p, 16);
    if (!std::isnan(x) && !std::isnan(y) && !std::isinf(x) && !std::isinf(y) && std::fabs(x) < 1e6 && std::fabs(y) < 1e6) {
      for (T slope : {T(1), T(-1), T(0), T(0.5), T(3)}) {
        mc::step();
        T got = SigmoidOp()(a, b, slope);
        long double arg = (long double)slope * ((long double)b - (long double)a);
        long double w = 1.0L / (1.0L + std::exp(arg));
        // The argument is rounded before the exponential.
        long double tol = 8 * std::numeric_limits<T>::epsilon() * (1 + std::fabs(arg)) * w + 1e-30L;
        MC_CHECK(std::fabs(got - w) <= tol, "sigmoid(" << p << ", " << slope << ") is " << got << ", expected " << (T)w);
        MC_CHECK(got >= 0 && got <= 1, "sigmoid range " << p);
      }
    }
  }
}

template <class DST, class SRC>
void cast_one(SRC v) {
  auto r = CastOp<DST>()(v);
  std::string s = S(v) + " to type of " + std::to_string(sizeof(DST)) + " bytes";
  std::optional<DST> got;
  mc::step();
  if constexpr (std::is_same_v<decltype(r), DST>) {
    got = r;
  } else {
    if (r.ok()) got = *r;
    else MC_EQ((int)r.status().code(), (int)absl::StatusCode::kInvalidArgument, s);
  }
  if constexpr (std::is_integral_v<DST> && std::is_floating_point_v<SRC>) {
    // Exact whenever the truncated value fits.  (For unsigned targets values
    // in (-1, 0) may be refused.)
    bool fits = false;
    if (std::isfinite(v)) {
      long double t = std::trunc((long double)v);
      fits = t >= (long double)std::numeric_limits<DST>::min() && t <= (long double)std::numeric_limits<DST>::max();
    }
    if (got.has_value()) {
      MC_CHECK(fits, "cast accepted a value that does not fit: " << s);
      MC_CHECK((long double)*got == std::trunc((long double)v), "cast of " << s << " gives " << *got);
    } else if (fits) {
      bool in_doubt = std::trunc((long double)v) != (long double)v &&
                      (v < 0 || (long double)v > (long double)std::numeric_limits<DST>::max() ||
                       (long double)v < (long double)std::numeric_limits<DST>::min());
      MC_CHECK(in_doubt, "cast refused a value that fits: " << s);
    }
  } else if constexpr (std::is_integral_v<DST>) {
    bool fits = (__int128)v >= (__int128)std::numeric_limits<DST>::min() && (__int128)v <= (__int128)std::numeric_limits<DST>::max();
    MC_EQ(got.has_value(), fits, "cast of " << s);
    if (got) MC_CHECK((__int128)*got == (__int128)v, "cast of " << s << " gives " << *got);
  } else {
    MC_CHECK(got.has_value(), "cast to floating point is total: " << s);
    long double w = (long double)v;
    if (std::isnan(w)) MC_CHECK(std::isnan(*got), s);
    else MC_CHECK(*got == (DST)w, "cast of " << s << " gives " << *got);
  }
}
template <class SRC>
void casts_from() {
  SRC v = val<SRC>();
  MC_SAY("casts of " << S(v));
  mc::state(mc::hash_str(S(v)));
  cast_one<int32_t>(v);
  cast_one<int64_t>(v);
  cast_one<uint64_t>(v);
  cast_one<float>(v);
  cast_one<double>(v);
  // The neighbourhood of every target limit.
  if constexpr (std::is_floating_point_v<SRC>) {
    for (SRC lim : {SRC(2147483648.0), SRC(-2147483648.0), SRC(9223372036854775808.0), SRC(-9223372036854775808.0), SRC(18446744073709551616.0), SRC(0), SRC(-1)}) {
      SRC up = lim, dn = lim;
      for (int i = 0; i < 3; ++i) {
        cast_one<int32_t>(up); cast_one<int64_t>(up); cast_one<uint64_t>(up);
        cast_one<int32_t>(dn); cast_one<int64_t>(dn); cast_one<uint64_t>(dn);
        up = std::nextafter(up, std::numeric_limits<SRC>::infinity());
        dn = std::nextafter(dn, -std::numeric_limits<SRC>::infinity());
      }
    }
  }
}

}  // namespace

MC_HARNESS(integer_ops) {
  if (mc::flag()) ints<int32_t>();
  else ints<int64_t>();
}
MC_HARNESS(float_ops) {
  if (mc::flag()) floats<float>();
  else floats<double>();
}
MC_HARNESS(math_functions) {
  if (mc::flag()) functions<float>();
  else functions<double>();
}
MC_HARNESS(casts) {
  switch (mc::choose(5)) {
    case 0: casts_from<int32_t>(); break;
    case 1: casts_from<int64_t>(); break;
    case 2: casts_from<uint64_t>(); break;
    case 3: casts_from<float>(); break;
    case 4: casts_from<double>(); break;
  }
}
// Text and bytes compare as sequences of unsigned bytes.
MC_HARNESS(string_comparison) {
  static const std::vector<std::string> alphabet = {std::string(1, '\0'), "a", "b", "\x7f", "\x80", "\xff"};
  std::string a, b;
  for (int i = 0, n = mc::choose(3); i < n; ++i) a += mc::pick(alphabet);
  for (int i = 0, n = mc::choose(3); i < n; ++i) b += mc::pick(alphabet);
  int c = 0;
  for (size_t i = 0; i < a.size() && i < b.size() && c == 0; ++i) c = (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
  if (c == 0) c = (int)a.size() - (int)b.size();
  mc::step(4);
  mc::state(a + "|" + b);
  MC_EQ(EqualOp()(a, b), c == 0, mc::show(a) << mc::show(b));
  MC_EQ(NotEqualOp()(a, b), c != 0, mc::show(a) << mc::show(b));
  MC_EQ(LessOp()(a, b), c < 0, mc::show(a) << mc::show(b));
  MC_EQ(LessEqualOp()(a, b), c <= 0, mc::show(a) << mc::show(b));
}
MC_MAIN()
