// Packed bit ranges: every (start, end) / (length, offset, offset) up to three
// words, against a bit-by-bit model on std::vector<bool>.
#include <memory>

#include "arolla/util/algorithms.h"
#include "arolla/util/bits.h"
#include "mc.h"

namespace {

template <class W>
constexpr int kB = sizeof(W) * 8;

// Exactly n words on the heap: address sanitizer flags any access outside.
template <class W>
struct Words {
  std::unique_ptr<W[]> p;
  size_t n;
  explicit Words(size_t n) : p(n ? new W[n] : nullptr), n(n) {}
  Words(const std::vector<W>& v, size_t n) : Words(n) {
    for (size_t i = 0; i < n; ++i) p[i] = v[i];
  }
  W* data() { return p.get(); }
  bool bit(size_t i) const { return (p[i / kB<W>] >> (i % kB<W>)) & 1; }
};

template <class W>
bool Bit(const std::vector<W>& v, size_t i) {
  return (v[i / kB<W>] >> (i % kB<W>)) & 1;
}

template <class W>
W pattern() {
  static const W top = W{1} << (kB<W> - 1);
  const std::vector<W> quick = {0, W(~W{0}), W(0x5555555555555555ull), 1, top, W(0x0123456789abcdefull * 3)};
  const std::vector<W> deep = {0, W(~W{0}), W(0x5555555555555555ull), 1, top, W(0x0123456789abcdefull * 3), W(~top), W(~W{1}),
                               W(0x00ff00ff00ff00ffull), W(W{1} << (kB<W> / 2))};
  return mc::thorough() ? mc::pick(deep) : mc::pick(quick);
}

template <class W>
std::vector<W> patterns(int n) {
  std::vector<W> r(n);
  for (auto& w : r) w = pattern<W>();
  return r;
}

template <class W>
std::string dump(const std::vector<W>& v) {
  std::ostringstream o;
  o << kB<W> << "-bit words";
  for (W w : v) o << " 0x" << std::hex << (unsigned long long)w;
  return o.str();
}

template <class W>
void range_body() {
  constexpr int B = kB<W>;
  const int nw = 3;
  auto init = patterns<W>(nw);
  MC_SAY("ranges over " << dump(init));
  std::vector<int> prefix(nw * B + 1);
  for (int i = 0; i < nw * B; ++i) prefix[i + 1] = prefix[i] + Bit(init, i);
  std::vector<int> next(nw * B + 1, nw * B);
  for (int i = nw * B - 1; i >= 0; --i) next[i] = Bit(init, i) ? i : next[i + 1];
  mc::state(dump(init) + "range");
  // One allocation per number of readable words, so that reading past the
  // last word of the range is caught.
  std::vector<Words<W>> exact;
  for (int n = 0; n <= nw; ++n) exact.emplace_back(init, n);
  int64_t steps = 0;
  for (int end = 0; end <= nw * B; ++end) {
    Words<W>& ro = exact[(end + B - 1) / B];
    Words<W> rw(init, ro.n);
    for (int start = 0; start <= end; ++start) {
      steps += 3;
      MC_EQ((int)arolla::GetOnesCountInRange<W>(ro.data(), start, end), prefix[end] - prefix[start],
            "[" << start << "," << end << ") of " << dump(init));
      MC_EQ((int)arolla::FindNextSetBitInVector<W>(ro.data(), start, end), std::min(next[start], end),
            "first set bit in [" << start << "," << end << ") of " << dump(init));
      for (size_t i = 0; i < rw.n; ++i) rw.p[i] = init[i];
      arolla::SetBitsInRange<W>(rw.data(), start, end);
      for (size_t i = 0; i < rw.n; ++i) {
        W want = init[i];
        int lo = std::max<int>(start - (int)i * B, 0), hi = std::min<int>(end - (int)i * B, B);
        for (int b = lo; b < hi; ++b) want |= W{1} << b;
        MC_EQ(rw.p[i], want, "word " << i << " after setting [" << start << "," << end << ") in " << dump(init));
      }
    }
    // Asking beyond the limit answers the limit without reading anything.
    for (int start = end; start <= end + 2; ++start) {
      ++steps;
      Words<W> none(0);
      MC_EQ((int)arolla::FindNextSetBitInVector<W>(none.data(), start, end), end, "start " << start << " limit " << end);
    }
  }
  for (int i = 0; i < nw * B; ++i) {
    steps += 2;
    MC_EQ(arolla::GetBit<W>(init.data(), i), Bit(init, i), "bit " << i << " of " << dump(init));
    auto w = init;
    arolla::SetBit<W>(w.data(), i);
    auto want = init;
    want[i / B] |= W{1} << (i % B);
    MC_EQ(w, want, "after SetBit " << i << " in " << dump(init));
  }
  mc::step(steps);
}

// Bitmaps with at most two bits set, anywhere: scanning and counting.
template <class W>
void sparse_body() {
  constexpr int B = kB<W>;
  const int total = 3 * B;
  int a = mc::choose(total);
  MC_SAY("sparse bitmap " << B << "-bit words, bit " << a << " plus every second bit");
  std::vector<W> v(3, 0);
  int64_t steps = 0;
  for (int b = a; b < total; ++b) {
    std::fill(v.begin(), v.end(), 0);
    v[a / B] |= W{1} << (a % B);
    v[b / B] |= W{1} << (b % B);
    mc::state(mc::mix(mc::mix(a, b), B));
    for (int start : {0, a, a + 1, b, b + 1, total - 1}) {
      for (int limit : {a, a + 1, b, b + 1, total}) {
        if (start > limit || limit > total) continue;
        int want = start <= a && a < limit ? a : start <= b && b < limit ? b : limit;
        ++steps;
        MC_EQ((int)arolla::FindNextSetBitInVector<W>(v.data(), start, limit), want, "bits " << a << "," << b << " start " << start << " limit " << limit);
        int cnt = (start <= a && a < limit) + (a != b && start <= b && b < limit);
        ++steps;
        MC_EQ((int)arolla::GetOnesCountInRange<W>(v.data(), start, limit), cnt, "bits " << a << "," << b << " [" << start << "," << limit << ")");
      }
    }
  }
  mc::step(steps);
}

template <class W>
void word_body() {
  constexpr int B = kB<W>;
  int hi = mc::choose(B);
  std::vector<W> lows = {0, W((W{1} << hi) - 1), W((W{1} << hi) >> 1), W(0x5555555555555555ull & ((W{1} << hi) - 1))};
  for (W low : lows) {
    W w = (W{1} << hi) | low;
    int lsb = 0, ones = 0;
    while (!((w >> lsb) & 1)) ++lsb;
    for (int i = 0; i < B; ++i) ones += (w >> i) & 1;
    mc::step(4);
    mc::state(mc::mix(w, B));
    MC_EQ(arolla::CountLeadingZeros<W>(w), B - 1 - hi, "word " << w);
    MC_EQ(arolla::BitScanReverse<W>(w), hi, "word " << w);
    MC_EQ(arolla::FindLSBSetNonZero<W>(w), lsb, "word " << w);
    MC_EQ((int)arolla::CountOnes<W>(w), ones, "word " << w);
  }
  MC_EQ((int)arolla::CountOnes<W>(0), 0, "");
  MC_EQ((int)arolla::Bits<W>::kIntBits, B, "");
  MC_EQ((1 << arolla::Bits<W>::kLogIntBits), B, "");
}

template <class W>
std::vector<W> mixed(int seed, int n) {
  std::vector<W> r(n);
  uint64_t x = 0x9e3779b97f4a7c15ull * (seed + 1);
  for (auto& w : r) {
    switch (seed) {
      case 0: w = ~W{0}; break;
      case 1: w = 0; break;
      default:
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        w = (W)x;
    }
  }
  return r;
}

// Copying n bits from offset rs to offset ls, every n, rs, ls up to 3 words.
template <class W>
void copy_body() {
  constexpr int B = kB<W>;
  int ls = mc::choose(B), rs = mc::choose(B);
  static const int pairs[][2] = {{0, 1}, {1, 0}, {2, 3}, {3, 0}};
  auto [li, ri] = pairs[mc::choose(mc::tier(3, 4))];
  auto l0 = mixed<W>(li, 5), r0 = mixed<W>(ri, 5);
  MC_SAY("copy " << B << "-bit words lhs_skip=" << ls << " rhs_skip=" << rs << " pattern " << li << "/" << ri << ", every length");
  mc::state(mc::mix(mc::mix(ls, rs), mc::mix(B, li * 8 + ri)));
  int maxn = mc::tier(2 * B + B / 2, 3 * B + 3);
  int64_t steps = 0;
  for (int n = 0; n <= maxn; ++n) {
    int lw = (n + ls + B - 1) / B, rw = (n + rs + B - 1) / B;
    if (n == 0) lw = rw = 0;  // nothing may be touched
    Words<W> l(l0, lw), r(r0, rw);
    arolla::CopyBits<W>(n, r.data(), rs, l.data(), ls);
    ++steps;
    for (int i = 0; i < lw; ++i) {
      W want = l0[i];
      int lo = std::max(ls - i * B, 0), hi = std::min(ls + n - i * B, B);
      for (int b = lo; b < hi; ++b) {
        int src = i * B + b - ls + rs;
        W m = W{1} << b;
        want = Bit(r0, src) ? want | m : want & ~m;
      }
      MC_EQ(l.p[i], want, "word " << i << " after copying " << n << " bits from offset " << rs << " to offset " << ls << " (" << B << "-bit words)");
    }
    for (int i = 0; i < rw; ++i) MC_EQ(r.p[i], r0[i], "source changed");
  }
  mc::step(steps);
}

template <class W>
void and_body() {
  constexpr int B = kB<W>;
  int ls = mc::choose(B), rs = mc::choose(B);
  static const int pairs[][2] = {{0, 2}, {2, 1}, {2, 3}, {0, 1}};
  auto [li, ri] = pairs[mc::choose(mc::tier(3, 4))];
  auto l0 = mixed<W>(li, 5), r0 = mixed<W>(ri, 5);
  MC_SAY("and " << B << "-bit words lhs_skip=" << ls << " rhs_skip=" << rs << ", every length");
  mc::state(mc::mix(mc::mix(ls, rs), mc::mix(B, li * 8 + ri)) + 7);
  int maxn = mc::tier(2 * B + B / 2, 3 * B + 3);
  int64_t steps = 0;
  for (int n = 0; n <= maxn; ++n) {
    int lw = (n + ls + B - 1) / B, rw = (n + rs + B - 1) / B;
    Words<W> l(l0, lw), r(r0, rw);
    arolla::InplaceLogicalAndWithOffsets<W>(n, r.data(), rs, l.data(), ls);
    ++steps;
    for (int i = 0; i < lw; ++i) {
      W want = 0, mask = 0;  // padding outside of the range is unspecified
      int lo = std::max(ls - i * B, 0), hi = std::min(ls + n - i * B, B);
      for (int b = lo; b < hi; ++b) {
        mask |= W{1} << b;
        if (Bit(r0, i * B + b - ls + rs) && Bit(l0, i * B + b)) want |= W{1} << b;
      }
      MC_EQ((W)(l.p[i] & mask), want, "word " << i << " after intersecting " << n << " bits, lhs offset " << ls << " rhs offset " << rs << " (" << B << "-bit words)");
    }
    for (int i = 0; i < rw; ++i) MC_EQ(r.p[i], r0[i], "rhs changed");
  }
  mc::step(steps);
}

template <class W>
void logical_body() {
  int n = mc::choose(36);
  int s = 2 + mc::choose(3);
  auto a0 = mixed<W>(s, n + 1), b0 = mixed<W>(s + 3, n + 1);
  Words<W> a(a0, n), b(b0, n), r(n);
  arolla::LogicalAnd<W>(a.data(), b.data(), r.data(), n);
  mc::step(2);
  mc::state(mc::mix(n, s * 100 + sizeof(W)));
  for (int i = 0; i < n; ++i) MC_EQ(r.p[i], (W)(a0[i] & b0[i]), "word " << i << " of " << n);
  arolla::InPlaceLogicalAnd<W>(a.data(), b.data(), n);
  for (int i = 0; i < n; ++i) {
    MC_EQ(b.p[i], (W)(a0[i] & b0[i]), "in place, word " << i << " of " << n);
    MC_EQ(a.p[i], a0[i], "source changed");
  }
}

}  // namespace

MC_HARNESS(ranges) {
  if (mc::flag()) range_body<unsigned int>();
  else range_body<unsigned long>();
}
MC_HARNESS(sparse) {
  if (mc::flag()) sparse_body<unsigned int>();
  else sparse_body<unsigned long>();
}
MC_HARNESS(words) {
  switch (mc::choose(3)) {
    case 0: word_body<unsigned int>(); break;
    case 1: word_body<unsigned long>(); break;
    case 2: word_body<unsigned long long>(); break;
  }
}
MC_HARNESS(copy_bits) {
  if (mc::flag()) copy_body<uint32_t>();
  else copy_body<uint64_t>();
}
MC_HARNESS(and_offsets) {
  if (mc::flag()) and_body<uint32_t>();
  else and_body<uint64_t>();
}
MC_HARNESS(logical_and) {
  if (mc::flag()) logical_body<uint32_t>();
  else logical_body<uint64_t>();
}
// Rounding up to a multiple, against search for the next multiple.
MC_HARNESS(round_up) {
  int divisor = 1 + mc::choose(64);
  MC_SAY("round up to multiples of " << divisor);
  for (int v = 0; v <= 400; ++v) {
    int want = v;
    while (want % divisor) ++want;
    mc::step(4);
    mc::state(mc::mix(divisor, v) + 3);
    MC_EQ(arolla::RoundUp<int>(v, divisor), want, v << "/" << divisor);
    MC_EQ(arolla::RoundUp<size_t>(v, divisor), (size_t)want, v << "/" << divisor);
    MC_EQ(arolla::RoundUp<int64_t>(v + (1ll << 40) * divisor, divisor), want + (1ll << 40) * divisor, v << "/" << divisor);
    MC_EQ(arolla::RoundUp<uint32_t>(v, divisor), (uint32_t)want, v << "/" << divisor);
  }
}
MC_MAIN()
