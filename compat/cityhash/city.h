// Compatibility stand-in for google/cityhash (not available offline): same API
// and the same construction (128-bit seeded hash of a byte string).
#ifndef VERIF_COMPAT_CITY_H_
#define VERIF_COMPAT_CITY_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
namespace third_party_cityhash {
typedef uint64_t uint64;
typedef std::pair<uint64, uint64> uint128;
inline uint64 verif_mix(uint64 h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
inline uint64 verif_rot(uint64 v, int s) { return (v << s) | (v >> (64 - s)); }
inline uint128 CityHash128WithSeed(const char* s, size_t len, uint128 seed) {
  uint64 a = seed.first, b = seed.second ^ 0x9ae16a3b2f90404fULL;
  const uint64 total = len;
  while (len >= 8) {
    uint64 v; std::memcpy(&v, s, 8); s += 8; len -= 8;
    a ^= verif_rot(v * 0x87c37b91114253d5ULL, 31) * 0x4cf5ad432745937fULL;
    a = verif_rot(a, 27) + b; a = a * 5 + 0x52dce729;
    b ^= verif_rot(v * 0x4cf5ad432745937fULL, 33) * 0x87c37b91114253d5ULL;
    b = verif_rot(b, 31) + a; b = b * 5 + 0x38495ab5;
  }
  uint64 v = 0; if (len) std::memcpy(&v, s, len);
  a ^= verif_mix(v + 0x9e3779b97f4a7c15ULL * (len + 1)); b ^= verif_mix(v ^ a);
  a ^= total; b ^= total * 0xb492b66fbe98f273ULL;
  a += b; b += a; a = verif_mix(a); b = verif_mix(b); a += b; b += a;
  return uint128(a, b);
}
inline uint64 CityHash64WithSeed(const char* s, size_t len, uint64 seed) {
  auto r = CityHash128WithSeed(s, len, uint128(seed, 0x1234567));
  return r.first ^ r.second;
}
}  // namespace third_party_cityhash
#endif
