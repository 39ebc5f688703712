// The scalar types of the library described independently of its own helpers:
// exact ring arithmetic on canonical representatives (128-bit integers).
#ifndef VERIF_SCALARS_H_
#define VERIF_SCALARS_H_
#include <gmp.h>

#include <cstring>
#include <string>

#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "distributed_vector_ole/gf128.h"
#include "gf_ref.h"
#include "pbt.h"

namespace sc {
using distributed_vector_ole::gf128;
using pbt::Ctx;
using pbt::Dec;
using pbt::Hex;
using pbt::u128;

inline absl::uint128 ToAbsl(u128 v) { return absl::MakeUint128(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); }
inline u128 FromAbsl(absl::uint128 v) { return static_cast<u128>(absl::Uint128High64(v)) << 64 | absl::Uint128Low64(v); }
inline NTL::ZZ ToZZ(u128 v) {
  unsigned char b[16];
  std::memcpy(b, &v, 16);
  return NTL::ZZFromBytes(b, 16);
}
inline u128 FromZZ(const NTL::ZZ &z) {  // low 128 bits
  unsigned char b[16];
  NTL::BytesFromZZ(b, z, 16);
  u128 v;
  std::memcpy(&v, b, 16);
  return v;
}
inline int BitLen(u128 v) {
  int n = 0;
  while (v) n++, v >>= 1;
  return n;
}

// A ring of `n` elements (0: 2^128); field of characteristic two if `gf`.
struct Ring {
  u128 n = 0;
  bool gf = false;
  u128 Red(u128 v) const { return n ? v % n : v; }
  u128 Add(u128 a, u128 b) const {
    if (gf) return a ^ b;
    if (!n) return a + b;
    return a >= n - b ? a - (n - b) : a + b;  // canonical operands
  }
  u128 Neg(u128 a) const { return gf ? a : a == 0 ? 0 : n ? n - a : -a; }
  u128 Sub(u128 a, u128 b) const { return Add(a, Neg(b)); }
  u128 Mul(u128 a, u128 b) const {
    if (gf) return gfref::Mul(a, b);
    if (!n) return a * b;
    if ((a >> 64) == 0 && (b >> 64) == 0) return a * b % n;
    mp_limb_t x[2] = {static_cast<mp_limb_t>(a), static_cast<mp_limb_t>(a >> 64)}, y[2] = {static_cast<mp_limb_t>(b), static_cast<mp_limb_t>(b >> 64)},
              p[4], m[2] = {static_cast<mp_limb_t>(n), static_cast<mp_limb_t>(n >> 64)}, q[4], r[2] = {0, 0};
    mpn_mul_n(p, x, y, 2);
    mpn_tdiv_qr(q, r, 0, p, 4, m, m[1] ? 2 : 1);
    return m[1] ? (static_cast<u128>(r[1]) << 64 | r[0]) : r[0];
  }
  u128 Max() const { return n ? n - 1 : ~static_cast<u128>(0); }
  int Bits() const { return BitLen(Max()); }
  int Bytes() const { return (Bits() + 7) / 8; }
  std::string Str() const { return gf ? "GF(2^128)" : n ? "Z/" + Dec(n) : "Z/2^128"; }
};

enum Kind { kU8, kU16, kU32, kU64, kU128, kGf, kZZp, kzzp };

template <class T>
struct Tr {  // unsigned integers
  static constexpr bool kModular = false;
  static constexpr int kBits = 8 * sizeof(T);
  static const char *Name() { return sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64"; }
  static Ring Get() { return Ring{static_cast<u128>(1) << kBits, false}; }
  static void Install(u128) {}
  static u128 ToInt(const T &x) { return static_cast<u128>(x); }
  static T FromInt(u128 v) { return static_cast<T>(v); }
};
template <>
struct Tr<absl::uint128> {
  static constexpr bool kModular = false;
  static const char *Name() { return "uint128"; }
  static Ring Get() { return Ring{0, false}; }
  static void Install(u128) {}
  static u128 ToInt(const absl::uint128 &x) { return FromAbsl(x); }
  static absl::uint128 FromInt(u128 v) { return ToAbsl(v); }
};
template <>
struct Tr<gf128> {
  static constexpr bool kModular = false;
  static const char *Name() { return "gf128"; }
  static Ring Get() { return Ring{0, true}; }
  static void Install(u128) {}
  static u128 ToInt(const gf128 &x) {
    u128 v;
    static_assert(sizeof(gf128) == 16, "");
    std::memcpy(&v, static_cast<const void *>(&x), 16);
    return v;
  }
  static gf128 FromInt(u128 v) { return gf128(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); }
};
template <>
struct Tr<NTL::ZZ_p> {
  static constexpr bool kModular = true;
  static const char *Name() { return "ZZ_p"; }
  static void Install(u128 n) { NTL::ZZ_p::init(n ? ToZZ(n) : NTL::power2_ZZ(128)); }
  static u128 ToInt(const NTL::ZZ_p &x) { return FromZZ(NTL::rep(x)); }
  static NTL::ZZ_p FromInt(u128 v) { return NTL::conv<NTL::ZZ_p>(ToZZ(v)); }
};
template <>
struct Tr<NTL::zz_p> {
  static constexpr bool kModular = true;
  static const char *Name() { return "zz_p"; }
  static void Install(u128 n) { NTL::zz_p::init(static_cast<long>(n)); }
  static u128 ToInt(const NTL::zz_p &x) { return static_cast<u128>(NTL::rep(x)); }
  static NTL::zz_p FromInt(u128 v) { return NTL::to_zz_p(static_cast<long>(v)); }
};

// Draws a modulus with the given maximal value (at least 2): primes and
// composites, around powers of two, and arbitrary.
inline u128 DrawModulus(Ctx &c, u128 lo, u128 hi) {
  u128 v;
  int bits = BitLen(hi);
  switch (c.Choice(6)) {
    case 0: v = lo + c.Choice(20); break;
    case 1: {
      static const uint64_t known[] = {65537, 4294967291ull, 4294967311ull, 2305843009213693951ull, 1152921504606846883ull, 1099511627689ull, 2147483647ull, 251, 257, 1073741789ull};
      v = known[c.Choice(9)];
      break;
    }
    case 2: {
      int k = static_cast<int>(c.Range(1, bits - 1 > 1 ? bits - 1 : 1));
      int64_t d = c.Range(-3, 3);
      v = (static_cast<u128>(1) << k) + static_cast<u128>(static_cast<__int128>(d));
      break;
    }
    case 3: v = hi - c.UpTo128(300); break;
    case 4: {  // sparse
      v = 0;
      int m = static_cast<int>(c.Range(1, 5));
      for (int i = 0; i < m; i++) v |= static_cast<u128>(1) << c.Choice(127);
      break;
    }
    case 5: {
      int k = static_cast<int>(c.Range(1, bits));
      v = c.Bits128();
      if (k < 128) v &= (static_cast<u128>(1) << k) - 1;
      break;
    }
    default: v = c.Bits128();
  }
  if (v < lo || v > hi) v = lo + (hi - lo == ~static_cast<u128>(0) ? v : v % (hi - lo + 1));
  return v;
}

// 128-bit primes and other moduli that are admissible for hashing (40 bits).
inline u128 DrawHashableModulus(Ctx &c, bool single_precision) {
  if (single_precision) {
    // 2^128 mod N < N <= 2^60: always admissible.
    return DrawModulus(c, 2, (static_cast<u128>(1) << 60) - 1);
  }
  switch (c.Choice(4)) {
    case 0: return DrawModulus(c, 2, (static_cast<u128>(1) << 87));
    case 1: return static_cast<u128>(0) - 159;  // 2^128 - 159 (prime)
    case 2: return static_cast<u128>(0) - (1 + c.Choice((1ull << 40)));
    case 3: return static_cast<u128>(1) << c.Range(1, 127);
    default: return 0;  // 2^128
  }
}

template <class T>
Ring RingFor(u128 modulus) {
  if constexpr (Tr<T>::kModular) return Ring{modulus, false};
  else return Tr<T>::Get();
}

inline u128 DrawElement(Ctx &c, const Ring &r) { return c.UpTo128(r.Max()); }
}  // namespace sc
#endif
