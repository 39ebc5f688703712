// C05: the hash-suitability test against exact integer arithmetic.
#include <cmath>

#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "scalars.h"

using distributed_vector_ole::ScalarHelper;
using namespace sc;

namespace {
// 1 yes, 0 no, -1 too close to the limit for double arithmetic.
int Expected(const NTL::ZZ &n, int h, double s) {
  NTL::ZZ rem = NTL::power2_ZZ(h) % n;
  if (NTL::IsZero(rem)) return 1;
  long nb = NTL::NumBits(rem);
  bool pow2 = rem == NTL::power2_ZZ(nb - 1);
  if (pow2 && s == std::floor(s) && s < 1000) return (nb - 1) < h - static_cast<long>(s);
  // log2(rem) in extended precision: leading 64 bits
  NTL::ZZ top = nb > 64 ? rem >> (nb - 64) : rem;
  long double l = std::log2(static_cast<long double>(NTL::conv<uint64_t>(top))) + (nb > 64 ? nb - 64 : 0);
  long double d = h - l - s;
  if (std::fabs(static_cast<double>(d)) < 1e-9) return -1;
  return d > 0;
}

double DrawSecurity(Ctx &c, const NTL::ZZ &n, int h) {
  switch (c.Choice(5)) {
    case 0: return static_cast<double>(c.Choice(128));
    case 1: return static_cast<double>(c.Range(0, 60));
    case 2: {  // around the exact limit
      NTL::ZZ rem = NTL::power2_ZZ(h) % n;
      long nb = NTL::NumBits(rem);
      double v = static_cast<double>(h - nb) + static_cast<double>(c.Range(-1, 2));
      return v < 0 ? 0 : v;
    }
    case 3: {
      NTL::ZZ rem = NTL::power2_ZZ(h) % n;
      if (NTL::IsZero(rem)) return 40;
      double v = h - std::log2(NTL::conv<double>(rem)) + (static_cast<double>(c.Range(-8, 8))) / 1024;
      return v < 0 ? 0 : v;
    }
    case 4: return static_cast<double>(c.Choice(128 * 64)) / 64;
    default: return 40;
  }
}

template <class T>
void Check(Ctx &c, const NTL::ZZ &n, int h, double s, bool def_h, bool def_s) {
  using H = ScalarHelper<T>;
  if (def_h) h = 128;
  if (def_h && def_s) s = 40;
  int want = Expected(n, h, s);
  bool got = def_h && def_s ? H::CanBeHashedInto() : def_h ? H::CanBeHashedInto(s) : H::CanBeHashedInto(s, h);
  c.Desc() << Tr<T>::Name() << " N=" << n << " h=" << h << " s=" << s;
  c.NonTrivial(want >= 0 && NTL::power2_ZZ(h) >= n);
  if (want < 0) {
    c.Label("at the limit");
    return;
  }
  c.Label(want ? "suitable" : "unsuitable");
  PBT_REQUIRE(c, got == static_cast<bool>(want), "CanBeHashedInto(" << s << ", " << h << ") for " << Tr<T>::Name() << " with " << n << " elements is " << got << ", expected " << want);
}

void Big(Ctx &c) {
  NTL::ZZ n;
  switch (c.Choice(5)) {
    case 0: n = (NTL::ZZ(1) << static_cast<long>(c.Range(100, 300))) + static_cast<long>(c.Range(-3, 3)); break;
    case 1: {  // divisors and near-divisors of 2^h +- d: small remainders
      int h = static_cast<int>(c.Range(1, 128));
      NTL::ZZ q(1 + c.Choice(200));
      n = (NTL::power2_ZZ(h) - static_cast<long>(c.Range(-100, 100))) / q;
      break;
    }
    case 2: n = (NTL::power2_ZZ(static_cast<long>(c.Range(1, 160)))); break;
    case 3: n = NTL::power2_ZZ(128) + ToZZ(c.Bits128()); break;
    default: n = ToZZ(DrawModulus(c, 2, ~static_cast<u128>(0)));
  }
  if (n < 2) n = 2;
  int h = static_cast<int>(c.Bool() ? 128 : c.Range(1, 128));
  double s = DrawSecurity(c, n, h);
  bool dh = c.Chance(1, 4), ds = c.Chance(1, 4);
  NTL::ZZ_p::init(n);
  Check<NTL::ZZ_p>(c, n, h, s, dh, ds);
}
void Small(Ctx &c) {
  u128 n;
  if (c.Bool()) {
    int h = static_cast<int>(c.Range(1, 61));
    n = ((static_cast<u128>(1) << h) + static_cast<u128>(static_cast<__int128>(c.Range(-60, 60)))) / (1 + c.Choice(60));
    if (n < 2 || n >= NTL_SP_BOUND) n = 2;
  } else {
    n = DrawModulus(c, 2, NTL_SP_BOUND - 1);
  }
  int h = static_cast<int>(c.Bool() ? c.Range(1, 128) : c.Range(1, 64));
  NTL::ZZ z = ToZZ(n);
  double s = DrawSecurity(c, z, h);
  bool dh = c.Chance(1, 4), ds = c.Chance(1, 4);
  NTL::zz_p::init(static_cast<long>(n));
  Check<NTL::zz_p>(c, z, h, s, dh, ds);
}
// Every small modulus with every hash length: the single- and multi-precision
// types agree with exact arithmetic.
void AllSmall(Ctx &c) {
  long n = 2 + static_cast<long>(c.Index(255));
  NTL::ZZ_p::init(NTL::ZZ(n));
  NTL::zz_p::init(n);
  c.Desc() << "modulus " << n << ", all hash lengths, security 0-64";
  c.NonTrivial();
  for (int h = 1; h <= 128; h++)
    for (int s = 0; s <= 64; s += (h + s) % 3 + 1) {
      int want = Expected(NTL::ZZ(n), h, s);
      if (want < 0) continue;
      bool a = ScalarHelper<NTL::ZZ_p>::CanBeHashedInto(s, h), b = ScalarHelper<NTL::zz_p>::CanBeHashedInto(s, h);
      PBT_REQUIRE(c, a == static_cast<bool>(want) && b == static_cast<bool>(want),
                  "CanBeHashedInto(" << s << ", " << h << ") mod " << n << ": multi-precision " << a << ", single-precision " << b << ", expected " << want);
    }
}
template <class T>
void Fixed(Ctx &c, int bits, int h, double s) {
  bool want = h >= bits;  // otherwise the remainder is 2^h itself
  bool got = ScalarHelper<T>::CanBeHashedInto(s, h);
  PBT_REQUIRE(c, got == want, "CanBeHashedInto(" << s << ", " << h << ") for " << Tr<T>::Name() << " is " << got);
  PBT_REQUIRE(c, ScalarHelper<T>::CanBeHashedInto() && ScalarHelper<T>::CanBeHashedInto(s), "128-bit hashes rejected for " << Tr<T>::Name());
}
void NonModular(Ctx &c) {
  int h = 1 + static_cast<int>(c.Index(128));
  c.Desc() << "non-modular types, " << h << " hash bits";
  c.NonTrivial();
  for (int s = 0; s < 130; s++) {
    Fixed<uint8_t>(c, 8, h, s);
    Fixed<uint16_t>(c, 16, h, s);
    Fixed<uint32_t>(c, 32, h, s);
    Fixed<uint64_t>(c, 64, h, s);
    Fixed<absl::uint128>(c, 128, h, s);
    Fixed<gf128>(c, 128, h, s);
  }
}
pbt::Register r1{{"hashable_ZZ_p", Big, 2500000, 40000000, 0, -1, 0.05}};
pbt::Register r2{{"hashable_zz_p", Small, 2000000, 30000000, 0, -1, 0.05}};
pbt::Register r3{{"hashable_small_moduli", AllSmall, 0, 0, 255}};
pbt::Register r4{{"hashable_non_modular", NonModular, 0, 0, 128}};
}  // namespace
