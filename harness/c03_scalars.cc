// C03: conversions, byte sizes and bit decomposition of every scalar type.
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "concurrent.h"
#include "scalars.h"

using distributed_vector_ole::ScalarHelper;
using namespace sc;

namespace {
template <class T>
void Values(Ctx &c) {
  using H = ScalarHelper<T>;
  u128 mod = 0;
  if constexpr (std::is_same<T, NTL::ZZ_p>::value) {
    mod = c.Chance(1, 12) ? 0 : DrawModulus(c, 2, ~static_cast<u128>(0));
  } else if constexpr (std::is_same<T, NTL::zz_p>::value) {
    mod = DrawModulus(c, 2, NTL_SP_BOUND - 1);
  }
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  c.Desc() << Tr<T>::Name() << " over " << r.Str();
  const int bits = r.Bits();
  PBT_REQUIRE(c, static_cast<int>(H::SizeOf()) == r.Bytes(), "SizeOf() over " << r.Str() << " is " << H::SizeOf() << ", expected " << r.Bytes());
  int n = static_cast<int>(c.Range(1, 6));
  bool nt = false;
  for (int i = 0; i < n; i++) {
    u128 x = c.Bool() ? c.Bits128() : c.UpTo128(r.Max());
    if (r.n && c.Chance(1, 6)) {  // near multiples of the modulus
      x = r.n * (1 + c.Choice(5)) + static_cast<u128>(static_cast<__int128>(c.Range(-2, 2)));
    }
    u128 red = r.Red(x);
    c.Desc() << " " << Hex(x);
    nt |= red != x || red > 1;
    // integer -> scalar reduces modulo the size of the type
    const T t = H::FromUint128(ToAbsl(x));
    PBT_REQUIRE(c, Tr<T>::ToInt(t) == red, "FromUint128(" << Hex(x) << ") over " << r.Str() << " is " << Hex(Tr<T>::ToInt(t)) << ", expected " << Hex(red));
    // scalar -> integer returns the representative
    const T own = Tr<T>::FromInt(red);
    u128 back = FromAbsl(H::ToUint128(own));
    PBT_REQUIRE(c, back == red, "ToUint128 of " << Hex(red) << " over " << r.Str() << " is " << Hex(back));
    PBT_REQUIRE(c, FromAbsl(H::ToUint128(t)) == red, "round trip of " << Hex(x) << " over " << r.Str() << " is " << Hex(FromAbsl(H::ToUint128(t))));
    PBT_REQUIRE(c, t == own, "converted value differs from the same element");
    // bits recompose the value, in the type's own arithmetic and in ours
    T sum = Tr<T>::FromInt(0);
    u128 isum = 0;
    for (int k = 0; k < bits; k++) {
      bool b = H::GetBit(own, k);
      PBT_REQUIRE(c, b == static_cast<bool>((red >> k) & 1), "bit " << k << " of " << Hex(red) << " over " << r.Str() << " reported as " << b);
      T s = H::SetBit(k);
      u128 want = static_cast<u128>(1) << k;  // k < bits: canonical unless N-1 < 2^k
      want = r.gf ? want : r.Red(want);
      PBT_REQUIRE(c, Tr<T>::ToInt(s) == want, "SetBit(" << k << ") over " << r.Str() << " is " << Hex(Tr<T>::ToInt(s)) << ", expected " << Hex(want));
      if (b) {
        sum += s;
        isum = r.Add(isum, Tr<T>::ToInt(s));
      }
    }
    PBT_REQUIRE(c, isum == red && sum == own, "bits of " << Hex(red) << " over " << r.Str() << " recompose to " << Hex(isum));
    // Positions that exist in the byte representation but not in the value.
    for (int k = bits; k < 8 * r.Bytes() && k < (std::is_same<T, NTL::zz_p>::value ? 63 : 128); k++) {
      PBT_REQUIRE(c, !H::GetBit(own, k), "bit " << k << " of " << Hex(red) << " over " << r.Str() << " reported as set");
      PBT_REQUIRE(c, Tr<T>::ToInt(H::SetBit(k)) == r.Red(static_cast<u128>(1) << k), "SetBit(" << k << ") over " << r.Str());
    }
  }
  c.NonTrivial(nt);
}

// Every value of the small types.
void All8(Ctx &c) {
  u128 v = c.Index(256);
  c.Desc() << "uint8 " << Dec(v);
  c.NonTrivial(v > 1);
  uint8_t t = ScalarHelper<uint8_t>::FromUint128(ToAbsl(v));
  PBT_REQUIRE(c, t == v && FromAbsl(ScalarHelper<uint8_t>::ToUint128(t)) == v, "uint8 conversion of " << Dec(v));
  uint8_t s = 0;
  for (int k = 0; k < 8; k++)
    if (ScalarHelper<uint8_t>::GetBit(t, k)) s += ScalarHelper<uint8_t>::SetBit(k);
  PBT_REQUIRE(c, s == v, "uint8 bits of " << Dec(v) << " give " << int(s));
}

// All values of all small moduli, alternating between moduli.
template <class T>
void SmallModuli(Ctx &c) {
  using H = ScalarHelper<T>;
  u128 n = 2 + c.Index(299);
  Tr<T>::Install(n);
  Ring r = RingFor<T>(n);
  c.Desc() << Tr<T>::Name() << " all values mod " << Dec(n);
  c.NonTrivial();
  PBT_REQUIRE(c, H::SizeOf() == r.Bytes(), "SizeOf() for modulus " << Dec(n) << " is " << H::SizeOf());
  for (u128 v = 0; v < 2 * n; v++) {
    T t = H::FromUint128(ToAbsl(v));
    PBT_REQUIRE(c, Tr<T>::ToInt(t) == v % n && FromAbsl(H::ToUint128(t)) == v % n, "conversion of " << Dec(v) << " mod " << Dec(n));
    T s = Tr<T>::FromInt(0);
    for (int k = 0; k < r.Bits(); k++)
      if (H::GetBit(t, k)) s += H::SetBit(k);
    PBT_REQUIRE(c, s == t, "bits of " << Dec(v) << " mod " << Dec(n) << " give " << Dec(Tr<T>::ToInt(s)));
  }
}

// Moduli that do not fit into 128 bits, next to ones that do.
void WideModuli(Ctx &c) {
  using H = ScalarHelper<NTL::ZZ_p>;
  int n = static_cast<int>(c.Range(1, 4));
  for (int rep = 0; rep < n; rep++) {
    int bits = static_cast<int>(c.Chance(1, 8) ? c.Range(300, 1100) : c.Range(100, 300));
    NTL::ZZ m = NTL::power2_ZZ(bits - 1);
    switch (c.Choice(3)) {
      case 0: m += NTL::ZZ(static_cast<long>(c.Range(-3, 3))); break;
      case 1: m += NTL::power2_ZZ(static_cast<long>(c.Choice(bits - 2))); break;
      default:
        for (int i = 0; i + 64 < bits; i += 64) m += NTL::conv<NTL::ZZ>(c.U64()) << i;
    }
    NTL::ZZ_p::init(m);
    const long nb = NTL::NumBits(m - 1);
    c.Desc() << " mod " << m;
    c.NonTrivial(nb > 128);
    PBT_REQUIRE(c, H::SizeOf() == (nb + 7) / 8, "SizeOf() modulo " << m << " is " << H::SizeOf() << ", expected " << (nb + 7) / 8);
    u128 x = c.Bits128();
    NTL::ZZ zx = ToZZ(x), red = zx % m;
    const NTL::ZZ_p t = H::FromUint128(ToAbsl(x));
    PBT_REQUIRE(c, NTL::rep(t) == red, "FromUint128(" << Hex(x) << ") modulo " << m << " is " << NTL::rep(t));
    PBT_REQUIRE(c, FromAbsl(H::ToUint128(t)) == FromZZ(red), "round trip of " << Hex(x) << " modulo " << m);
    // A value above 128 bits: the bits still recompose it.
    NTL::ZZ v = (m - 1) - zx % m;
    const NTL::ZZ_p w = NTL::conv<NTL::ZZ_p>(v);
    NTL::ZZ_p sum;
    for (long k = 0; k < 8 * H::SizeOf(); k++) {
      bool b = H::GetBit(w, static_cast<int>(k));
      PBT_REQUIRE(c, b == (NTL::bit(v, k) != 0), "bit " << k << " of " << v << " modulo " << m << " reported as " << b);
      const NTL::ZZ_p s = H::SetBit(static_cast<int>(k));
      PBT_REQUIRE(c, NTL::rep(s) == NTL::power2_ZZ(k) % m, "SetBit(" << k << ") modulo " << m << " is " << NTL::rep(s));
      if (b) sum += s;
    }
    PBT_REQUIRE(c, sum == w, "bits of " << v << " modulo " << m << " recompose to " << sum);
    if (v < NTL::power2_ZZ(128)) PBT_REQUIRE(c, FromAbsl(H::ToUint128(w)) == FromZZ(v), "ToUint128 of " << v << " modulo " << m);
  }
}
// Conversions on several threads at the same time, each with its own modulus.
template <class T>
std::string Convert(const Ring &r, const std::vector<u128> &v, int rounds) {
  using H = ScalarHelper<T>;
  Tr<T>::Install(r.n);
  const Ring own = RingFor<T>(r.n);
  for (int i = 0; i < rounds; i++)
    for (u128 x : v) {
      const T t = H::FromUint128(ToAbsl(x));
      const u128 red = own.Red(x);
      if (Tr<T>::ToInt(t) != red || FromAbsl(H::ToUint128(t)) != red) return std::string(Tr<T>::Name()) + " over " + own.Str() + ": conversion of " + Hex(x) + " gives " + Hex(Tr<T>::ToInt(t));
      if (static_cast<int>(H::SizeOf()) != own.Bytes()) return std::string(Tr<T>::Name()) + " over " + own.Str() + ": size " + std::to_string(H::SizeOf());
      T sum = Tr<T>::FromInt(0);
      for (int k = 0; k < own.Bits(); k++)
        if (H::GetBit(t, k)) sum += H::SetBit(k);
      if (!(sum == t)) return std::string(Tr<T>::Name()) + " over " + own.Str() + ": bits of " + Hex(red) + " recompose to " + Hex(Tr<T>::ToInt(sum));
    }
  return "";
}
void ConcurrentUse(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8));
  struct Job {
    int type;
    u128 mod;
    std::vector<u128> v;
  };
  std::vector<Job> jobs(nt);
  bool same = c.Bool();
  for (auto &j : jobs) {
    j.type = same && &j != &jobs[0] ? jobs[0].type : static_cast<int>(c.Choice(4));
    j.mod = j.type == 1 ? DrawModulus(c, 2, NTL_SP_BOUND - 1) : DrawModulus(c, 2, ~static_cast<u128>(0));
    for (int i = 0; i < 8; i++) j.v.push_back(c.Bits128());
    c.Desc() << " [type " << j.type << " mod " << Dec(j.mod) << "]";
  }
  c.NonTrivial();
  int rounds = pbt::Sanitized() ? 3 : 12;
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    const Job &j = jobs[t];
    Ring r = RingFor<NTL::ZZ_p>(j.mod);
    switch (j.type) {
      case 0: return Convert<NTL::ZZ_p>(r, j.v, rounds);
      case 1: return Convert<NTL::zz_p>(r, j.v, rounds);
      case 2: return Convert<gf128>(r, j.v, rounds);
      case 3: return Convert<uint64_t>(r, j.v, rounds);
      default: return Convert<absl::uint128>(r, j.v, rounds);
    }
  });
  if (!err.empty()) c.Fail(err);
}

pbt::Register r0{{"scalar_uint8_all", All8, 0, 0, 256}};
pbt::Register r1{{"scalar_uint8", Values<uint8_t>, 10000, 400000, 0, -1, 0.1}};
pbt::Register r2{{"scalar_uint16", Values<uint16_t>, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r3{{"scalar_uint32", Values<uint32_t>, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r4{{"scalar_uint64", Values<uint64_t>, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r5{{"scalar_uint128", Values<absl::uint128>, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r6{{"scalar_gf128", Values<gf128>, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r7{{"scalar_ZZ_p", Values<NTL::ZZ_p>, 240000, 2500000, 0, -1, 0.06}};
pbt::Register r8{{"scalar_zz_p", Values<NTL::zz_p>, 200000, 2000000, 0, -1, 0.06}};
pbt::Register r9{{"scalar_ZZ_p_small", SmallModuli<NTL::ZZ_p>, 100, 1000, 299}};
pbt::Register r10{{"scalar_zz_p_small", SmallModuli<NTL::zz_p>, 100, 1000, 299}};
pbt::Register r11{{"scalar_ZZ_p_wide", WideModuli, 20000, 300000, 0, -1, 0.1}};
pbt::Register r12{{"scalar_concurrent", ConcurrentUse, 400, 10000, 0, -1, 0.2}};
}  // namespace
