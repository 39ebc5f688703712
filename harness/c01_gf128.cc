// C01: register-machine programs over field elements against reference
// polynomial arithmetic.
#include <array>
#include "concurrent.h"
#include "distributed_vector_ole/gf128.h"
#include "gf_ref.h"

using distributed_vector_ole::gf128;
using pbt::Ctx;
using pbt::u128;

namespace {
u128 Val(const gf128 &x) {
  absl::uint128 v = static_cast<absl::uint128>(x);
  return static_cast<u128>(absl::Uint128High64(v)) << 64 | absl::Uint128Low64(v);
}
gf128 Make(u128 v) { return gf128(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); }

// Element of the subfield with 2^k elements, k a power of two.
u128 Subfield(u128 a, int k) {
  // a^((2^128-1)/(2^k-1)) = a * a^(2^k) * a^(2^2k) * ...
  u128 r = 1;
  for (int i = 0; i < 128 / k; i++) {
    r = gfref::Mul(r, a);
    for (int j = 0; j < k; j++) a = gfref::Mul(a, a);
  }
  return r;
}
u128 DrawElement(Ctx &c) {
  switch (c.Choice(9)) {
    case 0: return c.Choice(4);
    case 1: return static_cast<u128>(1) << c.Choice(127);
    case 2: {  // one half only
      u128 v = c.U64();
      return c.Bool() ? v : v << 64;
    }
    case 3: {  // a run of ones, or its complement
      int n = static_cast<int>(c.Range(1, 127)), at = static_cast<int>(c.Choice(127));
      u128 v = ((static_cast<u128>(1) << n) - 1) << at;
      return c.Bool() ? v : ~v;
    }
    case 4: {  // repeated words
      u128 v = c.U64();
      int bits = 64 >> c.Choice(3);
      v &= (static_cast<u128>(1) << bits) - 1;
      for (int i = bits; i < 128; i *= 2) v |= v << i;
      return v;
    }
    case 5:
      if (c.Chance(1, 3)) return Subfield(c.Bits128(), 64 >> c.Choice(5));
      return c.Bits128();
    default: return c.Bits128();
  }
}
// Elements related to `a`.
u128 DrawSecond(Ctx &c, u128 a) {
  switch (c.Choice(11)) {
    case 0: return a;
    case 1: return gfref::Inv(a);
    case 2: return gfref::Mul(gfref::Inv(a), c.Choice(255));
    case 3: return a ^ (static_cast<u128>(1) << c.Choice(127));
    case 4: return ~a;
    case 5: return (a << 64) | (a >> 64);
    case 6: return gfref::Mul(a, a);
    default: return DrawElement(c);
  }
}

void CheckAll(Ctx &c, u128 a, u128 b) {
  gf128 x = Make(a), y = Make(b);
  auto eq = [&](const char *op, const gf128 &got, u128 want) {
    PBT_REQUIRE(c, Val(got) == want, op << " of a=" << pbt::Hex(a) << " b=" << pbt::Hex(b) << " gives " << pbt::Hex(Val(got)) << ", expected "
                                        << pbt::Hex(want));
  };
  u128 prod = gfref::Mul(a, b);
  eq("a*b", x * y, prod);
  eq("b*a", y * x, prod);
  gf128 t = x;
  gf128 &r = (t *= y);
  eq("a*=b", t, prod);
  PBT_REQUIRE(c, &r == &t, "a*=b does not return a reference to a");
  eq("operand of a*=b", y, b);
  eq("a+b", x + y, a ^ b);
  eq("a-b", x - y, a ^ b);
  t = x;
  PBT_REQUIRE(c, &(t += y) == &t, "a+=b does not return a reference to a");
  eq("a+=b", t, a ^ b);
  t = x;
  PBT_REQUIRE(c, &(t -= y) == &t, "a-=b does not return a reference to a");
  eq("a-=b", t, a ^ b);
  eq("-a", -x, a);
  eq("a unchanged", x, a);
  eq("b unchanged", y, b);
}

void Monomials(Ctx &c) {
  uint64_t k = c.Index(128 * 128);
  int i = k / 128, j = k % 128;
  c.NonTrivial(i + j >= 128);
  c.Label(i + j >= 128 ? "reduction needed" : "no reduction");
  c.Desc() << "x^" << i << " * x^" << j;
  CheckAll(c, static_cast<u128>(1) << i, static_cast<u128>(1) << j);
}

void Unary(Ctx &c) {
  // zero, all monomials, all ones, single holes, then random
  uint64_t k = c.Index(512);
  u128 a;
  if (k == 0) a = 0;
  else if (k <= 128) a = static_cast<u128>(1) << (k - 1);
  else if (k <= 256) a = ~(static_cast<u128>(1) << (k - 129));
  else if (k == 257) a = ~static_cast<u128>(0);
  else a = DrawElement(c);
  c.Desc() << "unary operations on " << pbt::Hex(a);
  c.NonTrivial(a > 1);
  gf128 x = Make(a);
  u128 inv = gfref::Inv(a);
  if (a) PBT_REQUIRE(c, gfref::Mul(a, inv) == 1, "reference inverse is wrong (harness error)");
  PBT_REQUIRE(c, Val(x.inverse()) == inv, "inverse of " << pbt::Hex(a) << " gives " << pbt::Hex(Val(x.inverse())) << ", expected " << pbt::Hex(inv));
  u128 sq = gfref::Mul(a, a);
  PBT_REQUIRE(c, Val(x.squared()) == sq, "squared(" << pbt::Hex(a) << ") gives " << pbt::Hex(Val(x.squared())) << ", expected " << pbt::Hex(sq));
  PBT_REQUIRE(c, Val(x) == a, "operand changed by inverse() or squared()");
  gf128 t = x;
  t.square();
  PBT_REQUIRE(c, Val(t) == sq, "square() of " << pbt::Hex(a) << " gives " << pbt::Hex(Val(t)) << ", expected " << pbt::Hex(sq));
  t = x;
  t *= t;
  PBT_REQUIRE(c, Val(t) == sq, "a*=a of " << pbt::Hex(a) << " gives " << pbt::Hex(Val(t)) << ", expected " << pbt::Hex(sq));
  t = x;
  t += t;
  PBT_REQUIRE(c, Val(t) == 0, "a+=a of " << pbt::Hex(a) << " gives " << pbt::Hex(Val(t)));
  t = x;
  t -= t;
  PBT_REQUIRE(c, Val(t) == 0, "a-=a of " << pbt::Hex(a) << " gives " << pbt::Hex(Val(t)));
  PBT_REQUIRE(c, x.is_zero() == (a == 0), "is_zero(" << pbt::Hex(a) << ")");
  PBT_REQUIRE(c, (x - x).is_zero() && (x + x).is_zero() && Val(x * x) == sq, "value forms with both operands the same object");
}

void Pairs(Ctx &c) {
  u128 a = DrawElement(c), b = DrawSecond(c, a);
  c.NonTrivial(a > 1 && b > 1);
  c.Desc() << "a=" << pbt::Hex(a) << " b=" << pbt::Hex(b);
  CheckAll(c, a, b);
}

// Programs over registers; every register is compared after every step, so a
// change of an operand or of an unrelated object is seen as well.
void Machine(Ctx &c) {
  int nreg = static_cast<int>(c.Range(2, 5));
  std::vector<gf128> reg;
  std::vector<u128> ref;
  c.Desc() << "regs:";
  for (int i = 0; i < nreg; i++) {
    ref.push_back(DrawElement(c));
    reg.push_back(Make(ref.back()));
    c.Desc() << " " << pbt::Hex(ref.back());
  }
  int steps = static_cast<int>(c.Size(1, 40));
  static const char *names[] = {"*=", "*", "+=", "+", "-=", "-", "neg", "square", "squared", "inverse", "assign", "load"};
  c.Desc() << "; program:";
  int mults = 0, alias = 0;
  for (int s = 0; s < steps; s++) {
    int op = static_cast<int>(c.Choice(11));
    int a = static_cast<int>(c.Choice(nreg - 1)), b = static_cast<int>(c.Choice(nreg - 1)), d = static_cast<int>(c.Choice(nreg - 1));
    c.Desc() << " r" << d << (op == 0 || op == 2 || op == 4 ? "" : "=r" + std::to_string(a)) << names[op] << "r" << b << ";";
    switch (op) {
      case 0: reg[d] *= reg[b]; ref[d] = gfref::Mul(ref[d], ref[b]); mults++; alias += d == b; break;
      case 1: reg[d] = reg[a] * reg[b]; ref[d] = gfref::Mul(ref[a], ref[b]); mults++; alias += a == b; break;
      case 2: reg[d] += reg[b]; ref[d] ^= ref[b]; alias += d == b; break;
      case 3: reg[d] = reg[a] + reg[b]; ref[d] = ref[a] ^ ref[b]; break;
      case 4: reg[d] -= reg[b]; ref[d] ^= ref[b]; alias += d == b; break;
      case 5: reg[d] = reg[a] - reg[b]; ref[d] = ref[a] ^ ref[b]; break;
      case 6: reg[d] = -reg[a]; ref[d] = ref[a]; break;
      case 7: reg[d].square(); ref[d] = gfref::Mul(ref[d], ref[d]); mults++; break;
      case 8: reg[d] = reg[a].squared(); ref[d] = gfref::Mul(ref[a], ref[a]); mults++; break;
      case 9: reg[d] = reg[a].inverse(); ref[d] = gfref::Inv(ref[a]); mults++; break;
      case 10: reg[d] = reg[a]; ref[d] = ref[a]; break;
      default: ref[d] = DrawElement(c); reg[d] = Make(ref[d]); break;
    }
    for (int i = 0; i < nreg; i++)
      PBT_REQUIRE(c, Val(reg[i]) == ref[i], "after step " << s << " (" << names[op] << ") register " << i << " holds " << pbt::Hex(Val(reg[i]))
                                                          << ", expected " << pbt::Hex(ref[i]));
    for (int i = 0; i < nreg; i++)
      PBT_REQUIRE(c, (reg[i] == reg[d]) == (ref[i] == ref[d]) && (reg[i] != reg[d]) == (ref[i] != ref[d]), "comparison disagrees with values");
  }
  c.NonTrivial(mults >= 2);
  if (alias) c.Label("aliased operands");
}

// Unaligned storage: elements anywhere in memory.
void Unaligned(Ctx &c) {
  alignas(64) unsigned char buf[128];
  size_t oa = c.Choice(6) * 8, ob = 64 + c.Choice(5) * 8;
  u128 a = DrawElement(c), b = DrawElement(c);
  gf128 *x = new (buf + oa) gf128(Make(a)), *y = new (buf + ob) gf128(Make(b));
  c.Desc() << "8-byte aligned operands at offsets " << oa << "," << ob << " a=" << pbt::Hex(a) << " b=" << pbt::Hex(b);
  c.NonTrivial(oa % 16 != 0 || ob % 16 != 0);
  *x *= *y;
  PBT_REQUIRE(c, Val(*x) == gfref::Mul(a, b), "product of elements that are not 16-byte aligned is wrong");
  gf128 z = y->inverse();
  PBT_REQUIRE(c, Val(z) == gfref::Inv(b), "inverse of an element that is not 16-byte aligned is wrong");
  *y += *x;
  PBT_REQUIRE(c, Val(*y) == (b ^ gfref::Mul(a, b)), "sum of elements that are not 16-byte aligned is wrong");
}

// Arithmetic on several threads at the same time.
void ConcurrentUse(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8));
  std::vector<std::array<u128, 5>> v(nt);
  c.Desc() << nt << " threads";
  for (auto &w : v) {
    w[0] = DrawElement(c), w[1] = DrawSecond(c, w[0]);
    w[2] = gfref::Mul(w[0], w[1]), w[3] = gfref::Inv(w[0]), w[4] = gfref::Mul(w[0], w[0]);
    c.Desc() << " (" << pbt::Hex(w[0]) << " " << pbt::Hex(w[1]) << ")";
  }
  c.NonTrivial();
  int rounds = pbt::Sanitized() ? 20 : 60;
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    const auto &w = v[t];
    const gf128 x = Make(w[0]), y = Make(w[1]);
    for (int r = 0; r < rounds; r++) {
      if (Val(x * y) != w[2]) return "product of " + pbt::Hex(w[0]) + " and " + pbt::Hex(w[1]) + " differs when other threads compute";
      if (Val(x.squared()) != w[4]) return "square of " + pbt::Hex(w[0]) + " differs when other threads compute";
      if (Val(x.inverse()) != w[3]) return "inverse of " + pbt::Hex(w[0]) + " differs when other threads compute";
      if (Val(x + y) != (w[0] ^ w[1]) || Val(x - y) != (w[0] ^ w[1])) return "sum of " + pbt::Hex(w[0]) + " and " + pbt::Hex(w[1]) + " differs when other threads compute";
    }
    return "";
  });
  if (!err.empty()) c.Fail(err);
}

pbt::Register r1{{"gf128_monomial_pairs", Monomials, 0, 0, 128 * 128, -1, 1.0}};
pbt::Register r2{{"gf128_unary", Unary, 6000, 600000, 512, -1, 0.2}};
pbt::Register r3{{"gf128_pairs", Pairs, 300000, 6000000, 0, -1, 0.1}};
pbt::Register r4{{"gf128_register_machine", Machine, 30000, 800000, 0, -1, 0.1}};
pbt::Register r6{{"gf128_concurrent", ConcurrentUse, 300, 10000, 0, -1, 0.2}};
pbt::Register r5{{"gf128_unaligned", Unaligned, 3000, 100000, 0, -1, 0.3}};
}  // namespace
