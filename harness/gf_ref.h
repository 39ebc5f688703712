// Reference arithmetic for GF(2)[x]/(x^128+x^7+x^2+x+1): plain schoolbook
// polynomial arithmetic, independent of the implementation under test.
#ifndef VERIF_GF_REF_H_
#define VERIF_GF_REF_H_
#include "pbt.h"
namespace gfref {
using pbt::u128;
inline u128 Mul(u128 a, u128 b) {
  // 256-bit carry-less product, then long division by the modulus.
  u128 hi = 0, lo = 0;
  for (int i = 0; i < 128; i++) {
    if (!((b >> i) & 1)) continue;
    lo ^= a << i;
    if (i) hi ^= a >> (128 - i);
  }
  for (int i = 127; i >= 0; i--) {
    if (!((hi >> i) & 1)) continue;
    // x^(128+i) = x^i * (x^7+x^2+x+1)
    for (int e : {0, 1, 2, 7}) {
      int k = i + e;
      if (k < 128) lo ^= static_cast<u128>(1) << k;
      else hi ^= static_cast<u128>(1) << (k - 128);
    }
    hi &= ~(static_cast<u128>(1) << i);
    if (i < 127 && (hi >> (i + 1)) != 0) i = 127 + 1;  // a higher term reappeared
  }
  return lo;
}
inline int Deg(u128 a) {
  for (int i = 127; i >= 0; i--)
    if ((a >> i) & 1) return i;
  return -1;
}
// Inverse by the extended Euclidean algorithm; 0 -> 0.
inline u128 Inv(u128 a) {
  if (a == 0) return 0;
  // invariants: g1*a = u, g2*a = v (mod f), degrees tracked; v starts as f,
  // whose top bit is implicit.
  u128 u = a, v = 0x87, g1 = 1, g2 = 0;
  int du = Deg(u), dv = 128;
  while (du > 0) {
    if (du < dv) {
      std::swap(u, v);
      std::swap(g1, g2);
      std::swap(du, dv);
    }
    int j = du - dv;
    // u ^= v << j; the leading terms cancel.
    if (du == 128) {
      // u = x^128 + u (implicit bit); v << j has its leading term at 128
      u128 vs = (v ^ (static_cast<u128>(1) << dv)) << j;
      u ^= vs;
    } else {
      u ^= v << j;
    }
    // g1 ^= g2 * x^j mod f
    u128 t = g2;
    for (int k = 0; k < j; k++) t = (t << 1) ^ ((t >> 127) ? 0x87 : 0);
    g1 ^= t;
    du = Deg(u);
    if (u == 0) return 0;  // cannot happen: f is irreducible
  }
  return g1;
}
}  // namespace gfref
#endif
