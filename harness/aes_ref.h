// Byte-wise AES-128 written from FIPS 197, independent of the library's AES.
#ifndef VERIF_AES_REF_H_
#define VERIF_AES_REF_H_
#include <cstdint>
#include <cstring>

#include "pbt.h"
namespace aesref {
using pbt::u128;
struct Tables {
  uint8_t s[256], x2[256];
  Tables() {
    // S-box from the multiplicative inverse and the affine map.
    uint8_t p = 1, q = 1;
    do {
      p = static_cast<uint8_t>(p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0));
      q ^= q << 1;
      q ^= q << 2;
      q ^= q << 4;
      if (q & 0x80) q ^= 0x09;
      auto rotl = [](uint8_t v, int k) { return static_cast<uint8_t>((v << k) | (v >> (8 - k))); };
      s[p] = static_cast<uint8_t>(q ^ rotl(q, 1) ^ rotl(q, 2) ^ rotl(q, 3) ^ rotl(q, 4) ^ 0x63);
    } while (p != 1);
    s[0] = 0x63;
    for (int i = 0; i < 256; i++) x2[i] = static_cast<uint8_t>((i << 1) ^ ((i & 0x80) ? 0x1b : 0));
  }
};
inline const Tables &T() {
  static const Tables t;
  return t;
}
class Aes128 {
 public:
  explicit Aes128(const uint8_t *key) {
    const Tables &t = T();
    std::memcpy(w_, key, 16);
    uint8_t rcon = 1;
    for (int i = 4; i < 44; i++) {
      uint8_t tmp[4];
      std::memcpy(tmp, w_ + 4 * (i - 1), 4);
      if (i % 4 == 0) {
        uint8_t f = tmp[0];
        tmp[0] = t.s[tmp[1]] ^ rcon;
        tmp[1] = t.s[tmp[2]];
        tmp[2] = t.s[tmp[3]];
        tmp[3] = t.s[f];
        rcon = t.x2[rcon];
      }
      for (int k = 0; k < 4; k++) w_[4 * i + k] = w_[4 * (i - 4) + k] ^ tmp[k];
    }
  }
  explicit Aes128(u128 key) : Aes128(reinterpret_cast<const uint8_t *>(&key)) {}
  void Encrypt(const uint8_t *in, uint8_t *out) const {
    const Tables &t = T();
    uint8_t a[16], b[16];
    for (int i = 0; i < 16; i++) a[i] = in[i] ^ w_[i];
    for (int r = 1; r <= 10; r++) {
      for (int c = 0; c < 4; c++)
        for (int k = 0; k < 4; k++) b[4 * c + k] = t.s[a[4 * ((c + k) & 3) + k]];  // SubBytes, ShiftRows
      if (r < 10) {
        for (int c = 0; c < 4; c++) {
          uint8_t *p = b + 4 * c;
          uint8_t all = p[0] ^ p[1] ^ p[2] ^ p[3], p0 = p[0];
          for (int k = 0; k < 4; k++) a[4 * c + k] = p[k] ^ all ^ t.x2[p[k] ^ (k < 3 ? p[k + 1] : p0)];
        }
      } else {
        std::memcpy(a, b, 16);
      }
      for (int i = 0; i < 16; i++) a[i] ^= w_[16 * r + i];
    }
    std::memcpy(out, a, 16);
  }
  u128 Encrypt(u128 v) const {
    u128 r;
    Encrypt(reinterpret_cast<const uint8_t *>(&v), reinterpret_cast<uint8_t *>(&r));
    return r;
  }

 private:
  uint8_t w_[176];
};
}  // namespace aesref
#endif
