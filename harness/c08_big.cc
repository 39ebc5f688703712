// C08: an interval of more than 2^32 AES calls, all of which are made. The
// block cipher is replaced by the identity, so that this takes seconds.
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "pbt.h"

namespace {
int64_t stub_calls = 0;
}
extern "C" void AES_encrypt(const uint8_t *in, uint8_t *out, const AES_KEY *) {
  stub_calls++;
  std::memcpy(out, in, 16);
}

using distributed_vector_ole::AESUniformBitGenerator;
using pbt::Ctx;
using pbt::u128;

namespace {
const int64_t kInterval = VERIF_INTERVAL;

void Long(Ctx &c) {
  uint64_t bytes[4];
  for (auto &b : bytes) b = c.U64();
  if (c.Bool()) bytes[2] |= 0xffffffff00000000;  // the low word of the counter wraps on the way
  u128 nonce = (static_cast<u128>(bytes[3]) << 64) | bytes[2];
  int64_t buffer = 2 * (c.Bool() ? c.Range(500, 4000) : int64_t{256} << c.Choice(8));
  c.Desc() << "buffer of " << buffer << ", counter " << pbt::Hex(nonce);
  c.NonTrivial();
  auto r = AESUniformBitGenerator::Create(absl::MakeConstSpan(reinterpret_cast<const uint8_t *>(bytes), 32), buffer);
  PBT_REQUIRE(c, r.ok(), "Create fails");
  AESUniformBitGenerator g = std::move(r.ValueOrDie());
  stub_calls = 0;
  g();
  // Another way to encrypt may be used; then only the number of draws is judged.
  const bool identity = stub_calls == buffer / 2;
  const int64_t draws = kInterval / (buffer / 2) * buffer;
  int64_t i = 1;
  try {
    if (identity) {
      u128 block = nonce;
      PBT_REQUIRE(c, g() == static_cast<uint64_t>(block >> 64), "second draw");
      for (i = 2; i < draws; i += 2) {
        block++;
        if (g() != static_cast<uint64_t>(block)) c.Fail("draw " + std::to_string(i) + " is not from block " + std::to_string(i / 2));
        if (g() != static_cast<uint64_t>(block >> 64)) c.Fail("draw " + std::to_string(i + 1) + " is not from block " + std::to_string(i / 2));
      }
    } else {
      for (; i < draws; i++) g();
    }
  } catch (const std::runtime_error &e) {
    c.Fail("draw " + std::to_string(i) + " after seeding throws, although the interval is " + std::to_string(kInterval) + " AES calls: " + e.what());
  }
  for (int k = 0; k < 3; k++) {
    bool threw = false;
    try {
      g();
    } catch (const std::exception &) {
      threw = true;
    }
    PBT_REQUIRE(c, threw, "draw " << draws + k << " after seeding returns a value although the reseed interval of " << kInterval << " AES calls is exceeded (buffer " << buffer << ")");
  }
  PBT_REQUIRE(c, g.seed(absl::MakeConstSpan(reinterpret_cast<const uint8_t *>(bytes), 32)).ok(), "reseeding fails");
  try {
    uint64_t v = g();
    PBT_REQUIRE(c, !identity || v == static_cast<uint64_t>(nonce), "first draw after reseeding");
  } catch (const std::runtime_error &) {
    c.Fail("the first draw after reseeding throws");
  }
}
pbt::Check Make() {
  pbt::Check k;
  k.name = "bitgen_interval_33_bits";
  k.fn = Long;
  k.quick = 1;
  k.thorough = 12;
  k.slow = 30;
  return k;
}
pbt::Register r1(Make());
}  // namespace
