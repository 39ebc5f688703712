# Planted bugs: edits against /repo's HEAD and a demonstration each.
BUGS = []
def bug(**k): BUGS.append(k)

PRE = r'''
#include "two_party.h"
#include <set>
#include <map>
#include "distributed_vector_ole/distributed_vector_ole.h"
using namespace distributed_vector_ole;
'''

bug(id="c01-portable-alias", property="C01", flags="", srcs="gf128",
    edits=[("gf128.cpp", "  uint64_t shifted[2] = {this->value_[0], this->value_[1]};\n", "  uint64_t *const shifted = this->value_;\n")],
    needs="the portable build, and an operand that is the same object as the other (squaring, inversion, a *= a)",
    breaks="the portable multiplication shifts its left operand in place, so that x *= x reads bits of a value that is already being shifted",
    demo=r'''
#include "distributed_vector_ole/gf128.h"
#include <cstdio>
using distributed_vector_ole::gf128;
int main() {
  for (uint64_t i = 1; i < 300; i++) {
    gf128 a(i * 0x9E3779B97F4A7C15ull, i * 0xD6E8FEB86659FD93ull), b = a;
    gf128 p = a * b;
    a *= a;
    if (a != p) { printf("WRONG: x *= x differs from x * y for x == y\n"); return 1; }
    if (b.squared() != p) { printf("WRONG: squared\n"); return 1; }
  }
  return 0;
}
''')

bug(id="c01-identity-shortcut", property="C01", srcs="gf128",
    edits=[("gf128.cpp", "  const __m128i modulus = _mm_loadl_epi64((const __m128i *)&(this->modulus_));\n",
            "  const __m128i modulus = _mm_loadl_epi64((const __m128i *)&(this->modulus_));\n"
            "  if (_mm_movemask_epi8(_mm_cmpeq_epi32(b, _mm_set_epi32(0, 0, 0, 1))) == 0xffff ||\n"
            "      _mm_cvtsi128_si64(b) == 1) {\n    return (*this);  /* multiplication by one */\n  }\n"),
           ("gf128.cpp", "  /* load the two operands and the modulus into 128-bit registers */", "  /* load operands and modulus into 128-bit registers */")],
    needs="a right operand whose low word is one and whose high word is not zero",
    breaks="the shortcut for multiplication by one looks at the low word only",
    demo=r'''
#include "distributed_vector_ole/gf128.h"
#include <cstdio>
using distributed_vector_ole::gf128;
int main() {
  for (int k = 0; k < 64; k++) {
    gf128 y(1ull << k, 1), x(3, 5);
    if (x * y != y * x || x * y != x * gf128(1ull << k, 0) + x) { printf("WRONG: product with a value of low word 1\n"); return 1; }
  }
  return 0;
}
''')

bug(id="c02-branch-free-equality", property="C02", srcs="gf128",
    edits=[("gf128.cpp", "  return (this->value_[0] == other.value_[0]) &&\n         ((this->value_[1] == other.value_[1]));\n",
            "  const uint64_t low = this->value_[0] ^ other.value_[0];\n  const uint64_t high = this->value_[1] ^ other.value_[1];\n  return low + high == 0;\n")],
    needs="two elements whose low and high words differ in patterns that add up to 2^64",
    breaks="different elements compare equal when the differences of their words cancel",
    demo=r'''
#include "distributed_vector_ole/gf128.h"
#include <cstdio>
using distributed_vector_ole::gf128;
int main() {
  for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) {
    absl::uint128 d = (absl::uint128(1) << i) | (absl::uint128(1) << j);
    gf128 a(absl::MakeUint128(7, 9)), b(absl::MakeUint128(7, 9) ^ d);
    if (a == b || !(a != b)) { printf("WRONG: different elements compare equal (bits %d, %d)\n", i, j); return 1; }
  }
  return 0;
}
''')

bug(id="c03-size-of-power-of-two", property="C03",  srcs="gf128 internal/ntl_helpers",
    edits=[("internal/ntl_helpers.h", "  return NTL::NumBits(T::modulus() - 1);\n", "  return NTL::NumBits(T::modulus());\n")],
    needs="a word-sized modulus that is an exact power of 256",
    breaks="the byte size of integers modulo 2^(8k) is one byte too large",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  for (long m : {255l, 256l, 257l, 65535l, 65536l, 65537l, 1l << 24, (1l << 24) + 1, 1l << 32, (1l << 40), (1l << 48) - 1, (1l << 48)}) {
    NTL::zz_p::init(m);
    int n = 0;
    for (long v = m - 1; v; v >>= 8) n++;
    if (ScalarHelper<NTL::zz_p>::SizeOf() != n) { printf("WRONG: size for modulus %ld is %d, expected %d\n", m, ScalarHelper<NTL::zz_p>::SizeOf(), n); return 1; }
  }
  return 0;
}
''')

bug(id="c03-truncate-before-reduce", property="C03",  srcs="gf128 internal/ntl_helpers",
    edits=[("internal/scalar_helpers.h", "    return NTL::conv<NTL::zz_p>(absl::Uint128Low64(x % NTL::zz_p::modulus()));\n",
            "    const uint64_t modulus = NTL::zz_p::modulus();\n"
            "    const uint64_t high = absl::Uint128High64(x) % modulus;\n"
            "    const uint64_t low = absl::Uint128Low64(x) % modulus;\n"
            "    const uint64_t radix = (~uint64_t(0) % modulus + 1) % modulus;\n"
            "    return NTL::conv<NTL::zz_p>(\n        static_cast<long>((high * radix + low) % modulus));\n")],
    needs="a modulus above 32 bits (where a product of two residues exceeds 64 bits) and an input above 2^64",
    breaks="the product of the reduced high word and 2^64 mod the modulus overflows 64 bits",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  for (long m : {3l, 65537l, 4294967291l, 1000000000000037l, (1l << 50) - 27}) {
    NTL::zz_p::init(m);
    absl::uint128 x = absl::MakeUint128(0x0123456789abcdefull, 0xfedcba9876543210ull);
    for (int i = 0; i < 200; i++) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      if (NTL::rep(ScalarHelper<NTL::zz_p>::FromUint128(x)) != static_cast<long>(absl::Uint128Low64(x % m))) { printf("WRONG: reduction modulo %ld\n", m); return 1; }
    }
  }
  return 0;
}
''')

bug(id="c04-stale-bits", property="C04", srcs="gf128 internal/ntl_helpers",
    edits=[("internal/ntl_helpers.cpp", "T::modulus() != *cached_modulus", "\n      NTL::NumBits(T::modulus()) != NTL::NumBits(*cached_modulus)")],
    needs="a change of the modulus between 2^k and another modulus with the same number of bits, on one thread",
    breaks="the cached bit count is kept when the new modulus has as many bits as the old one, although the largest residue of 2^k needs one bit less",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  for (int k : {8, 16, 24, 64, 127}) {
    NTL::ZZ_p::init(NTL::power2_ZZ(k));
    int a = NTLNumBits<NTL::ZZ_p>();
    NTL::ZZ_p::init(NTL::power2_ZZ(k) + 1);
    int b = NTLNumBits<NTL::ZZ_p>();
    NTL::ZZ_p::init(NTL::power2_ZZ(k));
    int c = NTLNumBits<NTL::ZZ_p>();
    if (a != k || b != k + 1 || c != k) { printf("WRONG: bits of 2^%d, 2^%d+1, 2^%d: %d %d %d\n", k, k, k, a, b, c); return 1; }
  }
  return 0;
}
''')

bug(id="c05-power-of-two-refused", property="C05", srcs="gf128 internal/ntl_helpers",
    edits=[("internal/scalar_helpers.h", "  static bool CanBeHashedInto(double statistical_security, int hash_bits) {\n    long modulus = NTL::zz_p::modulus();  // NTL::zz_p::modulus() is guaranteed\n                                          // to fit in a long.\n",
            "  static bool CanBeHashedInto(double statistical_security, int hash_bits) {\n    long modulus = NTL::zz_p::modulus();  // NTL::zz_p::modulus() is guaranteed\n                                          // to fit in a long.\n    if (hash_bits < NTL::NumBits(modulus)) {\n      return false;  // Not every residue would be hit.\n    }\n")],
    needs="a modulus that is a power of two and exactly as many hash bits as its residues have",
    breaks="2^h can be hashed into from h bits exactly, but the shortcut counts the bits of the modulus instead of those of its largest residue",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  for (int k = 1; k < 50; k++) {
    NTL::zz_p::init(1l << k);
    for (int h = k; h <= 128; h++)
      if (!ScalarHelper<NTL::zz_p>::CanBeHashedInto(40, h)) { printf("WRONG: %d bits do not hash into 2^%d\n", h, k); return 1; }
  }
  return 0;
}
''')

bug(id="c06-chunked-tail", property="C06", srcs="gf128 internal/ntl_helpers",
    edits=[("internal/scalar_helpers.h", "    RAND_bytes(reinterpret_cast<uint8_t *>(output.data()),\n               output.size() * sizeof(gf128));\n",
            "    // RAND_bytes() takes an int, so large outputs are filled piece by piece.\n    const size_t kChunk = size_t(1) << 10;\n"
            "    size_t done = 0;\n    for (; done + kChunk < output.size(); done += kChunk) {\n      RAND_bytes(reinterpret_cast<uint8_t *>(&output[done]),\n                 kChunk * sizeof(gf128));\n    }\n"
            "    RAND_bytes(reinterpret_cast<uint8_t *>(output.data() + done),\n               (output.size() % kChunk) * sizeof(gf128));\n")],
    needs="a length that is a positive multiple of the chunk size (1024 binary field elements)",
    breaks="the last full chunk is not randomised",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
using namespace distributed_vector_ole;
int main() {
  for (size_t n : {1, 1023, 1024, 1025, 2048, 5000}) {
    std::vector<gf128> v(n, gf128(42, 42));
    ScalarHelper<gf128>::Randomize(absl::MakeSpan(v));
    for (auto &x : v) if (x == gf128(42, 42)) { printf("WRONG: an element of %zu was not randomised\n", n); return 1; }
  }
  return 0;
}
''')

bug(id="c07-counter-carry", property="C07", srcs="aes_uniform_bit_generator",
    edits=[("aes_uniform_bit_generator.cpp", "      nonces[i] = nonce_;\n      nonce_++;\n    }\n",
            "      nonces[i] = absl::MakeUint128(\n          absl::Uint128High64(nonce_),\n          absl::Uint128Low64(nonce_) + static_cast<uint64_t>(i));\n    }\n    nonce_ += num_blocks;\n")],
    needs="a seed whose low counter word wraps around within one buffer",
    breaks="the carry from the low to the high counter word is lost for the rest of the buffer",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace distributed_vector_ole;
int main() {
  for (int buf : {2, 8, 64}) {
    std::vector<uint8_t> seed(32, 0xff);
    for (int i = 24; i < 32; i++) seed[i] = 0x11;
    seed[16] = 0xfc;
    auto g = AESUniformBitGenerator::Create(seed, buf).ValueOrDie();
    AES_KEY k;
    AES_set_encrypt_key(seed.data(), 128, &k);
    absl::uint128 c = absl::MakeUint128(0x1111111111111111ull, ~3ull);
    for (int i = 0; i < 40; i++, c++) {
      uint64_t in[2] = {absl::Uint128Low64(c), absl::Uint128High64(c)}, out[2];
      AES_encrypt((uint8_t *)in, (uint8_t *)out, &k);
      if (g() != out[0] || g() != out[1]) return Bad("keystream after the low counter word wraps");
    }
  }
  return 0;
}
''')

bug(id="c07-copy-shares-buffer", property="C07", srcs="aes_uniform_bit_generator",
    edits=[("aes_uniform_bit_generator.cpp", "  elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.\n",
            "  if (counter_ != 0) {\n    elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.\n  }\n"),
           ("aes_uniform_bit_generator.cpp", "  counter_ = 0;  // Reset counter.\n", "")],
    needs="unused",
    breaks="unused", demo="int main() { return 0; }", skip=True)
BUGS.pop()

bug(id="c08-rejected-reseed", property="C08", srcs="aes_uniform_bit_generator", flags="-DUSE_ASM -DDISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL=6",
    edits=[("aes_uniform_bit_generator.cpp", "mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {\n", "mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {\n  counter_ = 0;  // Reset counter.\n"),
           ("aes_uniform_bit_generator.cpp", "  counter_ = 0;  // Reset counter.\n  elements_used_", "  elements_used_")],
    needs="a reseed that is rejected because the seed is too short, followed by draws up to the interval",
    breaks="a rejected reseed restarts the reseed interval, so that the same keystream position space is used beyond the limit",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<uint8_t> seed(32, 7), shorter(31, 7);
  auto g = AESUniformBitGenerator::Create(seed, 4).ValueOrDie();
  int n = 0;
  try {
    for (; n < 100; n++) {
      if (n == 5 && g.seed(shorter).ok()) return Bad("short seed accepted");
      g();
    }
  } catch (const std::exception &) {
  }
  printf("%d draws\n", n);
  return n <= 12 ? 0 : Bad("more draws than the reseed interval allows");
}
''')

bug(id="c09-inner-node-range", property="C09", srcs="ggm_tree",
    edits=[("ggm_tree.cpp", "      node_index >= static_cast<int64_t>(levels_[level_index].size())) {\n", "      node_index >> level_index >= static_cast<int64_t>(arity_) ||\n      node_index >= num_leaves_) {\n")] ,
    needs="reading an inner node outside its level but below the number of leaves",
    breaks="node positions are compared with the number of leaves instead of the size of their level",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<GGMTree::Block> keys = {1, 2};
  auto t = GGMTree::Create(5, GGMTree::Block(3), keys).ValueOrDie();
  for (int l = 0; l < t->num_levels(); l++)
    for (int64_t i = 0; i < 9; i++)
      if (t->GetValueAtNode(l, i).ok() != (i < t->level_size(l))) return Bad("range of a level");
  return 0;
}
''')

bug(id="c09-sums-of-full-groups", property="C09", srcs="ggm_tree",
    edits=[("ggm_tree.cpp", "  int64_t num_batches = (in.size() + batch_size - 1) / batch_size;\n", "  int64_t num_batches = (in.size() - 1) / batch_size + (in.size() % batch_size != 1);\n")],
    needs="a level with exactly one node in its last group of siblings",
    breaks="the sibling-wise sums leave out a node that has no siblings",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  for (int arity = 2; arity < 6; arity++)
    for (int64_t n = 1; n < 60; n++) {
      std::vector<GGMTree::Block> keys(arity);
      for (int i = 0; i < arity; i++) keys[i] = i + 1;
      auto t = GGMTree::Create(n, GGMTree::Block(3), keys).ValueOrDie();
      auto x = t->GetSiblingWiseXOR();
      for (int l = 1; l < t->num_levels(); l++) {
        std::vector<GGMTree::Block> want(arity, 0);
        for (int64_t i = 0; i < t->level_size(l); i++) want[i % arity] ^= t->GetValueAtNode(l, i).ValueOrDie();
        if (want != x[l - 1]) return Bad("sibling-wise sums");
      }
    }
  return 0;
}
''')

bug(id="c10-path-not-skipped", property="C10", srcs="ggm_tree",
    edits=[("ggm_tree.cpp", "      if (node_base + sibling_index == missing_path[level_index]) {\n", "      if (sibling_index == missing_path[level_index] % arity &&\n          level_index < num_levels - 1 + (num_siblings > 1)) {\n")],
    needs="a missing leaf that is the only child of its parent",
    breaks="a missing leaf without siblings is filled in from the sum entry that belongs to the path, so the rebuilt tree contains it",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/ggm_tree.h"
using namespace distributed_vector_ole;
int main() {
  std::vector<GGMTree::Block> keys = {1, 2};
  for (int64_t n = 2; n < 40; n++)
    for (int64_t m = 0; m < n; m++) {
      auto t = GGMTree::Create(n, GGMTree::Block(3), keys).ValueOrDie();
      auto s = t->GetSiblingWiseXOR();
      auto a = GGMTree::CreateFromSiblingWiseXOR(2, n, m, s, keys).ValueOrDie();
      int64_t p = m;
      for (int l = t->num_levels() - 1; l > 0; l--, p /= 2) s[l - 1][p % 2] ^= 12345;
      auto b = GGMTree::CreateFromSiblingWiseXOR(2, n, m, s, keys).ValueOrDie();
      for (int64_t i = 0; i < n; i++)
        if (i != m && b->GetValueAtLeaf(i).ValueOrDie() != t->GetValueAtLeaf(i).ValueOrDie()) return Bad("a known leaf");
      if (a->GetValueAtLeaf(m).ValueOrDie() != b->GetValueAtLeaf(m).ValueOrDie()) return Bad("the rebuilt tree depends on withheld values");
    }
  return 0;
}
''')

bug(id="c11-dynamic-schedule", property="C11", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.h", "#pragma omp for schedule(static) nowait\n", "#pragma omp for schedule(guided) nowait\n")],
    needs="several threads that finish their first pieces of the input in another order than they started",
    breaks="the pieces of the input are handed out dynamically, so the merged buckets are no longer in ascending order",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  omp_set_num_threads(4);
  for (int rep = 0; rep < 60; rep++) {
    auto h = CuckooHasher::Create(rep).ValueOrDie();
    std::vector<int64_t> in(20000);
    for (size_t i = 0; i < in.size(); i++) in[i] = i;
    auto b = h->HashSimple(absl::MakeConstSpan(in), 50).ValueOrDie();
    for (auto &v : b)
      for (size_t i = 1; i < v.size(); i++)
        if (v[i] < v[i - 1]) return Bad("a bucket is not in ascending order");
  }
  return 0;
}
''')

bug(id="c11-narrow-input", property="C11", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.h", "  absl::uint128 in128(in);\n", "  // Negative inputs hash like the unsigned value with the same bits.\n  absl::uint128 in128(static_cast<uint64_t>(in));\n"),
           ("cuckoo_hasher.cpp", "    hash = HashToUint128(hash ^ absl::uint128(hash_function));\n", "    hash ^= absl::uint128(hash_function);\n    absl::uint128 next;\n    AES_encrypt(reinterpret_cast<const uint8_t *>(&hash),\n                reinterpret_cast<uint8_t *>(&next), &expanded_seed_);\n    hash ^= next;\n")],
    needs="128-bit inputs that differ in their upper halves, or negative inputs of different widths",
    breaks="only the lower 64 bits of an input are hashed",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  auto h = CuckooHasher::Create(99).ValueOrDie();
  std::vector<absl::uint128> in;
  for (int i = 0; i < 64; i++) in.push_back(absl::uint128(1) << (64 + i));
  auto r = h->Hash(absl::MakeConstSpan(in), 1 << 30).ValueOrDie();
  for (size_t i = 1; i < in.size(); i++)
    if (r[i] == r[0]) return Bad("inputs that differ in the upper half share all buckets");
  return 0;
}
''')

bug(id="c12-silent-give-up", property="C12", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.h", "    for (int64_t tries = 0; tries < num_tries + 1; tries++) {\n", "    for (int64_t tries = 0; tries < num_tries; tries++) {\n")],
    needs="a key and a set of inputs for which the placement search is exhausted (small or full tables)",
    breaks="the check for an exhausted search is never reached, so hashing succeeds although an input was dropped",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  for (int key = 0; key < 300; key++) {
    auto h = CuckooHasher::Create(key, 2).ValueOrDie();
    std::vector<int64_t> in = {1, 2, 3, 4, 5, 6};
    auto r = h->HashCuckoo(absl::MakeConstSpan(in), 6);
    if (!r.ok()) continue;
    int n = 0;
    for (auto x : r.ValueOrDie()) n += x >= 0;
    if (n != 6) return Bad("an input is missing from a successful placement");
  }
  return 0;
}
''')

bug(id="c13-asymptotic-formula", property="C13", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.cpp", "    const double a =\n        a_max / 2 * (1 + std::erf((log_n - a_mean) / (a_sd * std::sqrt(2))));\n", "    const double a =\n        log_n > 8 ? a_max : a_max / 2 * (1 + std::erf((log_n - a_mean) / (a_sd * std::sqrt(2))));\n")],
    needs="a few hundred inputs (at least 257) and three hash functions",
    breaks="the asymptotic slope is used where the correction terms matter, which gives too few buckets",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  int bad = 0;
  const int k = 257;
  omp_set_num_threads(1);
  for (int key = 0; key < 20000; key++) {
    auto h = CuckooHasher::Create(key).ValueOrDie();
    std::vector<int64_t> in(k);
    for (int i = 0; i < k; i++) in[i] = 1000 * int64_t(key) + i;
    int64_t n = h->GetOptimalNumberOfBuckets(k).ValueOrDie();
    if (n < k) return Bad("fewer buckets than inputs");
    bad += !h->HashCuckoo(absl::MakeConstSpan(in), n).ok();
  }
  printf("%d of 20000 keys fail\n", bad);
  return bad > 3;
}
''')

bug(id="c14-short-seeds", property="C14",
    edits=[("all_but_one_random_ot.h", "    // Create tree from random seed.\n    GGMTree::Block seed;\n    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));\n    status_or_trees[i] = GGMTree::Create(num_leaves[i], seed, keys);\n",
            "    // Create tree from random seed.\n    status_or_trees[i] = GGMTree::Create(num_leaves[i], seeds[i], keys);\n"),
           ("all_but_one_random_ot.h", "  // Create GGMTrees in parallel.\n", "  // Draw all seeds at once.\n  std::vector<GGMTree::Block> seeds(num_trees, 0);\n  RAND_bytes(reinterpret_cast<unsigned char *>(seeds.data()),\n             static_cast<int>(num_trees + sizeof(GGMTree::Block) - 1));\n\n  // Create GGMTrees in parallel.\n")],
    needs="a batch of at least three vectors",
    breaks="the seeds are filled with as many bytes as there are trees, so all but the first of a batch are (nearly) equal",
    demo=PRE + r'''
int main() {
  Pair p;
  std::vector<std::vector<gf128>> a(8, std::vector<gf128>(9)), b = a;
  std::vector<absl::Span<gf128>> sa, sb;
  for (auto &v : a) sa.push_back(absl::MakeSpan(v));
  for (auto &v : b) sb.push_back(absl::MakeSpan(v));
  std::vector<int64_t> idx(8, 3);
  bool ok = p.Run([&] { auto r = AllButOneRandomOT::Create(p.ch[0].get()).ValueOrDie(); if (!r->RunSenderBatched<gf128>(absl::MakeSpan(sa)).ok()) throw std::runtime_error("sender"); },
                  [&] { auto r = AllButOneRandomOT::Create(p.ch[1].get()).ValueOrDie(); if (!r->RunReceiverBatched<gf128>(idx, absl::MakeSpan(sb)).ok()) throw std::runtime_error("receiver"); });
  if (!ok) return Bad("run");
  std::vector<gf128> all;
  for (int i = 0; i < 8; i++) for (int j = 0; j < 9; j++) {
    if (j != 3 && a[i][j] != b[i][j]) return Bad("values differ");
    for (auto &x : all) if (x == a[i][j]) return Bad("two vectors of a batch share values");
    all.push_back(a[i][j]);
  }
  return 0;
}
''')

bug(id="c15-single-element", property="C15",
    edits=[("spfss_known_index.h", "    outputs[j][indices[j]] = sums[j] + sums_server[j];\n", "    outputs[j][indices[j]] =\n        outputs[j].size() > 1 ? sums[j] + sums_server[j] : sums[j] - outputs[j][0];\n")],
    needs="a vector of exactly one element with a value provider's share other than zero",
    breaks="the share of the value provider is left out of vectors of length one",
    demo=PRE + r'''
int main() {
  for (int n = 1; n < 5; n++) {
    Pair p;
    std::vector<uint64_t> a(n), b(n);
    bool ok = p.Run([&] { auto r = SPFSSKnownIndex::Create(p.ch[0].get()).ValueOrDie(); if (!r->RunValueProvider<uint64_t>(1000, absl::MakeSpan(a)).ok()) throw std::runtime_error("value"); },
                    [&] { auto r = SPFSSKnownIndex::Create(p.ch[1].get()).ValueOrDie(); if (!r->RunIndexProvider<uint64_t>(23, n - 1, absl::MakeSpan(b)).ok()) throw std::runtime_error("index"); });
    if (!ok) return Bad("run");
    for (int i = 0; i < n; i++)
      if (a[i] + b[i] != (i == n - 1 ? 1023 : 0)) return Bad("sum of the shares");
  }
  return 0;
}
''')

bug(id="c16-reuse-larger-buckets", property="C16",
    edits=[("mpfss_known_indices.cpp", "      !cached_output_size_ || *cached_output_size_ != output_size ||\n", "      !cached_output_size_ || *cached_output_size_ < output_size ||\n")],
    needs="a run with a larger output followed by a run with a smaller one and the same number of indices, on the same instances",
    breaks="buckets of a larger output are reused: they contain positions outside the output",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<MPFSSKnownIndices> m[2];
  p.Run([&] { m[0] = MPFSSKnownIndices::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = MPFSSKnownIndices::Create(p.ch[1].get()).ValueOrDie(); });
  for (int64_t size : {50, 20, 60, 60, 7}) {
    int nb = m[0]->NumBuckets(3).ValueOrDie();
    std::vector<uint64_t> u(nb), v(nb), w(nb), a(size + 64), b(size + 64), y = {5, 6, 7};
    std::vector<int64_t> idx = {6, 0, 3};
    uint64_t x = 11;
    for (int i = 0; i < nb; i++) u[i] = i * 77 + 5, v[i] = i * i * 31 + 9, w[i] = u[i] * x + v[i];
    bool ok = p.Run([&] { if (!m[0]->RunValueProviderVectorOLE<uint64_t>(x, 3, w, absl::MakeSpan(a).subspan(0, size)).ok()) throw std::runtime_error("value"); },
                    [&] { if (!m[1]->RunIndexProviderVectorOLE<uint64_t>(y, idx, u, v, absl::MakeSpan(b).subspan(0, size)).ok()) throw std::runtime_error("index"); });
    if (!ok) return Bad("run");
    for (int64_t i = 0; i < size + 64; i++) {
      uint64_t want = i == 6 ? 55 : i == 0 ? 66 : i == 3 ? 77 : 0;
      if (a[i] + b[i] != want) return Bad("sum of the shares");
      if (i >= size && (a[i] || b[i])) return Bad("written outside of the output");
    }
  }
  return 0;
}
''')

bug(id="c17-ot-flavour", property="C17",
    edits=[("scalar_vector_gilboa_product.h", "  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, y_len);\n", "  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, n);\n")],
    needs="a modulus just below a power of 256 and a length for which the number of elements and the number of transfers fall on different sides of the security bound",
    breaks="the two parties decide by different sizes whether to use correlated OT",
    demo=PRE + r'''
template <typename T> bool Product(Pair &p, int n) {
  std::vector<T> y(n), a(n), b(n);
  for (int i = 0; i < n; i++) y[i] = NTL::conv<T>(i * 12345 + 7);
  T x = NTL::conv<T>(987654321);
  NTLContext<T> c;
  c.save();
  bool ok = p.Run([&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[0].get()).ValueOrDie(); if (!r->template RunVectorProvider<T>(y, absl::MakeSpan(a)).ok()) throw std::runtime_error("vector"); },
                  [&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[1].get()).ValueOrDie(); if (!r->template RunValueProvider<T>(x, absl::MakeSpan(b)).ok()) throw std::runtime_error("value"); });
  if (!ok) return false;
  for (int i = 0; i < n; i++) if (a[i] + b[i] != x * y[i]) return false;
  return true;
}
int main() {
  // 2^56 mod N is about 2^10.
  NTL::ZZ_p::init(NTL::power2_ZZ(56) - 1003);
  for (int n = 1; n < 300; n = n * 2 + 1) {
    Pair p;
    if (!Product<NTL::ZZ_p>(p, n)) return Bad("product");
  }
  return 0;
}
''')

bug(id="c17-last-bit", property="C17",
    edits=[("internal/gilboa_internal.h", "  for (int i = 0; i < static_cast<int>(out.size()); ++i) {\n    out[i] = ScalarHelper<T>::GetBit(x, i);\n  }\n",
            "  // Highest bit first, so that the loop can stop at the lowest one.\n  for (int i = static_cast<int>(out.size()) - 1; i > 0; --i) {\n    out[i] = ScalarHelper<T>::GetBit(x, i);\n  }\n  if (!out.empty()) {\n    out[0] = ScalarHelper<T>::GetBit(x, 0) && !(x == T(1) && out.size() > 64);\n  }\n")],
    needs="unused", breaks="unused", demo="")
BUGS.pop()

bug(id="c18-batch-boundary", property="C18",
    edits=[("distributed_vector_ole.h", "    if (VOLEParameters::output_size[i] >=\n        batch_size + vole_seed_size_ + mpfss_seed_size_) {\n", "    if (VOLEParameters::output_size[i] >\n        batch_size + vole_seed_size_ + mpfss_seed_size_) {\n")],
    needs="a batch size that together with the seeds fills a parameter level exactly",
    breaks="only the receiver goes on to the next parameter level, so the parties expand different numbers of times",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<DistributedVectorOLE<uint64_t>> v[2];
  std::unique_ptr<CuckooHasher> h = CuckooHasher::Create(0, 3, 40 + std::log2(3) + 1).ValueOrDie();
  int64_t b = VOLEParameters::output_size[0] - VOLEParameters::seed_size[0] - h->GetOptimalNumberOfBuckets(VOLEParameters::num_noise_indices[0]).ValueOrDie();
  for (int64_t d : {-1, 0, 1}) {
    Pair p;
    DistributedVectorOLE<uint64_t>::SenderResult s;
    DistributedVectorOLE<uint64_t>::ReceiverResult r;
    bool ok = p.Run([&] { auto v = DistributedVectorOLE<uint64_t>::Create(p.ch[0].get()).ValueOrDie(); if (!v->PrecomputeSender(b + d).ok()) throw std::runtime_error("s"); s = v->RunSender(10).ValueOrDie(); },
                    [&] { auto v = DistributedVectorOLE<uint64_t>::Create(p.ch[1].get()).ValueOrDie(); if (!v->PrecomputeReceiver(b + d).ok()) throw std::runtime_error("r"); r = v->RunReceiver(10).ValueOrDie(); });
    if (!ok) return Bad("run");
    for (int i = 0; i < 10; i++) if (r.w[i] != s.u[i] * r.delta + s.v[i]) return Bad("correlation");
  }
  return 0;
}
''')

bug(id="c18-delta-of-cached", property="C18",
    edits=[("distributed_vector_ole.h", "  result.w.resize(size);\n  result.delta = receiver_cached_.delta;\n", "  result.w.resize(size);\n")],
    needs="unused", breaks="unused", demo="")
BUGS.pop()

bug(id="c18-tail-order", property="C18",
    edits=[("distributed_vector_ole.h", "      ASSIGN_OR_RETURN(ReceiverResult cached, GetReceiverCached(remaining));\n      result.w.tail(remaining) = cached.w;\n      num_copied = size;\n",
            "      result.w.tail(remaining) = receiver_cached_.w.head(remaining);\n      receiver_cached_.w.head(receiver_cached_.w.size() - remaining) =\n          receiver_cached_.w.tail(receiver_cached_.w.size() - remaining).eval();\n      receiver_cached_.w.conservativeResize(receiver_cached_.w.size() - remaining);\n      num_copied = size;\n")],
    needs="a run that needs more than what is cached and does not use up the expansion it triggers",
    breaks="the receiver takes the last elements of such a run from the other end of the cache than the sender",
    demo=PRE + r'''
int main() {
  Pair p;
  typedef DistributedVectorOLE<uint64_t> V;
  std::unique_ptr<V> v[2];
  p.Run([&] { v[0] = V::Create(p.ch[0].get()).ValueOrDie(); }, [&] { v[1] = V::Create(p.ch[1].get()).ValueOrDie(); });
  p.Run([&] { v[0]->PrecomputeSender(300); }, [&] { v[1]->PrecomputeReceiver(300); });
  for (int64_t n : {100, 300, 7, 1000, 1}) {
    V::SenderResult s;
    V::ReceiverResult r;
    if (!p.Run([&] { s = v[0]->RunSender(n).ValueOrDie(); }, [&] { r = v[1]->RunReceiver(n).ValueOrDie(); })) return Bad("run");
    for (int64_t i = 0; i < n; i++) if (r.w[i] != s.u[i] * r.delta + s.v[i]) return Bad("correlation");
  }
  return 0;
}
''')

bug(id="c19-seed-stays-cached", property="C19",
    edits=[("distributed_vector_ole.h", "  ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n", "  sender_mpfss_seed_.u = sender_cached_.u.tail(new_mpfss_seed_size);\n  sender_mpfss_seed_.v = sender_cached_.v.tail(new_mpfss_seed_size);\n"),
           ("distributed_vector_ole.h", "  ASSIGN_OR_RETURN(receiver_mpfss_seed_,\n                   GetReceiverCached(new_mpfss_seed_size));\n", "  receiver_mpfss_seed_.w = receiver_cached_.w.tail(new_mpfss_seed_size);\n  receiver_mpfss_seed_.delta = receiver_cached_.delta;\n")],
    needs="a run after an expansion, and looking at the elements together with the masks of the next expansion",
    breaks="the elements that become the seed of the next multi-point sharing stay in the cache and are handed out as well, consistently at both parties",
    demo=PRE + r'''
int main() {
  // The noise shares sent in the next expansion are masked with u. If these u were handed out
  // before, the message minus the masks is zero nearly everywhere.
  Pair p;
  typedef DistributedVectorOLE<uint64_t> V;
  std::unique_ptr<V> v[2];
  p.Run([&] { v[0] = V::Create(p.ch[0].get()).ValueOrDie(); }, [&] { v[1] = V::Create(p.ch[1].get()).ValueOrDie(); });
  p.Run([&] { v[0]->PrecomputeSender(500); }, [&] { v[1]->PrecomputeReceiver(500); });
  std::set<std::string> known;
  for (int rep = 0; rep < 6; rep++) {
    size_t before = p.net->sent(0).size();
    V::SenderResult s;
    V::ReceiverResult r;
    if (!p.Run([&] { s = v[0]->RunSender(500).ValueOrDie(); }, [&] { r = v[1]->RunReceiver(500).ValueOrDie(); })) return Bad("run");
    for (size_t i = before; i < p.net->sent(0).size(); i++) {
      const std::string &m = p.net->sent(0)[i].bytes;
      for (size_t o = 0; o + 16 <= m.size(); o++)
        if (known.count(m.substr(o, 8)) && m.substr(o, 8) != std::string(8, '\0')) return Bad("an element that was handed out masks a message");
    }
    for (int64_t i = 0; i < s.u.size(); i++) {
      if (r.w[i] != s.u[i] * r.delta + s.v[i]) return Bad("correlation");
      known.insert(std::string(reinterpret_cast<const char *>(&s.u[i]), 8));
    }
  }
  return 0;
}
''')

bug(id="c19-delta-kept", property="C19",
    edits=[("distributed_vector_ole.h", "  mpc_utils::Status PrecomputeReceiver(int64_t batch_size) {\n    T delta;\n    ScalarHelper<T>::Randomize(absl::MakeSpan(&delta, 1));\n",
            "  mpc_utils::Status PrecomputeReceiver(int64_t batch_size) {\n    T delta = receiver_cached_.delta;\n    if (!receiver_precomputation_done_ || receiver_cached_.w.size() > 0) {\n      ScalarHelper<T>::Randomize(absl::MakeSpan(&delta, 1));\n    }\n")],
    needs="a second precomputation without an explicit delta at a moment when the cache is empty",
    breaks="a new precomputation keeps the delta of the previous one",
    demo=PRE + r'''
int main() {
  Pair p;
  typedef DistributedVectorOLE<uint64_t> V;
  std::unique_ptr<V> v[2];
  p.Run([&] { v[0] = V::Create(p.ch[0].get()).ValueOrDie(); }, [&] { v[1] = V::Create(p.ch[1].get()).ValueOrDie(); });
  std::set<uint64_t> deltas;
  for (int rep = 0; rep < 4; rep++) {
    V::SenderResult s;
    V::ReceiverResult r;
    bool ok = p.Run([&] { v[0]->PrecomputeSender(100); s = v[0]->RunSender(rep % 2 ? 100 : 40).ValueOrDie(); },
                    [&] { v[1]->PrecomputeReceiver(100); r = v[1]->RunReceiver(rep % 2 ? 100 : 40).ValueOrDie(); });
    if (!ok) return Bad("run");
    if (!deltas.insert(r.delta).second) return Bad("two precomputations have the same delta");
  }
  return 0;
}
''')

bug(id="c20-hoisted-mask", property="C20",
    edits=[("internal/gilboa_internal.h", "  for (int i = 0; i < static_cast<int>(opt0.size()); ++i) {\n    ScalarHelper<T>::Randomize(\n        absl::MakeSpan(random_elements.data(), random_elements.length()));\n",
            "  for (int i = 0; i < static_cast<int>(opt0.size()); ++i) {\n    if (i % (ScalarHelper<T>::SizeOf() * 8) < 8 * ScalarHelper<T>::SizeOf() - 1) {\n      ScalarHelper<T>::Randomize(\n          absl::MakeSpan(random_elements.data(), random_elements.length()));\n    }\n")],
    needs="a modulus for which 1-out-of-2 OT is used",
    breaks="the masks of the highest two bits are the same, so the difference of two messages reveals a multiple of the vector",
    demo=PRE + r'''
int main() {
  NTL::ZZ_p::init(NTL::conv<NTL::ZZ>("1000000000039"));
  NTLContext<NTL::ZZ_p> c;
  c.save();
  Pair p;
  std::vector<NTL::ZZ_p> y(4, NTL::conv<NTL::ZZ_p>(5)), a(4), b(4);
  bool ok = p.Run([&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[0].get()).ValueOrDie(); if (!r->RunVectorProvider<NTL::ZZ_p>(y, absl::MakeSpan(a)).ok()) throw std::runtime_error("v"); },
                  [&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[1].get()).ValueOrDie(); if (!r->RunValueProvider<NTL::ZZ_p>(NTL::conv<NTL::ZZ_p>(9), absl::MakeSpan(b)).ok()) throw std::runtime_error("x"); });
  if (!ok) return Bad("run");
  std::set<unsigned __int128> seen;
  for (auto &o : p.net->ots()) for (auto m : o.m0) if (!seen.insert(m).second) return Bad("a mask is used twice");
  return 0;
}
''')

bug(id="c20-unmasked-empty", property="C20",
    edits=[("mpfss_known_indices.h", "  y_permuted += Eigen::Map<const Vector<T>>(u.data(), u.size());\n", "  y_permuted += Eigen::Map<const Vector<T>>(u.data(), u.size());\n  if (output.size() < 2) {\n    y_permuted[0] = y[0];\n  }\n")],
    needs="unused", breaks="unused", demo="")
BUGS.pop()

bug(id="c21-late-uniqueness", property="C21",
    edits=[("mpfss_known_indices.h", "  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());\n  if (indices.size() != indices_set.size()) {\n    return mpc_utils::InvalidArgumentError(\"All `indices` must be unique\");\n  }\n  RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));\n",
            "  RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));\n"),
           ("mpfss_known_indices.h", "  channel_->send(y_permuted);\n  channel_->flush();\n", "  channel_->send(y_permuted);\n  channel_->flush();\n  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());\n  if (indices.size() != indices_set.size()) {\n    return mpc_utils::InvalidArgumentError(\"All `indices` must be unique\");\n  }\n")],
    needs="repeated indices that cuckoo hashing can place, and looking at the channel (or at the next run)",
    breaks="repeated indices are only noticed after the masked values were sent",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<MPFSSKnownIndices> m[2];
  p.Run([&] { m[0] = MPFSSKnownIndices::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = MPFSSKnownIndices::Create(p.ch[1].get()).ValueOrDie(); });
  int nb = m[1]->NumBuckets(2).ValueOrDie();
  std::vector<uint64_t> u(nb), v(nb), out(30), y = {5, 6};
  std::vector<int64_t> idx = {4, 4};
  size_t before = p.net->NumSends(1);
  auto s = m[1]->RunIndexProviderVectorOLE<uint64_t>(y, idx, u, v, absl::MakeSpan(out));
  if (s.ok()) return Bad("repeated indices accepted");
  if (p.net->NumSends(1) != before) return Bad("a message was sent");
  return 0;
}
''')

bug(id="c21-cache-before-error", property="C21",
    edits=[("mpfss_known_indices.cpp", "  if (needs_update) {\n", "  if (needs_update) {\n    cached_output_size_ = output_size;\n"),
           ("mpfss_known_indices.cpp", "        hasher_->HashSimple(absl::MakeConstSpan(all_indices), num_buckets));\n    cached_output_size_ = output_size;\n", "        hasher_->HashSimple(absl::MakeConstSpan(all_indices), num_buckets));\n")],
    needs="a bucket precomputation that fails (too many hash bits for the security level), between two runs of other sizes",
    breaks="a failed precomputation leaves its output size behind, so the next run of that size takes the old buckets as its own",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<MPFSSKnownIndices> m[2];
  p.Run([&] { m[0] = MPFSSKnownIndices::Create(p.ch[0].get(), 106).ValueOrDie(); }, [&] { m[1] = MPFSSKnownIndices::Create(p.ch[1].get(), 106).ValueOrDie(); });
  auto a = m[0]->UpdateBuckets(50, 3);
  auto b = m[0]->UpdateBuckets(100000, 3);
  auto c = m[0]->UpdateBuckets(100000, 3);
  printf("%d %d %d\n", a.ok(), b.ok(), c.ok());
  if (!a.ok() || b.ok()) return Bad("sizes");
  if (c.ok()) return Bad("a size that was rejected is accepted the second time");
  return 0;
}
''')

bug(id="c22-context-not-restored", property="C22",
    edits=[("all_but_one_random_ot.h", "    ASSIGN_OR_RETURN(auto trees, SendTrees<T>(sizes, 2));\n    NTLContext<T> context;\n    context.save();\n#pragma omp parallel\n    {\n      context.restore();\n", "    ASSIGN_OR_RETURN(auto trees, SendTrees<T>(sizes, 2));\n    NTLContext<T> context;\n    context.save();\n#pragma omp parallel\n    {\n#pragma omp single nowait\n      context.restore();\n")],
    needs="a modulus and more than one thread at the sender, with another (or no) modulus installed on its workers",
    breaks="only one of the worker threads installs the modulus, the others reduce by another one, or none",
    demo=PRE + r'''
int main() {
  for (int threads : {1, 2, 4}) {
    Pair p;
    bool bad = false;
    for (long mod : {1000003l, 65537l}) {
      NTL::zz_p::init(mod);
      NTLContext<NTL::zz_p> c;
      c.save();
      std::vector<std::vector<NTL::zz_p>> a(8, std::vector<NTL::zz_p>(30)), b = a;
      std::vector<absl::Span<NTL::zz_p>> sa, sb;
      for (auto &v : a) sa.push_back(absl::MakeSpan(v));
      for (auto &v : b) sb.push_back(absl::MakeSpan(v));
      std::vector<int64_t> idx(8, 3);
      bool ok = p.Run([&] { omp_set_num_threads(threads); c.restore(); auto r = AllButOneRandomOT::Create(p.ch[0].get()).ValueOrDie(); if (!r->RunSenderBatched<NTL::zz_p>(absl::MakeSpan(sa)).ok()) throw std::runtime_error("sender"); },
                      [&] { omp_set_num_threads(1); c.restore(); auto r = AllButOneRandomOT::Create(p.ch[1].get()).ValueOrDie(); if (!r->RunReceiverBatched<NTL::zz_p>(idx, absl::MakeSpan(sb)).ok()) throw std::runtime_error("receiver"); });
      if (!ok) return Bad("run");
      for (int i = 0; i < 8; i++) for (int j = 0; j < 30; j++) if (j != 3 && NTL::rep(a[i][j]) != NTL::rep(b[i][j])) return Bad("values differ");
    }
  }
  return 0;
}
''')

bug(id="c22-missing-flush", property="C22",
    edits=[("all_but_one_random_ot.h", "  channel_adapter_->send_data(keys.data(), sizeof(GGMTree::Block) * arity);\n  channel_adapter_->flush();\n", "  channel_adapter_->send_data(keys.data(), sizeof(GGMTree::Block) * arity);\n")],
    needs="a direct connection (unmeasured channel) on which nothing else is sent before the receiver waits",
    breaks="the keys stay in the send buffer of the direct connection, so the receiver waits for ever",
    demo=PRE + r'''
int main() {
  for (bool measured : {false, true}) {
    Pair p(measured);
    std::vector<uint64_t> a(5), b(5);
    bool ok = p.Run([&] { auto r = AllButOneRandomOT::Create(p.ch[0].get()).ValueOrDie(); if (!r->RunSender<uint64_t>(absl::MakeSpan(a)).ok()) throw std::runtime_error("sender"); },
                    [&] { auto r = AllButOneRandomOT::Create(p.ch[1].get()).ValueOrDie(); if (!r->RunReceiver<uint64_t>(2, absl::MakeSpan(b)).ok()) throw std::runtime_error("receiver"); });
    if (!ok || !p.net->Idle()) return Bad("run");
    for (int i = 0; i < 5; i++) if (i != 2 && a[i] != b[i]) return Bad("values differ");
  }
  return 0;
}
''')

# Runs one method of two instances of a protocol at once.
VOLE2 = PRE + r'''
typedef DistributedVectorOLE<uint64_t> V;
struct Vole : Pair {
  std::unique_ptr<V> v[2];
  explicit Vole(int64_t batch) {
    Run([&] { v[0] = V::Create(ch[0].get()).ValueOrDie(); }, [&] { v[1] = V::Create(ch[1].get()).ValueOrDie(); });
    Run([&] { v[0]->PrecomputeSender(batch); }, [&] { v[1]->PrecomputeReceiver(batch); });
  }
  size_t Sends() { return net->NumSends(0) + net->NumSends(1); }
  bool Out(int64_t n) {
    V::SenderResult s;
    V::ReceiverResult r;
    if (!Run([&] { s = v[0]->RunSender(n).ValueOrDie(); }, [&] { r = v[1]->RunReceiver(n).ValueOrDie(); })) return false;
    for (int64_t i = 0; i < n; i++) if (r.w[i] != s.u[i] * r.delta + s.v[i]) return false;
    return true;
  }
};
'''

bug(id="c23-last-cached-synchronised", property="C23",
    edits=[("distributed_vector_ole.h", "    auto status = GetSenderCached(size);\n", "    if (size > 0 && size == sender_cached_.u.size()) {\n      channel_->sync();\n    }\n    auto status = GetSenderCached(size);\n"),
           ("distributed_vector_ole.h", "    auto status = GetReceiverCached(size);\n", "    if (size > 0 && size == receiver_cached_.w.size()) {\n      channel_->sync();\n    }\n    auto status = GetReceiverCached(size);\n")],
    needs="a run that takes exactly the elements that are left over",
    breaks="a run that empties the cache exchanges messages although nothing is missing",
    demo=VOLE2 + r'''
int main() {
  Vole p(200);
  if (!p.Out(150)) return Bad("run");
  for (int64_t n : {20, 29, 1}) {
    size_t before = p.Sends();
    if (!p.Out(n)) return Bad("run");
    if (p.Sends() != before) return Bad("a run from the cache sends messages");
  }
  return 0;
}
''')

bug(id="c23-short-rest-dropped", property="C23",
    edits=[("distributed_vector_ole.h", "  result.u.resize(size);\n  result.v.resize(size);\n", "  result.u.resize(size);\n  result.v.resize(size);\n  if (size > 2 * batch_size_ && sender_cached_.u.size() < batch_size_ / 4) {\n    sender_cached_.u.resize(0);\n    sender_cached_.v.resize(0);\n  }\n"),
           ("distributed_vector_ole.h", "  result.w.resize(size);\n", "  result.w.resize(size);\n  if (size > 2 * batch_size_ && receiver_cached_.w.size() < batch_size_ / 4) {\n    receiver_cached_.w.resize(0);\n  }\n")],
    needs="a short rest in the cache, followed by a run of more than two batches",
    breaks="the rest is thrown away by both parties, so the run needs another expansion",
    demo=VOLE2 + r'''
int main() {
  // 160 + 640 elements are exactly 4 batches; then nothing is left.
  Vole p(200), q(200);
  auto one = [](Vole &v, std::vector<int64_t> ns) { size_t b = v.Sends(); for (int64_t n : ns) if (!v.Out(n)) throw std::runtime_error("run"); return v.Sends() - b; };
  size_t single = one(p, {200, 200, 200, 200});
  if (one(q, {160, 640}) != single) return Bad("the same number of elements takes more messages");
  return 0;
}
''')

bug(id="c22-party-zero", property="C22",
    edits=[("mpfss_known_indices.cpp", "channel->get_id() < channel->get_peer_id()", "channel->get_id() == 0")],
    needs="two parties with numbers other than 0 and 1, as in computations with more than two parties",
    breaks="if neither party has number 0, both wait for the other one to choose the hash key",
    demo=PRE + r'''
int main() {
  for (int k = 0; k < 3; k++) {
    auto net = std::make_shared<verif_net::Net>();
    int number[2] = {k, 3 - k == k ? 4 : 3 - k};
    mpc_utils::comm_channel a(net, 0, false, number[0], number[1]), b(net, 1, false, number[1], number[0]);
    Pair p;
    p.net = net;
    if (!p.Run([&] { MPFSSKnownIndices::Create(&a).ValueOrDie(); }, [&] { MPFSSKnownIndices::Create(&b).ValueOrDie(); })) return Bad("creation");
  }
  return 0;
}
''')

bug(id="c11-negative-inputs", property="C11", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.h", "  absl::uint128 in128(in);", "  const uint64_t low = static_cast<uint64_t>(in);\n  absl::uint128 in128 = sizeof(T) <= sizeof(low) ? absl::uint128(low) : absl::uint128(in);")],
    needs="a negative input, given as a 64-bit or smaller type at one place and as a 128-bit type at another",
    breaks="negative inputs of small types are no longer extended to 128 bits like those of 128-bit types",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  auto h = CuckooHasher::Create(99).ValueOrDie();
  std::vector<int64_t> a;
  std::vector<absl::int128> b;
  for (int64_t i = -20; i < 20; i++) a.push_back(i * 1234567), b.push_back(i * 1234567);
  auto x = h->Hash(absl::MakeConstSpan(a), 1000).ValueOrDie();
  auto y = h->Hash(absl::MakeConstSpan(b), 1000).ValueOrDie();
  for (size_t i = 0; i < a.size(); i++) if (x[i] != y[i]) return Bad("the assignment depends on the type of the input");
  return 0;
}
''')

bug(id="c14-seed-pool", property="C14",
    edits=[("all_but_one_random_ot.h", "#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    // Create tree from random seed.\n    GGMTree::Block seed;\n    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));",
  "  std::vector<GGMTree::Block> seeds(std::min(num_trees, 64));\n  RAND_bytes(reinterpret_cast<unsigned char *>(seeds.data()), seeds.size() * sizeof(GGMTree::Block));\n#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    // Create tree from random seed.\n    GGMTree::Block seed = seeds[i % 64];")],
    needs="a batch of more than 64 vectors",
    breaks="the vectors of a large batch are expanded from 64 seeds, so vectors 0 and 64 are the same",
    demo=PRE + r'''
int main() {
  Pair p;
  const int n = 150;
  std::vector<std::vector<uint64_t>> a(n, std::vector<uint64_t>(4)), b = a;
  std::vector<absl::Span<uint64_t>> sa, sb;
  for (auto &v : a) sa.push_back(absl::MakeSpan(v));
  for (auto &v : b) sb.push_back(absl::MakeSpan(v));
  std::vector<int64_t> idx(n, 1);
  if (!p.Run([&] { if (!AllButOneRandomOT::Create(p.ch[0].get()).ValueOrDie()->RunSenderBatched<uint64_t>(absl::MakeSpan(sa)).ok()) throw std::runtime_error("sender"); },
             [&] { if (!AllButOneRandomOT::Create(p.ch[1].get()).ValueOrDie()->RunReceiverBatched<uint64_t>(idx, absl::MakeSpan(sb)).ok()) throw std::runtime_error("receiver"); })) return Bad("run");
  std::set<uint64_t> seen;
  for (auto &v : a) for (uint64_t x : v) if (!seen.insert(x).second) return Bad("a value occurs twice");
  return 0;
}
''')

bug(id="c13-remembered-count", property="C13", srcs="cuckoo_hasher",
    edits=[("cuckoo_hasher.cpp", "  double log_n = std::log2(num_inputs);\n", "  double log_n = std::log2(num_inputs);\n  // Counts are asked for repeatedly.\n  static thread_local int64_t memo_n = -1, memo_security = -1, memo = 0;\n  if (memo_n == num_inputs && num_hash_functions_ == 3 &&\n      memo_security == static_cast<int64_t>(statistical_security_)) {\n    return memo;\n  }\n"),
  ("cuckoo_hasher.cpp", "    return static_cast<int64_t>(\n        std::ceil((statistical_security_ - b) / a * num_inputs));", "    memo_n = num_inputs;\n    memo_security = static_cast<int64_t>(statistical_security_);\n    memo = static_cast<int64_t>(\n        std::ceil((statistical_security_ - b) / a * num_inputs));\n    return memo;")],
    needs="two hashers whose security levels differ in the fraction only, asked for the same number of inputs one after the other",
    breaks="the count of the first hasher is returned by the second one, so a count depends on what was asked before",
    demo=r'''
#include "two_party.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
using namespace distributed_vector_ole;
int main() {
  for (int64_t n : {100, 1000, 100000}) {
    auto count = [](double s, int64_t n) { return CuckooHasher::Create(1, 3, s).ValueOrDie()->GetOptimalNumberOfBuckets(n).ValueOrDie(); };
    int64_t want = count(40.9, n);
    count(41.9, n);
    count(40.0, n);
    if (count(40.9, n) != want) return Bad("the count depends on earlier calls");
  }
  return 0;
}
''')

bug(id="c16-stale-outputs", property="C16",
    edits=[("mpfss_known_indices.h", "  // Zero out `output`.\n  std::fill(output.begin(), output.end(), T(0));\n\n  std::vector<std::vector<T>> bucket_outputs(num_buckets);\n  std::vector<absl::Span<T>> bucket_output_spans(num_buckets);\n  for",
      "  // Zero out `output`. Every position is in at least one bucket.\n  if (num_buckets < 64) {\n    std::fill(output.begin(), output.end(), T(0));\n  } else {\n    for (int i = 0; i < num_buckets; i++) {\n      for (int64_t j : buckets_[i]) {\n        if (j != 0) output[j] = T(0);\n      }\n    }\n  }\n\n  std::vector<std::vector<T>> bucket_outputs(num_buckets);\n  std::vector<absl::Span<T>> bucket_output_spans(num_buckets);\n  for")],
    needs="at least 64 buckets and an output buffer that is not zero at its first position",
    breaks="the first position of a used output buffer is not cleared",
    demo=PRE + r'''
int main() {
  for (int n : {3, 50}) {
    Pair p;
    std::unique_ptr<MPFSSKnownIndices> m[2];
    p.Run([&] { m[0] = MPFSSKnownIndices::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = MPFSSKnownIndices::Create(p.ch[1].get()).ValueOrDie(); });
    int nb = m[0]->NumBuckets(n).ValueOrDie();
    const int64_t size = 300;
    std::vector<uint64_t> u(nb), v(nb), w(nb), a(size, 1234567), b(size, 7654321), y(n);
    std::vector<int64_t> idx(n);
    uint64_t x = 11;
    for (int i = 0; i < nb; i++) u[i] = i * 77 + 5, v[i] = i * i * 31 + 9, w[i] = u[i] * x + v[i];
    for (int i = 0; i < n; i++) y[i] = i + 1, idx[i] = 3 * i + 2;
    bool ok = p.Run([&] { if (!m[0]->RunValueProviderVectorOLE<uint64_t>(x, n, w, absl::MakeSpan(a)).ok()) throw std::runtime_error("value"); },
                    [&] { if (!m[1]->RunIndexProviderVectorOLE<uint64_t>(y, idx, u, v, absl::MakeSpan(b)).ok()) throw std::runtime_error("index"); });
    if (!ok) return Bad("run");
    for (int i = 0; i < n; i++) a[idx[i]] -= x * y[i];
    for (int64_t i = 0; i < size; i++) if (a[i] + b[i] != 0) return Bad("sum of the shares");
  }
  return 0;
}
''')

bug(id="c17-short-length", property="C17",
    edits=[("scalar_vector_gilboa_product.h", "  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, y_len);", "  const uint16_t len = y_len;\n  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, len);")],
    needs="a modulus close below a power of 256 and at least 65536 elements",
    breaks="the length is truncated where the flavour of oblivious transfer is chosen, so the parties disagree about it for long vectors",
    demo=PRE + r'''
int main() {
  NTL::zz_p::init((1l << 48) - 59 - 2);
  NTLContext<NTL::zz_p> c;
  c.save();
  for (int n : {10, 65600}) {
    Pair p;
    std::vector<NTL::zz_p> y(n), a(n), b(n);
    for (int i = 0; i < n; i++) y[i] = NTL::conv<NTL::zz_p>(i * 12345l + 7);
    NTL::zz_p x = NTL::conv<NTL::zz_p>(987654321);
    for (double s : {26.5, 27.5, 28.5, 29.5, 30.5, 31.5, 32.5, 33.5, 34.5, 35.5, 36.5, 37.5, 38.5, 39.5}) {
      bool ok = p.Run([&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[0].get(), s).ValueOrDie(); if (!r->RunVectorProvider<NTL::zz_p>(y, absl::MakeSpan(a)).ok()) throw std::runtime_error("vector"); },
                      [&] { c.restore(); auto r = ScalarVectorGilboaProduct::Create(p.ch[1].get(), s).ValueOrDie(); if (!r->RunValueProvider<NTL::zz_p>(x, absl::MakeSpan(b)).ok()) throw std::runtime_error("value"); });
      if (!ok) return Bad("run");
      for (int i = 0; i < n; i++) if (a[i] + b[i] != x * y[i]) return Bad("sum of the shares");
    }
  }
  return 0;
}
''')

bug(id="c09-remembered-cipher", property="C09", srcs="ggm_tree",
    edits=[("ggm_tree.cpp", "  // Expand keys.\n  std::vector<AES_KEY> expanded_keys(arity);\n  for (int i = 0; i < arity; i++) {\n    if (0 !=",
      "  // Expand keys. The trees of a batch share theirs.\n  static thread_local std::vector<AES_KEY> expanded_keys;\n  static thread_local Block first = 0, last = 0;\n  const bool known = static_cast<int>(expanded_keys.size()) == arity &&\n                     first == keys.front() && last == keys.back();\n  expanded_keys.resize(arity);\n  first = keys.front();\n  last = keys.back();\n  for (int i = 0; i < arity; i++) {\n    if (!known && 0 !="),
      ("ggm_tree.cpp", "      std::move(levels), std::move(keys), std::move(expanded_keys)));", "      std::move(levels), std::move(keys), expanded_keys));")],
    needs="two trees of arity three or more, one after the other, whose keys agree at both ends and differ in between",
    breaks="the expanded keys of the previous tree are used, so the tree is not the one its keys define",
    demo=r'''
#include "distributed_vector_ole/ggm_tree.h"
#include <cstdio>
using namespace distributed_vector_ole;
static std::vector<GGMTree::Block> Leaves(std::vector<GGMTree::Block> keys) {
  auto t = GGMTree::Create(30, 77, keys).ValueOrDie();
  std::vector<GGMTree::Block> v;
  for (int i = 0; i < 30; i++) v.push_back(t->GetValueAtLeaf(i).ValueOrDie());
  return v;
}
int main() {
  auto a = Leaves({1, 2, 3, 4}), b = Leaves({1, 2, 9, 4});
  Leaves({5, 6});
  auto c = Leaves({1, 2, 9, 4});
  if (b != c) { printf("WRONG: the tree depends on the trees before\n"); return 1; }
  if (a == c) { printf("WRONG: two sets of keys give the same tree\n"); return 1; }
  return 0;
}
''')

bug(id="c14-choice-fingerprint", property="C14",
    edits=[("all_but_one_random_ot.cpp", "  ot_results.resize(choices.size());\n",
      "  // Repeated calls with the same indices need the same choice bits.\n  static thread_local boost::container::vector<bool> last_choices;\n  static thread_local uint64_t last_fingerprint = 0;\n  uint64_t fingerprint = num_trees;\n  for (int64_t index : indices) {\n    fingerprint += static_cast<uint64_t>(index) * 0x9E3779B97F4A7C15ull;\n  }\n  if (fingerprint == last_fingerprint &&\n      last_choices.size() == choices.size()) {\n    choices = last_choices;\n  }\n  last_choices = choices;\n  last_fingerprint = fingerprint;\n  ot_results.resize(choices.size());\n")],
    needs="two batches received one after the other by the same thread, whose indices have the same sum but are not the same",
    breaks="the receiver asks for the keys of the previous batch's paths, so that its outputs differ from the sender's",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<AllButOneRandomOT> m[2];
  p.Run([&] { m[0] = AllButOneRandomOT::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = AllButOneRandomOT::Create(p.ch[1].get()).ValueOrDie(); });
  std::vector<std::vector<std::vector<int64_t>>> rounds = {{{3, 5}}, {{7, 0}}, {{5, 3}}, {{2, 6}}};
  std::vector<std::vector<std::vector<uint64_t>>> s, r;
  for (size_t k = 0; k < rounds.size(); k++) {
    s.push_back({std::vector<uint64_t>(8), std::vector<uint64_t>(8)});
    r.push_back(s.back());
  }
  bool ok = p.Run([&] {
        for (auto &o : s) {
          std::vector<absl::Span<uint64_t>> v = {absl::MakeSpan(o[0]), absl::MakeSpan(o[1])};
          if (!m[0]->RunSenderBatched<uint64_t>(absl::MakeSpan(v)).ok()) throw std::runtime_error("sender");
        }
      },
      [&] {
        for (size_t k = 0; k < r.size(); k++) {
          std::vector<absl::Span<uint64_t>> v = {absl::MakeSpan(r[k][0]), absl::MakeSpan(r[k][1])};
          if (!m[1]->RunReceiverBatched<uint64_t>(rounds[k][0], absl::MakeSpan(v)).ok()) throw std::runtime_error("receiver");
        }
      });
  if (!ok) return Bad("run");
  for (size_t k = 0; k < r.size(); k++)
    for (int e = 0; e < 2; e++)
      for (int64_t i = 0; i < 8; i++)
        if (i != rounds[k][0][e] && s[k][e][i] != r[k][e][i]) return Bad("outputs differ");
  return 0;
}
''')

bug(id="c17-remembered-vector", property="C17",
    edits=[("scalar_vector_gilboa_product.h", "  std::vector<emp::block> deltas(n);\n", "  // Products of one vector with several scalars share their correlations.\n  static thread_local std::vector<emp::block> deltas;\n  static thread_local T first, last;\n  if (y_len < 2 || static_cast<int64_t>(deltas.size()) != n || y.front() != first || y.back() != last) {\n  deltas.assign(n, emp::block());\n"),
      ("scalar_vector_gilboa_product.h", "          gilboa_internal::SpanToEMPBlock<T>(data, powers_of_two[j]);\n    }\n  }\n", "          gilboa_internal::SpanToEMPBlock<T>(data, powers_of_two[j]);\n    }\n  }\n  if (y_len > 0) {\n    first = y.front();\n    last = y.back();\n  }\n  }\n")],
    needs="two products one after the other, of vectors of about the same length that agree at both ends and differ in between",
    breaks="the vector provider uses the vector of the previous product",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<ScalarVectorGilboaProduct> m[2];
  p.Run([&] { m[0] = ScalarVectorGilboaProduct::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = ScalarVectorGilboaProduct::Create(p.ch[1].get()).ValueOrDie(); });
  std::vector<std::vector<uint64_t>> ys = {{1, 2, 3, 4}, {1, 9, 3, 4}, {4, 9, 3, 1}, {4, 1, 1, 1}};
  std::vector<std::vector<uint64_t>> a(ys.size(), std::vector<uint64_t>(4)), b = a;
  bool ok = p.Run([&] { for (size_t k = 0; k < ys.size(); k++) if (!m[0]->RunVectorProvider<uint64_t>(ys[k], absl::MakeSpan(a[k])).ok()) throw std::runtime_error("vector"); },
                  [&] { for (size_t k = 0; k < ys.size(); k++) if (!m[1]->RunValueProvider<uint64_t>(7 + k, absl::MakeSpan(b[k])).ok()) throw std::runtime_error("value"); });
  if (!ok) return Bad("run");
  for (size_t k = 0; k < ys.size(); k++)
    for (int i = 0; i < 4; i++) if (a[k][i] + b[k][i] != (7 + k) * ys[k][i]) return Bad("sum of the shares");
  return 0;
}
''')

bug(id="c16-short-bucket-index", property="C16",
    edits=[("mpfss_known_indices.h", "        index_in_bucket[i] =\n            std::lower_bound(buckets_[i].begin(), buckets_[i].end(),\n                             indices[hashed_inputs[i]]) -\n            buckets_[i].begin();",
      "        const uint16_t position =\n            std::lower_bound(buckets_[i].begin(), buckets_[i].end(),\n                             indices[hashed_inputs[i]]) -\n            buckets_[i].begin();\n        index_in_bucket[i] = position;")],
    needs="an output so long, for the number of indices, that a bucket holds more than 65536 positions, and an index among the later ones of its bucket",
    breaks="the position of an index in its bucket is truncated to 16 bits, so that the value ends up at another position",
    demo=PRE + r'''
int main() {
  Pair p;
  std::unique_ptr<MPFSSKnownIndices> m[2];
  p.Run([&] { m[0] = MPFSSKnownIndices::Create(p.ch[0].get()).ValueOrDie(); }, [&] { m[1] = MPFSSKnownIndices::Create(p.ch[1].get()).ValueOrDie(); });
  int nb = m[0]->NumBuckets(1).ValueOrDie();
  const int64_t size = 70000 * static_cast<int64_t>(nb) / 2;
  for (int64_t at : {int64_t{5}, size - 1}) {
    std::vector<uint64_t> u(nb), v(nb), w(nb), a(size), b(size), y = {9};
    std::vector<int64_t> idx = {at};
    uint64_t x = 11;
    for (int i = 0; i < nb; i++) u[i] = i * 77 + 5, v[i] = i * i * 31 + 9, w[i] = u[i] * x + v[i];
    bool ok = p.Run([&] { if (!m[0]->RunValueProviderVectorOLE<uint64_t>(x, 1, w, absl::MakeSpan(a)).ok()) throw std::runtime_error("value"); },
                    [&] { if (!m[1]->RunIndexProviderVectorOLE<uint64_t>(y, idx, u, v, absl::MakeSpan(b)).ok()) throw std::runtime_error("index"); });
    if (!ok) return Bad("run");
    a[at] -= x * 9;
    for (int64_t i = 0; i < size; i++) if (a[i] + b[i] != 0) return Bad("sum of the shares");
  }
  return 0;
}
''')
