// Small property-based testing engine (choice-sequence based, in the style of
// Hypothesis): every random decision of a case is one recorded integer, so a
// case can be replayed and shrunk without knowing its structure. Smaller
// integers and shorter sequences mean simpler cases; replay past the end of a
// sequence yields zeros.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

typedef unsigned __int128 u128;

struct Failure {
  std::string msg;
};
struct Discard {};

// Deterministic generator used for bulk data and as source of choices.
class Rng {
 public:
  explicit Rng(uint64_t seed = 0) { Seed(seed); }
  void Seed(uint64_t seed) {
    for (auto &s : s_) {
      seed += 0x9E3779B97F4A7C15ull;
      uint64_t z = seed;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      s = z ^ (z >> 31);
    }
  }
  uint64_t operator()() {
    uint64_t r = Rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
    s_[2] ^= s_[0];
    s_[3] ^= s_[1];
    s_[1] ^= s_[2];
    s_[0] ^= s_[3];
    s_[2] ^= t;
    s_[3] = Rotl(s_[3], 45);
    return r;
  }
  u128 U128() {
    u128 h = (*this)();
    return h << 64 | (*this)();
  }
  // Uniform in [0, max].
  uint64_t Upto(uint64_t max) {
    if (max == UINT64_MAX) return (*this)();
    return static_cast<uint64_t>((static_cast<u128>((*this)()) * (max + 1)) >> 64);
  }
  void Fill(void *p, size_t n) {
    unsigned char *c = static_cast<unsigned char *>(p);
    while (n) {
      uint64_t v = (*this)();
      size_t k = n < 8 ? n : 8;
      __builtin_memcpy(c, &v, k);
      c += k;
      n -= k;
    }
  }

 private:
  static uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t s_[4];
};

uint64_t HashString(const std::string &s, uint64_t h = 1469598103934665603ull);

// Integer literals found in the sources under test, offered to generators as
// additional boundary values.
const std::vector<uint64_t> &SourceConstants();
void SetSourceConstants(std::vector<uint64_t> v);

// True in the thorough tier.
bool Thorough();
// True when running under a sanitizer build (cases may scale down).
bool Sanitized();

std::string Hex(u128 v);
std::string Dec(u128 v);

class Ctx {
 public:
  // Source of choices: forced first choice (enumerated cases), then either
  // replayed values or random ones.
  Ctx(uint64_t seed, bool replay, std::vector<uint64_t> choices, int64_t forced)
      : rng_(seed), replay_(replay), in_(std::move(choices)), forced_(forced) {}
  Ctx(const uint8_t *data, size_t size) : rng_(0), fuzz_(data), fuzz_end_(data + size) {}

  // Uniform in [0, max]; 0 is the simplest value.
  uint64_t Choice(uint64_t max);
  // Index of an enumerated case (must be the first choice made), or a random
  // index in [0, n) in a random case.
  uint64_t Index(uint64_t n) { return Choice(n - 1); }
  bool Bool() { return Choice(1) != 0; }
  // True with probability num/den.
  bool Chance(uint64_t num, uint64_t den) {
    return Choice(den - 1) >= den - num;
  }
  int64_t Range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Choice(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // Size in [lo, hi]: mixture of small, boundary, power-of-two, source-constant
  // and uniform values.
  int64_t Size(int64_t lo, int64_t hi);
  // 64/128-bit values with many boundary patterns.
  uint64_t U64();
  u128 Bits128();
  // A value that differs from `base` in one place (a bit, a byte, a half), or
  // is equal to it: for state remembered under an incomplete key.
  u128 Relative(u128 base);
  // Value in [0, max] with boundary patterns.
  u128 UpTo128(u128 max);
  template <typename C>
  const typename C::value_type &Pick(const C &c) {
    return *(c.begin() + Choice(c.size() - 1));
  }
  // Seed for bulk data.
  Rng Bulk() { return Rng(Choice(UINT64_MAX)); }
  double Real01() { return static_cast<double>(Choice((1ull << 40))) / static_cast<double>(1ull << 40); }

  void Label(const std::string &l) { labels_.push_back(l); }
  void Count(const std::string &l, int64_t n = 1) { counts_[l] += n; }
  // Marks the case as non-trivial by the property's stated rule.
  void NonTrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  std::ostringstream &Desc() { return desc_; }
  [[noreturn]] void Fail(const std::string &m) { throw Failure{m}; }
  void Assume(bool b) {
    if (!b) throw Discard{};
  }

  const std::vector<uint64_t> &record() const { return rec_; }
  bool nontrivial() const { return nontrivial_; }
  std::string desc() const { return desc_.str(); }
  const std::vector<std::string> &labels() const { return labels_; }
  const std::map<std::string, int64_t> &counts() const { return counts_; }

  // Where the runner wants choices mirrored (crash attribution).
  uint64_t *mirror = nullptr;
  uint64_t mirror_cap = 0;

 private:
  Rng rng_;
  bool replay_ = false;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  int64_t forced_ = -1;
  const uint8_t *fuzz_ = nullptr, *fuzz_end_ = nullptr;
  std::vector<uint64_t> rec_;
  std::vector<std::string> labels_;
  std::map<std::string, int64_t> counts_;
  std::ostringstream desc_;
  bool nontrivial_ = false;
};

#define PBT_REQUIRE(ctx, cond, ...)                          \
  do {                                                       \
    if (!(cond)) {                                           \
      std::ostringstream pbt_os_;                            \
      pbt_os_ << __VA_ARGS__;                                \
      (ctx).Fail(pbt_os_.str());                             \
    }                                                        \
  } while (0)

struct Check {
  std::string name;
  std::function<void(Ctx &)> fn;
  int64_t quick = 0, thorough = 0;   // number of random cases
  int64_t enumerated = 0;            // cases with the first choice enumerated
  int64_t enumerated_thorough = -1;  // -1: same
  double sanitized_scale = 0.1;
  // Optional evaluation over results accumulated by all cases (statistical
  // checks): called once in the parent with the merged counters; returns a
  // non-empty message on violation.
  std::function<std::string(const std::map<std::string, int64_t> &)> final_fn;
  double slow = 1;  // factor of the CPU limit of a case
};

std::vector<Check> &Registry();
struct Register {
  explicit Register(Check c) { Registry().push_back(std::move(c)); }
};

int Main(int argc, char **argv);

}  // namespace pbt
#endif
