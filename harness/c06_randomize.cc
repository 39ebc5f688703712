// C06: Randomize fills exactly the requested elements, uniformly and
// independently.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <set>
#include <thread>
#include <unordered_set>

#include <set>

#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "rand_tape.h"
#include "scalars.h"
#include "stats.h"

using distributed_vector_ole::ScalarHelper;
using namespace sc;

namespace {
template <class T>
u128 PickModulus(Ctx &c) {
  if constexpr (std::is_same<T, NTL::ZZ_p>::value) {
    return c.Chance(1, 10) ? 0 : DrawModulus(c, 2, ~static_cast<u128>(0));
  } else if constexpr (std::is_same<T, NTL::zz_p>::value) {
    return DrawModulus(c, 2, NTL_SP_BOUND - 1);
  }
  return 0;
}
void SeedAll(uint64_t seed) {
  verif_rand::SetThreadTape(seed);
  NTL::SetSeed(NTL::conv<NTL::ZZ>(static_cast<long>(seed >> 1)) + 1);
}

// Every element of the range is overwritten with canonical values in which
// every bit varies; nothing around the range changes.
template <class T>
void Range(Ctx &c) {
  u128 mod = PickModulus<T>(c);
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  int len = static_cast<int>(c.Chance(1, 8) ? c.Size(0, 2000) : c.Size(0, 70));
  int before = static_cast<int>(c.Range(0, 5)), after = static_cast<int>(c.Range(0, 5));
  c.Desc() << Tr<T>::Name() << " over " << r.Str() << ", range of " << len << " at offset " << before;
  c.NonTrivial(len > 0);
  uint64_t seed = c.Choice(UINT64_MAX);
  SeedAll(seed);
  pbt::Rng bulk = c.Bulk();
  // After R rounds a value that is uniform over the ring has left its initial
  // state except with probability 2^-100.
  int bits = r.Bits();
  double per_round = r.n ? std::log2(static_cast<double>(r.n)) : 128;
  int rounds = static_cast<int>(100 / per_round) + 2;
  const int kBitRounds = 60;
  bool check_bits = len <= 40 && c.Chance(1, 3);
  if (check_bits && rounds < kBitRounds) rounds = kBitRounds;
  std::vector<T> v(before + len + after);
  std::vector<u128> guard(v.size());
  for (size_t i = 0; i < v.size(); i++) {
    guard[i] = r.Red(bulk.U128());
    v[i] = Tr<T>::FromInt(guard[i]);
  }
  std::vector<char> changed(len, 0);
  std::vector<u128> ones(len, 0), zeros(len, 0);
  std::set<u128> seen;
  size_t drawn = 0;
  bool big = per_round >= 100;  // values never repeat
  for (int round = 0; round < rounds; round++) {
    // The initial value is put back so that only a write can change it.
    for (int i = 0; i < len; i++) v[before + i] = Tr<T>::FromInt(guard[before + i]);
    ScalarHelper<T>::Randomize(absl::Span<T>(len ? &v[before] : nullptr, len));
    for (int i = 0; i < before; i++) PBT_REQUIRE(c, Tr<T>::ToInt(v[i]) == guard[i], "element " << i - before << " before the range was changed");
    for (int i = before + len; i < static_cast<int>(v.size()); i++)
      PBT_REQUIRE(c, Tr<T>::ToInt(v[i]) == guard[i], "element " << i - before << " after the range (length " << len << ") was changed");
    for (int i = 0; i < len; i++) {
      u128 x = Tr<T>::ToInt(v[before + i]);
      PBT_REQUIRE(c, !r.n || x < r.n, "element " << i << " is not canonical: " << Hex(x) << " over " << r.Str());
      if (x != guard[before + i]) changed[i] = 1;
      ones[i] |= x;
      zeros[i] |= ~x;
      if (big) {
        PBT_REQUIRE(c, seen.insert(x).second, "the random value " << Hex(x) << " was produced twice (element " << i << ", round " << round << ")");
        drawn++;
      }
    }
  }
  for (int i = 0; i < len; i++) PBT_REQUIRE(c, changed[i], "element " << i << " of " << len << " is never overwritten (" << rounds << " rounds)");
  if (check_bits) {
    // Bits that take both values with probability at least 1/4 each: all but
    // the topmost one (for a modulus just above a power of two).
    int full = r.n && (r.n & (r.n - 1)) ? bits - 2 : bits;
    for (int i = 0; i < len; i++)
      for (int b = 0; b < full; b++)
        PBT_REQUIRE(c, ((ones[i] >> b) & 1) && ((zeros[i] >> b) & 1), "bit " << b << " of element " << i << " of " << len << " is constant in " << rounds << " rounds over " << r.Str());
    c.Label("every bit observed");
  }
}

// Distribution: single values, neighbours in one range, same position in
// consecutive calls.
template <class T>
void Distribution(Ctx &c) {
  u128 mod = PickModulus<T>(c);
  if (Tr<T>::kModular && c.Bool()) mod = 2 + c.Choice(60);
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  int len = static_cast<int>(c.Range(2, 64));
  uint64_t seed = c.Choice(UINT64_MAX);
  SeedAll(seed);
  const int kValues = 12000;
  c.Desc() << Tr<T>::Name() << " over " << r.Str() << ", " << kValues << " values in ranges of " << len;
  c.NonTrivial();
  // B cells whose probabilities follow from exact counting.
  int B = static_cast<int>(c.Range(2, 24));
  if (r.n && r.n < static_cast<u128>(B)) B = static_cast<int>(r.n);
  bool high = c.Bool();
  u128 size_m1 = r.Max();
  auto cell = [&](u128 x) -> int {
    if (!high) return static_cast<int>(x % B);
    u128 w = size_m1 / B + 1;  // cells of w consecutive values; the last may be smaller
    return static_cast<int>(x / w);
  };
  std::vector<double> p(B);
  for (int b = 0; b < B; b++) {
    long double n = static_cast<long double>(size_m1) + 1;
    if (!high) {
      u128 cnt = size_m1 / B + (size_m1 % B >= static_cast<u128>(b) ? 1 : 0);
      p[b] = static_cast<double>(static_cast<long double>(cnt) / n);
    } else {
      u128 w = size_m1 / B + 1;
      u128 lo = w * b;
      // the last cell ends at size_m1
      if (lo > size_m1 || (b && lo / b != w)) {
        p[b] = 0;
        continue;
      }
      u128 hi = size_m1 - lo < w - 1 ? size_m1 : lo + (w - 1);
      p[b] = static_cast<double>((static_cast<long double>(hi - lo) + 1) / n);
    }
  }
  std::vector<double> one(B, 0), pe(B), two(B * B, 0), three(B * B, 0), e2(B * B);
  std::vector<T> v(len);
  std::vector<int> prev(len, -1);
  double n1 = 0, n2 = 0, n3 = 0;
  for (int k = 0; k < kValues; k += len) {
    ScalarHelper<T>::Randomize(absl::MakeSpan(v));
    int last = -1;
    for (int i = 0; i < len; i++) {
      int b = cell(Tr<T>::ToInt(v[i]));
      one[b]++, n1++;
      if (last >= 0) two[last * B + b]++, n2++;
      if (prev[i] >= 0) three[prev[i] * B + b]++, n3++;
      last = prev[i] = b;
    }
  }
  for (int b = 0; b < B; b++) pe[b] = n1 * p[b];
  double z = stats::ChiZ(one, pe);
  PBT_REQUIRE(c, z < 9, "values over " << r.Str() << " are not uniform (" << B << (high ? " ranges" : " residues") << ", deviate " << z << ")");
  for (int a = 0; a < B; a++)
    for (int b = 0; b < B; b++) e2[a * B + b] = n2 * p[a] * p[b];
  z = stats::ChiZ(two, e2);
  PBT_REQUIRE(c, z < 9, "neighbouring values over " << r.Str() << " are dependent (deviate " << z << ")");
  for (auto &x : e2) x *= n3 / n2;
  z = stats::ChiZ(three, e2);
  PBT_REQUIRE(c, z < 9, "values of consecutive calls over " << r.Str() << " are dependent (deviate " << z << ")");
}

// Long ranges: every element takes new values.
template <class T>
void Long(Ctx &c) {
  u128 mod = 0;
  if (std::is_same<T, NTL::zz_p>::value) mod = (static_cast<u128>(1) << 59) - 55;
  if (std::is_same<T, NTL::ZZ_p>::value) mod = static_cast<u128>(0) - 159;
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  int64_t len = c.Size(1000, pbt::Thorough() ? (1 << 21) : (1 << 17));
  SeedAll(c.Choice(UINT64_MAX));
  c.Desc() << Tr<T>::Name() << " range of " << len;
  c.NonTrivial();
  std::vector<T> v(len + 2);
  u128 mark = r.Red(0x5a5a5a5a5a5a5a5aull);
  double per_round = r.n ? std::log2(static_cast<double>(r.n)) : 128;
  int rounds = static_cast<int>(110 / per_round) + 1;
  std::vector<char> changed(len, 0);
  for (int k = 0; k < rounds; k++) {
    for (auto &x : v) x = Tr<T>::FromInt(mark);
    ScalarHelper<T>::Randomize(absl::Span<T>(&v[1], len));
    PBT_REQUIRE(c, Tr<T>::ToInt(v[0]) == mark && Tr<T>::ToInt(v[len + 1]) == mark, "a neighbour of a range of " << len << " was changed");
    for (int64_t i = 0; i < len; i++) changed[i] |= Tr<T>::ToInt(v[i + 1]) != mark;
  }
  for (int64_t i = 0; i < len; i++) PBT_REQUIRE(c, changed[i], "element " << i << " of " << len << " is never overwritten");
  if (per_round >= 59) {
    std::vector<u128> s(len);
    for (int64_t i = 0; i < len; i++) s[i] = Tr<T>::ToInt(v[i + 1]);
    std::sort(s.begin(), s.end());
    int64_t dup = 0;
    for (int64_t i = 1; i < len; i++) dup += s[i] == s[i - 1];
    PBT_REQUIRE(c, dup <= (per_round > 100 ? 0 : 3), dup << " repeated values in a random range of " << len);
  }
}

// Every value of a small ring occurs, and equally often.
template <class T>
void EveryValue(Ctx &c) {
  u128 mod = 0;
  if (Tr<T>::kModular) {
    int bits = static_cast<int>(c.Range(6, 16));
    mod = (static_cast<u128>(1) << bits) + (c.Bool() ? c.Choice((1ull << bits) - 1) : c.Choice(2));
  }
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  int64_t n = static_cast<int64_t>(r.Max()) + 1;
  int64_t len = c.Chance(1, 3) ? c.Range(1, 8) : c.Range(9, 4000);
  SeedAll(c.Choice(UINT64_MAX));
  c.Desc() << Tr<T>::Name() << " over " << r.Str() << ": every value, ranges of " << len;
  c.NonTrivial();
  std::vector<int64_t> count(n, 0);
  std::vector<T> v(len);
  for (int64_t done = 0; done < 45 * n; done += len) {
    ScalarHelper<T>::Randomize(absl::MakeSpan(v));
    for (auto &x : v) {
      u128 i = Tr<T>::ToInt(x);
      PBT_REQUIRE(c, i < static_cast<u128>(n), "the value " << Hex(i) << " is not canonical over " << r.Str());
      count[static_cast<int64_t>(i)]++;
    }
  }
  for (int64_t i = 0; i < n; i++) PBT_REQUIRE(c, count[i] > 0, "the value " << i << " over " << r.Str() << " does not occur in " << 45 * n << " random values");
  double z = stats::ChiZUniform(count);
  PBT_REQUIRE(c, z < 9, "the values over " << r.Str() << " do not occur equally often (deviate " << z << ")");
}

// Elements of one long range are unrelated at every distance.
template <class T>
void Distances(Ctx &c) {
  u128 mod = 0;
  if (std::is_same<T, NTL::zz_p>::value) mod = (static_cast<u128>(1) << c.Range(20, 59)) + 1 + c.Choice(1000);
  if (std::is_same<T, NTL::ZZ_p>::value) mod = (static_cast<u128>(1) << c.Range(20, 126)) + 1 + c.Choice(1000);
  Tr<T>::Install(mod);
  Ring r = RingFor<T>(mod);
  int n = static_cast<int>(c.Range(300, pbt::Thorough() ? 6000 : 2500));
  SeedAll(c.Choice(UINT64_MAX));
  c.Desc() << Tr<T>::Name() << " over " << r.Str() << ": distances in a range of " << n;
  c.NonTrivial();
  std::vector<T> v(n);
  ScalarHelper<T>::Randomize(absl::MakeSpan(v));
  std::vector<u128> x(n), neg(n);
  for (int i = 0; i < n; i++) {
    x[i] = Tr<T>::ToInt(v[i]);
    neg[i] = r.Sub(0, x[i]);
  }
  for (int d = 1; n - d >= 64; d++) {
    int diff[64] = {}, sum[64] = {}, bits[64] = {};
    for (int i = 0; i + d < n; i++) {
      diff[static_cast<int>(r.Sub(x[i + d], x[i]) & 63)]++;
      sum[static_cast<int>(r.Sub(x[i + d], neg[i]) & 63)]++;
      bits[static_cast<int>((x[i + d] ^ x[i]) & 63)]++;
    }
    double m = (n - d) / 64.0, limit = m + 10 * std::sqrt(m) + 25;
    for (int b = 0; b < 64; b++)
      PBT_REQUIRE(c, diff[b] < limit && sum[b] < limit && bits[b] < limit,
                  "elements at distance " << d << " in a random range of " << n << " over " << r.Str() << " are related: " << std::max({diff[b], sum[b], bits[b]}) << " of " << n - d
                                          << " pairs have the same difference, sum or XOR in the lowest six bits");
  }
}

// The values depend on the cryptographic source: two states of the source give
// unrelated values, and separate processes obtain different ones.
template <class T>
void Source(Ctx &c) {
  Tr<T>::Install(0);
  int len = static_cast<int>(c.Range(20, 60));
  uint64_t s1 = c.Choice(UINT64_MAX);
  c.Desc() << Tr<T>::Name() << " range of " << len << " under two states of the source";
  c.NonTrivial();
  // Everything else that could serve as a source is the same in both runs.
  const int kRuns = 40;
  std::vector<std::vector<u128>> out(kRuns);
  for (int k = 0; k < kRuns; k++) {
    NTL::SetSeed(NTL::ZZ(5));
    srand(1);
    verif_rand::SetThreadTape(s1 + k);
    std::vector<T> v(len);
    ScalarHelper<T>::Randomize(absl::MakeSpan(v));
    for (auto &x : v) out[k].push_back(Tr<T>::ToInt(x));
  }
  int bits = RingFor<T>(0).Bits();
  for (int i = 0; i < len; i++) {
    u128 ones = 0, zeros = 0;
    for (auto &o : out) ones |= o[i], zeros |= ~o[i];
    for (int b = 0; b < bits; b++)
      PBT_REQUIRE(c, ((ones >> b) & 1) && ((zeros >> b) & 1), "bit " << b << " of element " << i << " of " << len << " does not depend on the random source");
  }
}

// Ranges of various lengths, as one string of bytes.
template <class T>
std::string DrawBytes(int n, int step) {
  std::string s;
  while (static_cast<int>(s.size()) < n) {
    std::vector<T> v(static_cast<size_t>(step));
    ScalarHelper<T>::Randomize(absl::MakeSpan(v));
    for (auto &x : v) {
      u128 i = Tr<T>::ToInt(x);
      s.append(reinterpret_cast<const char *>(&i), std::min(sizeof(T), sizeof i));
    }
  }
  s.resize(n);
  return s;
}
// No aligned group of 16 bytes may occur twice.
void Distinct(Ctx &c, const std::vector<std::string> &parts, const char *what) {
  std::unordered_set<std::string> seen;
  for (auto &s : parts)
    for (size_t i = 0; i + 16 <= s.size(); i += 16) PBT_REQUIRE(c, seen.insert(s.substr(i, 16)).second, "the same 16 random bytes were produced twice by " << what);
}
template <class T>
void Processes(Ctx &c) {
  int before = 16 * static_cast<int>(c.Range(0, 150)), n = 16 * static_cast<int>(c.Range(1, 100)), step = static_cast<int>(c.Range(1, 40));
  c.Desc() << Tr<T>::Name() << " in three processes with the real source, " << before << " bytes before and " << n << " after forking, ranges of " << step;
  c.NonTrivial();
  verif_rand::ClearThreadTape();
  std::vector<std::string> all = {DrawBytes<T>(before, step)};
  for (int k = 0; k < 2; k++) {
    int fd[2];
    if (pipe(fd) != 0) return;
    pid_t p = fork();
    if (p == 0) {
      std::string s = DrawBytes<T>(n, step);
      if (write(fd[1], s.data(), s.size()) < 0) _exit(1);
      _exit(0);
    }
    close(fd[1]);
    std::string s(n, 0);
    ssize_t got = read(fd[0], &s[0], n);
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    PBT_REQUIRE(c, !WIFSIGNALED(st), "drawing random elements in a child process ended it with signal " << WTERMSIG(st));
    if (got != n) return;
    all.push_back(s);
  }
  all.push_back(DrawBytes<T>(n, step));
  Distinct(c, all, "related processes");
}
template <class T>
void Threads(Ctx &c) {
  int threads = static_cast<int>(c.Range(2, 8)), step = static_cast<int>(c.Range(1, 12));
  int n = 16 * static_cast<int>(c.Range(500, 3000));
  c.Desc() << Tr<T>::Name() << " in " << threads << " threads with the real source, " << n << " bytes each, ranges of " << step;
  c.NonTrivial();
  verif_rand::ClearThreadTape();
  std::vector<std::string> all(threads);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < threads; t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < threads) {
      }
      all[t] = DrawBytes<T>(n, step);
    });
  for (auto &t : th) t.join();
  Distinct(c, all, "concurrent threads");
}

#ifdef VERIF_HUGE
// Ranges of more than 2^31 and 2^32 bytes: every page of the range is filled,
// nothing behind it, and no sampled block occurs twice.
template <class T>
void Huge(Ctx &c) {
  static_assert(sizeof(T) <= 16 && std::is_trivially_copyable<T>::value, "");
  size_t limit = size_t{1} << (c.Bool() ? 31 : 32);
  size_t len = limit / sizeof(T) + c.Choice(40000);
  if (c.Bool()) len = limit / sizeof(T) - c.Choice(2);
  size_t bytes = len * sizeof(T), mapped = (bytes + 3 * 4096) & ~size_t{4095};
  c.Desc() << Tr<T>::Name() << " range of " << len << " elements (" << bytes << " bytes)";
  c.NonTrivial();
  verif_rand::SetThreadTape(c.Choice(UINT64_MAX));
  uint8_t *m = static_cast<uint8_t *>(mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (m == MAP_FAILED) {
    c.Label("no memory");
    return;
  }
  struct Unmap {
    uint8_t *m;
    size_t n;
    ~Unmap() { munmap(m, n); }
  } unmap{m, mapped};
  ScalarHelper<T>::Randomize(absl::Span<T>(reinterpret_cast<T *>(m), len));
  std::unordered_set<uint64_t> seen;
  for (size_t i = 0; i + 64 <= bytes; i += 4096 * 8) {
    uint64_t x, any = 0;
    memcpy(&x, m + i, 8);
    for (int k = 0; k < 8; k++) {
      uint64_t y;
      memcpy(&y, m + i + 8 * k, 8);
      any |= y;
    }
    PBT_REQUIRE(c, any != 0, "bytes " << i << " to " << i + 63 << " of a range of " << bytes << " bytes are not overwritten");
    PBT_REQUIRE(c, seen.insert(x).second, "the same 8 random bytes were produced twice in a range of " << bytes << " bytes (the second time at byte " << i << ")");
  }
  uint8_t last = 0;
  for (size_t i = bytes - 16; i < bytes; i++) last |= m[i];
  PBT_REQUIRE(c, last != 0, "the last 16 bytes of a range of " << bytes << " bytes are not overwritten");
  for (size_t i = bytes; i < mapped; i++) PBT_REQUIRE(c, m[i] == 0, "byte " << i - bytes << " after a range of " << bytes << " bytes was changed");
}
#define HUGE_TYPE(T, name) pbt::Register huge_##name{{"randomize_huge_" #name, Huge<T>, 2, 8, 0, -1, 0.34, nullptr, 4}};
HUGE_TYPE(uint8_t, uint8)
HUGE_TYPE(uint16_t, uint16)
HUGE_TYPE(uint64_t, uint64)
HUGE_TYPE(absl::uint128, uint128)
HUGE_TYPE(gf128, gf128)
#else
#define TYPE(T, name, n1, n2)                                                               \
  pbt::Register range_##name{{"randomize_range_" #name, Range<T>, n1, n1 * 30, 0, -1, 0.1}};            \
  pbt::Register dist_##name{{"randomize_distribution_" #name, Distribution<T>, n2, n2 * 30, 0, -1, 0.05}}; \
  pbt::Register long_##name{{"randomize_long_" #name, Long<T>, 24, 200, 0, -1, 0.2}};                     \
  pbt::Register lag_##name{{"randomize_distances_" #name, Distances<T>, 16, 300, 0, -1, 0.2}};
#define SMALL(T, name) pbt::Register all_##name{{"randomize_every_value_" #name, EveryValue<T>, 10, 200, 0, -1, 0.2}};
#define SOURCE(T, name)                                                              \
  pbt::Register src_##name{{"randomize_source_" #name, Source<T>, 200, 6000, 0, -1, 0.1}}; \
  pbt::Register proc_##name{{"randomize_processes_" #name, Processes<T>, 20, 200, 0, -1, 0.34}}; \
  pbt::Register thr_##name{{"randomize_threads_" #name, Threads<T>, 12, 200, 0, -1, 0.1}};
TYPE(uint8_t, uint8, 20000, 1500)
TYPE(uint16_t, uint16, 20000, 1500)
TYPE(uint32_t, uint32, 20000, 1500)
TYPE(uint64_t, uint64, 20000, 1500)
TYPE(absl::uint128, uint128, 20000, 1500)
TYPE(gf128, gf128, 20000, 1500)
TYPE(NTL::ZZ_p, ZZ_p, 25000, 2000)
TYPE(NTL::zz_p, zz_p, 25000, 2000)
SMALL(uint8_t, uint8)
SMALL(uint16_t, uint16)
SMALL(NTL::ZZ_p, ZZ_p)
SMALL(NTL::zz_p, zz_p)
SOURCE(uint8_t, uint8)
SOURCE(uint16_t, uint16)
SOURCE(uint32_t, uint32)
SOURCE(uint64_t, uint64)
SOURCE(absl::uint128, uint128)
SOURCE(gf128, gf128)
#endif
}  // namespace
