// C02: representations of field elements.
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <set>
#include <thread>
#include <unordered_set>

#include <sstream>

#include "absl/container/flat_hash_set.h"
#include "absl/hash/hash.h"
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/archive/text_iarchive.hpp"
#include "boost/archive/text_oarchive.hpp"
#include "boost/serialization/utility.hpp"
#include "boost/serialization/vector.hpp"
#include "distributed_vector_ole/gf128.h"
#include "pbt.h"
#include "rand_tape.h"
#include "stats.h"

using distributed_vector_ole::gf128;
using pbt::Ctx;
using pbt::Hex;
using pbt::u128;

namespace {
void Expect(Ctx &c, const gf128 &x, u128 v, const char *what) {
  uint64_t lo = static_cast<uint64_t>(v), hi = static_cast<uint64_t>(v >> 64);
  std::vector<uint64_t> w = x.as_words();
  PBT_REQUIRE(c, w.size() == 2 && w[0] == lo && w[1] == hi,
              what << ": as_words() of " << Hex(v) << " returns {" << (w.size() > 0 ? w[0] : 0) << "," << (w.size() > 1 ? w[1] : 0) << "} (" << w.size() << " words)");
  absl::uint128 i = static_cast<absl::uint128>(x);
  PBT_REQUIRE(c, absl::Uint128Low64(i) == lo && absl::Uint128High64(i) == hi, what << ": 128-bit integer conversion of " << Hex(v) << " returns "
                                                                                   << Hex(static_cast<u128>(absl::Uint128High64(i)) << 64 | absl::Uint128Low64(i)));
  std::ostringstream os;
  os << x;
  PBT_REQUIRE(c, os.str() == "gf128(" + pbt::Dec(v) + ")", what << ": printing " << Hex(v) << " gives \"" << os.str() << "\"");
  PBT_REQUIRE(c, x.is_zero() == (v == 0), what << ": is_zero() of " << Hex(v));
  PBT_REQUIRE(c, x == x && !(x != x), what << ": element differs from itself");
}

void Accessors(Ctx &c) {
  u128 v = c.Bits128();
  uint64_t lo = static_cast<uint64_t>(v), hi = static_cast<uint64_t>(v >> 64);
  c.Desc() << "value " << Hex(v);
  c.NonTrivial(hi != 0 && lo != 0);
  Expect(c, gf128(hi, lo), v, "two-word constructor");
  Expect(c, gf128(absl::MakeUint128(hi, lo)), v, "128-bit constructor");
  Expect(c, gf128(lo), lo, "one-word constructor");
  gf128 a(hi, lo), b(a), d;
  Expect(c, d, 0, "default constructor");
  d = a;
  Expect(c, b, v, "copy");
  Expect(c, d, v, "assignment");
  PBT_REQUIRE(c, a == b && !(a != b), "copies compare unequal");
  PBT_REQUIRE(c, absl::Hash<gf128>()(a) == absl::Hash<gf128>()(gf128(absl::MakeUint128(hi, lo))), "equal elements hash differently: " << Hex(v));
  // Neighbours in every representation bit.
  int k = static_cast<int>(c.Choice(127));
  u128 w = v ^ (static_cast<u128>(1) << k);
  gf128 e(static_cast<uint64_t>(w >> 64), static_cast<uint64_t>(w));
  PBT_REQUIRE(c, !(a == e) && a != e && !(e == a) && e != a, "elements that differ in bit " << k << " compare equal: " << Hex(v));
  // Swapped words.
  gf128 f(lo, hi);
  PBT_REQUIRE(c, (a == f) == (lo == hi), "word-swapped element comparison wrong for " << Hex(v));
  // The same value reached by arithmetic.
  gf128 g = (a + e) + e;
  Expect(c, g, v, "(a+e)+e");
  PBT_REQUIRE(c, g == a && absl::Hash<gf128>()(g) == absl::Hash<gf128>()(a), "equal elements hash or compare differently");
  Expect(c, gf128::zero(), 0, "zero()");
  Expect(c, gf128::one(), 1, "one()");
  Expect(c, gf128::multiplicative_generator, 2, "multiplicative_generator");
}

template <class OA, class IA>
void RoundTrip(Ctx &c, const std::vector<gf128> &v, bool single, const char *kind) {
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  {
    OA oa(ss);
    if (single)
      for (auto &x : v) {
        const gf128 &cx = x;
        oa << cx;
      }
    else
      oa << v;
    uint32_t tail = 0xfeedbeef;
    oa << tail;
  }
  std::vector<gf128> r;
  uint32_t tail = 0;
  {
    IA ia(ss);
    if (single) {
      r.assign(v.size(), gf128(0x1111111111111111ull, 0x2222222222222222ull));
      for (auto &x : r) ia >> x;
    } else {
      r.assign(3, gf128(7, 9));
      ia >> r;
    }
    ia >> tail;
  }
  PBT_REQUIRE(c, r.size() == v.size() && tail == 0xfeedbeef, kind << " archive round trip loses elements");
  for (size_t i = 0; i < v.size(); i++)
    PBT_REQUIRE(c, r[i].as_words() == v[i].as_words(), kind << " archive round trip changes element " << i);
}

void Archive(Ctx &c) {
  int n = static_cast<int>(c.Size(0, 40));
  std::vector<gf128> v;
  for (int i = 0; i < n; i++) {
    u128 x = c.Bits128();
    v.push_back(gf128(static_cast<uint64_t>(x >> 64), static_cast<uint64_t>(x)));
    if (i < 6) c.Desc() << Hex(x) << " ";
  }
  bool single = c.Bool();
  c.Desc() << "(" << n << " elements, " << (single ? "one by one" : "as vector") << ")";
  c.NonTrivial(n >= 1);
  RoundTrip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(c, v, single, "binary");
  RoundTrip<boost::archive::text_oarchive, boost::archive::text_iarchive>(c, v, single, "text");
}

// A hash set of elements behaves like a set of their bit patterns.
void HashSet(Ctx &c) {
  int n = static_cast<int>(c.Size(1, 60));
  absl::flat_hash_set<gf128> s;
  std::vector<u128> ref;
  for (int i = 0; i < n; i++) {
    u128 x = c.Bool() && !ref.empty() ? ref[c.Choice(ref.size() - 1)] ^ (static_cast<u128>(c.Choice(1)) << c.Choice(127)) : c.Bits128();
    bool fresh = true;
    for (auto y : ref) fresh &= y != x;
    bool ins = s.insert(gf128(static_cast<uint64_t>(x >> 64), static_cast<uint64_t>(x))).second;
    PBT_REQUIRE(c, ins == fresh, "hash set insertion of " << Hex(x) << " reports " << ins << ", expected " << fresh);
    if (fresh) ref.push_back(x);
  }
  c.Desc() << n << " insertions, " << ref.size() << " distinct";
  c.NonTrivial(ref.size() >= 2 && static_cast<int>(ref.size()) < n);
  PBT_REQUIRE(c, s.size() == ref.size(), "hash set size differs");
  for (auto x : ref) PBT_REQUIRE(c, s.contains(gf128(absl::MakeUint128(static_cast<uint64_t>(x >> 64), static_cast<uint64_t>(x)))), "element lost: " << Hex(x));
}

// Random elements use all 128 bits, whatever the object held before.
void Random(Ctx &c) {
  uint64_t seed = c.Choice(UINT64_MAX);
  int n = 400;
  u128 before = c.Bits128();
  std::vector<int> ones(128, 0), dep(128, 0);
  verif_rand::ThreadTape tape(seed);
  absl::flat_hash_set<gf128> seen;
  u128 prev = 0;
  gf128 guard[3];
  for (int i = 0; i < n; i++) {
    u128 v;
    gf128 x(static_cast<uint64_t>(before >> 64), static_cast<uint64_t>(before));
    if (i % 2) {
      guard[0] = guard[2] = gf128(0xabcdef, 0x123456);
      guard[1] = x;
      guard[1].randomize();
      PBT_REQUIRE(c, guard[0] == gf128(0xabcdef, 0x123456) && guard[2] == guard[0], "randomize() writes outside its object");
      x = guard[1];
    } else {
      x = gf128::random_element();
    }
    absl::uint128 a = static_cast<absl::uint128>(x);
    v = static_cast<u128>(absl::Uint128High64(a)) << 64 | absl::Uint128Low64(a);
    for (int b = 0; b < 128; b++) ones[b] += (v >> b) & 1, dep[b] += ((v ^ prev) >> b) & 1;
    prev = v;
    PBT_REQUIRE(c, seen.insert(x).second, "the same random element was produced twice: " << Hex(v));
  }
  c.Desc() << n << " random elements, first value " << Hex(before) << ", tape " << seed;
  c.NonTrivial();
  for (int b = 0; b < 128; b++) {
    PBT_REQUIRE(c, stats::BinomialOk(ones[b], n, 0.5), "bit " << b << " of random elements is set in " << ones[b] << " of " << n << " draws");
    PBT_REQUIRE(c, stats::BinomialOk(dep[b], n, 0.5), "bit " << b << " of consecutive random elements differs in " << dep[b] << " of " << n << " draws");
  }
  // Another state of the source gives unrelated elements.
  verif_rand::SetThreadTape(seed);
  std::vector<gf128> r1, r2;
  for (int i = 0; i < 8; i++) r1.push_back(gf128::random_element());
  verif_rand::SetThreadTape(seed + 1);
  for (int i = 0; i < 8; i++) r2.push_back(gf128::random_element());
  for (auto &x : r1)
    for (auto &y : r2) PBT_REQUIRE(c, x != y, "random elements do not depend on the random source");
}

// Separate processes and threads obtain different elements from the real
// source, also when elements were drawn before they were started.
std::vector<std::array<uint64_t, 2>> Draw(int n) {
  std::vector<std::array<uint64_t, 2>> r;
  for (int i = 0; i < n; i++) {
    gf128 x = gf128::random_element();
    if (i % 2) x.randomize();
    r.push_back({x.as_words()[0], x.as_words()[1]});
  }
  return r;
}
void Processes(Ctx &c) {
  int before = static_cast<int>(c.Range(0, 150)), n = static_cast<int>(c.Range(1, 100));
  c.Desc() << "three processes, real random source, " << before << " elements before and " << n << " after forking";
  c.NonTrivial();
  verif_rand::ClearThreadTape();
  auto all = Draw(before);
  for (int k = 0; k < 2; k++) {
    int fd[2];
    if (pipe(fd) != 0) return;
    pid_t p = fork();
    if (p == 0) {
      auto w = Draw(n);
      if (write(fd[1], w.data(), 16 * w.size()) < 0) _exit(1);
      _exit(0);
    }
    close(fd[1]);
    std::vector<std::array<uint64_t, 2>> w(n);
    ssize_t got = read(fd[0], w.data(), 16 * w.size());
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    PBT_REQUIRE(c, !WIFSIGNALED(st), "drawing random elements in a child process ended it with signal " << WTERMSIG(st));
    if (got != 16 * n) return;
    all.insert(all.end(), w.begin(), w.end());
  }
  auto w = Draw(n);
  all.insert(all.end(), w.begin(), w.end());
  std::set<uint64_t> seen;
  for (auto &e : all)
    for (uint64_t x : e) PBT_REQUIRE(c, seen.insert(x).second, "the same random word was produced twice by related processes: " << Hex(x));
}
void Threads(Ctx &c) {
  int threads = static_cast<int>(c.Range(2, 8)), n = static_cast<int>(c.Range(1000, 6000)), before = static_cast<int>(c.Range(0, 40));
  c.Desc() << threads << " threads, real random source, " << n << " elements each after " << before << " common ones";
  c.NonTrivial();
  verif_rand::ClearThreadTape();
  std::vector<std::vector<std::array<uint64_t, 2>>> got(threads);
  auto all = Draw(before);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < threads; t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < threads) {
      }
      got[t] = Draw(n);
    });
  for (auto &t : th) t.join();
  for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
  std::unordered_set<uint64_t> seen;
  for (auto &e : all)
    for (uint64_t x : e) PBT_REQUIRE(c, seen.insert(x).second, "the same random word was produced twice in concurrent threads: " << Hex(x));
}

pbt::Register r1{{"gf128_accessors", Accessors, 60000, 3000000, 0, -1, 0.1}};
pbt::Register r2{{"gf128_archive", Archive, 8000, 300000, 0, -1, 0.2}};
pbt::Register r3{{"gf128_hash_set", HashSet, 8000, 300000, 0, -1, 0.2}};
pbt::Register r4{{"gf128_random", Random, 300, 20000, 0, -1, 0.1}};
pbt::Register r5{{"gf128_random_processes", Processes, 40, 400, 0, -1, 0.25}};
pbt::Register r6{{"gf128_random_threads", Threads, 40, 600, 0, -1, 0.1}};
}  // namespace
