// C11: bucket hashing. C12 (VERIF_CUCKOO): cuckoo placement. C13
// (VERIF_BUCKETS): recommended bucket counts.
#include <omp.h>

#include <cmath>
#include <set>

#include "concurrent.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "pbt.h"
#include "scalars.h"
#include "stats.h"

using distributed_vector_ole::CuckooHasher;
using pbt::Ctx;
using pbt::Hex;
using pbt::u128;
using sc::FromAbsl;
using sc::ToAbsl;

namespace {
typedef std::vector<std::vector<int64_t>> Table;  // per input, per hash function

struct Threads {
  explicit Threads(int n) { omp_set_num_threads(n); }
  ~Threads() { omp_set_num_threads(1); }
};

std::unique_ptr<CuckooHasher> Make(Ctx &c, u128 key, int k, double s = 40) {
  auto r = CuckooHasher::Create(ToAbsl(key), k, s);
  PBT_REQUIRE(c, r.ok(), "Create with " << k << " hash functions fails");
  return std::move(r.ValueOrDie());
}
template <class T>
Table HashAs(Ctx &c, CuckooHasher &h, const std::vector<u128> &in, int64_t buckets) {
  std::vector<T> v;
  for (auto x : in) v.push_back(sc::Tr<T>::FromInt(x));
  auto r = h.Hash(absl::MakeConstSpan(v), buckets);
  PBT_REQUIRE(c, r.ok(), "Hash of " << in.size() << " inputs into " << buckets << " buckets fails: " << r.status().message());
  Table t;
  for (auto &e : r.ValueOrDie()) t.emplace_back(e.begin(), e.end());
  return t;
}
typedef Table (*HashFn)(Ctx &, CuckooHasher &, const std::vector<u128> &, int64_t);

std::vector<u128> DrawInputs(Ctx &c, int n, int bits, bool distinct) {
  std::vector<u128> v;
  std::set<u128> seen;
  u128 mask = bits == 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << bits) - 1;
  int mode = static_cast<int>(c.Choice(3));
  pbt::Rng r = c.Bulk();
  u128 base = c.Bits128();
  for (int i = 0; i < n; i++) {
    u128 x;
    switch (mode) {
      case 0: x = base + i; break;                    // consecutive
      case 1: x = r.U128(); break;
      case 2: x = i < 40 ? c.Bits128() : r.U128(); break;
      default: x = !v.empty() && (r() & 1) ? v[r() % v.size()] ^ (static_cast<u128>(r() % 4 != 0) << (r() % bits)) : r.U128();  // neighbours and duplicates
    }
    x &= mask;
    if (distinct) {
      while (seen.count(x)) x = (x + 1) & mask;
      seen.insert(x);
    }
    v.push_back(x);
  }
  return v;
}
int64_t DrawBuckets(Ctx &c, int64_t lo, int64_t hi) {
  if (c.Chance(1, 3)) return c.Size(lo, hi < 1000 ? hi : 1000);
  int k = static_cast<int>(c.Choice(62));
  int64_t v = (int64_t{1} << k) + c.Range(-2, 2);
  if (c.Bool()) v = c.Size(lo, hi);
  return v < lo ? lo : v > hi ? hi : v;
}
double BitsNeeded(double s, size_t n, int k, int64_t b) { return s + std::log2(static_cast<double>(n)) + std::log2(k) + std::log2(static_cast<double>(b)); }

// Sequences of questions to a few instances, each question like an earlier one
// in all but one respect: what an instance remembers under an incomplete key
// shows.
struct Ask {
  int inst, what, ty, threads;  // what: 0 Hash, 1 HashSimple, 2 HashCuckoo
  int64_t buckets;
  std::vector<u128> in;
};
struct Instance {
  u128 key;
  int k;
  double s;
  std::unique_ptr<CuckooHasher> h;
};
constexpr int kWidths[] = {8, 16, 32, 64, 128};
u128 Mask(int ty) { return kWidths[ty] == 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << kWidths[ty]) - 1; }
void DrawAsks(Ctx &c, int min_k, bool distinct, int kinds, std::vector<Instance> *inst, std::vector<Ask> *asks) {
  u128 key = c.Bits128();
  int k0 = static_cast<int>(c.Chance(1, 2) ? 3 : c.Range(min_k, 6));
  for (int i = 0, n = static_cast<int>(c.Range(1, 3)); i < n; i++) {
    Instance x;
    x.key = i ? c.Relative(key) : key;
    x.k = c.Chance(1, 4) ? static_cast<int>(c.Range(min_k, 6)) : k0;
    x.s = static_cast<double>(c.Bool() ? 40 : c.Range(0, 60));
    x.h = Make(c, x.key, x.k, x.s);
    inst->push_back(std::move(x));
  }
  for (int q = 0, n = static_cast<int>(c.Range(2, 9)); q < n; q++) {
    Ask a;
    if (q == 0 || c.Chance(1, 8)) {
      a.inst = static_cast<int>(c.Choice(inst->size() - 1));
      a.what = static_cast<int>(c.Choice(kinds - 1));
      a.ty = static_cast<int>(c.Range(1, 4));
      a.threads = static_cast<int>(c.Range(1, 8));
      a.in = DrawInputs(c, static_cast<int>(c.Chance(1, 4) ? c.Range(0, 3) : c.Size(0, 40)), kWidths[a.ty], distinct);
      a.buckets = c.Chance(1, 4) ? c.Range(1, 8) : c.Size(1, 200);
      asks->push_back(std::move(a));
      continue;
    }
    a = c.Bool() ? asks->back() : c.Pick(*asks);
    auto &v = a.in;
    size_t i = v.empty() ? 0 : c.Chance(1, 3) ? v.size() / 2 : c.Choice(v.size() - 1);
    switch (c.Choice(9)) {
      case 0: a.inst = static_cast<int>(c.Choice(inst->size() - 1)); break;
      case 1: a.what = static_cast<int>(c.Choice(kinds - 1)); break;
      case 2: a.ty = static_cast<int>(c.Range(a.ty, 4)); break;
      case 3: a.buckets += c.Bool() || a.buckets == 1 ? 1 : -1; break;
      case 4: a.buckets = c.Bool() ? 2 * a.buckets : c.Size(1, 200); break;
      case 5:
        if (!v.empty()) std::swap(v[i], v[c.Choice(v.size() - 1)]);
        break;
      case 6:
        if (!v.empty()) v.erase(v.begin() + i);
        break;
      case 7: v.push_back((v.empty() ? 0 : v.back() + 1) & Mask(a.ty)); break;
      case 8:
        if (v.size() > 1) v[i] += 1, v[(i + 1) % v.size()] -= 1;  // same sum
        break;
      default:
        if (!v.empty()) v[i] = c.Relative(v[i]);
    }
    for (auto &x : v) x &= Mask(a.ty);
    if (distinct) {
      std::set<u128> seen;
      for (auto &x : v)
        while (!seen.insert(x).second) x = (x + 1) & Mask(a.ty);
    }
    asks->push_back(std::move(a));
  }
  for (auto &x : *inst) c.Desc() << "hasher key " << Hex(x.key) << ", " << x.k << " functions, security " << x.s << "; ";
  for (auto &a : *asks) {
    c.Desc() << "\n  " << (a.what == 0 ? "Hash" : a.what == 1 ? "HashSimple" : "HashCuckoo") << " by " << a.inst << " of " << a.in.size() << " uint" << kWidths[a.ty] << " into " << a.buckets << " buckets:";
    for (size_t i = 0; i < a.in.size() && i < 6; i++) c.Desc() << " " << pbt::Dec(a.in[i]);
  }
}
// Every input on its own, by an instance that hashes nothing else.
Table Alone(Ctx &c, const Instance &x, const Ask &a) {
  omp_set_num_threads(1);
  Table t;
  auto h = Make(c, x.key, x.k, x.s);
  for (auto v : a.in) t.push_back(HashAs<absl::uint128>(c, *h, {v}, a.buckets)[0]);
  return t;
}

#if !defined(VERIF_CUCKOO) && !defined(VERIF_BUCKETS)
void Assignment(Ctx &c) {
  static const HashFn fns[] = {HashAs<uint8_t>, HashAs<uint16_t>, HashAs<uint32_t>, HashAs<uint64_t>, HashAs<absl::uint128>};
  static const int widths[] = {8, 16, 32, 64, 128};
  int ty = static_cast<int>(c.Range(0, 4));
  u128 key = c.Bits128();
  int k = static_cast<int>(c.Chance(1, 4) ? c.Range(1, 40) : c.Range(1, 5));
  int64_t buckets = DrawBuckets(c, 1, int64_t{1} << 62);
  int n = static_cast<int>(c.Size(0, pbt::Sanitized() ? 60 : 300));
  int threads = static_cast<int>(c.Range(1, 16));
  auto in = DrawInputs(c, n, widths[ty], false);
  c.Desc() << n << " inputs of " << widths[ty] << " bits, " << buckets << " buckets, " << k << " hash functions, " << threads << " threads, key " << Hex(key);
  c.NonTrivial(n >= 2 && buckets >= 2);
  omp_set_num_threads(1);
  auto h = Make(c, key, k);
  Table ref = fns[ty](c, *h, in, buckets);
  PBT_REQUIRE(c, static_cast<int>(ref.size()) == n, "Hash returns " << ref.size() << " entries for " << n << " inputs");
  for (int i = 0; i < n; i++) {
    PBT_REQUIRE(c, static_cast<int>(ref[i].size()) == k, "input " << i << " has " << ref[i].size() << " buckets for " << k << " hash functions");
    for (int j = 0; j < k; j++) PBT_REQUIRE(c, ref[i][j] >= 0 && ref[i][j] < buckets, "hash function " << j << " sends input " << i << " to bucket " << ref[i][j] << " of " << buckets);
  }
  // Same key, other instance, other security level, more hash functions, other
  // integer type, other thread count, other order, other companions.
  int more = k + static_cast<int>(c.Range(0, 3));
  double s2 = static_cast<double>(c.Range(0, 100));
  auto h2 = Make(c, key, more, s2);
  {
    std::vector<u128> warm = DrawInputs(c, static_cast<int>(c.Range(0, 5)), 64, false);
    HashAs<uint64_t>(c, *h2, warm, 1 + static_cast<int64_t>(c.Choice(1000)));
  }
  // A hasher of another, related key in between.
  std::unique_ptr<CuckooHasher> h3;
  Table other;
  if (c.Chance(1, 3)) {
    u128 key3 = c.Relative(key);
    h3 = Make(c, key3, k);
    other = fns[ty](c, *h3, in, buckets);
    c.Label("related key");
    c.Desc() << ", related key " << Hex(key3);
    std::set<u128> ds(in.begin(), in.end());
    double bits = static_cast<double>(ds.size()) * k * std::log2(static_cast<double>(buckets));
    if (key3 == key) PBT_REQUIRE(c, other == ref, "a second hasher of the same key hashes differently");
    else if (bits > 60) PBT_REQUIRE(c, other != ref, "hashers of two keys agree on " << n << " inputs");
  }
  std::vector<size_t> order(n);
  for (int i = 0; i < n; i++) order[i] = i;
  pbt::Rng r = c.Bulk();
  for (int i = n - 1; i > 0; i--) std::swap(order[i], order[r.Upto(i)]);
  std::vector<u128> in2;
  for (auto i : order) in2.push_back(in[i]);
  int extra = static_cast<int>(c.Range(0, 3));
  for (int i = 0; i < extra; i++) in2.push_back(r.U128() & (widths[ty] == 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << widths[ty]) - 1));
  int ty2 = static_cast<int>(c.Range(ty, 4));
  Table got;
  {
    Threads t(threads);
    got = fns[ty2](c, *h2, in2, buckets);
  }
  PBT_REQUIRE(c, got.size() == in2.size(), "Hash returns " << got.size() << " entries");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < k; j++)
      PBT_REQUIRE(c, got[i][j] == ref[order[i]][j], "hash function " << j << " of the same input " << Hex(in2[i]) << " (position " << order[i] << " resp. " << i << ", " << widths[ty] << " resp. " << widths[ty2] << " bits, " << threads
                                                                        << " threads) is " << ref[order[i]][j] << " and " << got[i][j]);
  if (n) {
    int i = static_cast<int>(c.Choice(n - 1));
    Table one = fns[ty](c, *h, {in[i]}, buckets);
    for (int j = 0; j < k; j++) PBT_REQUIRE(c, one[0][j] == ref[i][j], "hash function " << j << " of input " << i << " depends on the other inputs");
  }
  Table again = fns[ty](c, *h, in, buckets);
  PBT_REQUIRE(c, again == ref, "hashing the same inputs again gives other buckets");
  if (h3) PBT_REQUIRE(c, (fns[ty](c, *h3, in, buckets)) == other, "hashing the same inputs again with a related key gives other buckets");
}
// The same value hashes alike in all signed and unsigned types that hold it.
template <class T>
void SameIn(Ctx &c, CuckooHasher &h, const std::vector<absl::int128> &v, const Table &want, int64_t buckets, const char *type) {
  std::vector<T> in;
  std::vector<size_t> at;
  for (size_t i = 0; i < v.size(); i++) {
    if (absl::int128(std::numeric_limits<T>::min()) > v[i] || v[i] > absl::int128(std::numeric_limits<T>::max())) continue;
    in.push_back(static_cast<T>(v[i]));
    at.push_back(i);
  }
  auto r = h.Hash(absl::MakeConstSpan(in), buckets);
  PBT_REQUIRE(c, r.ok(), "Hash of " << type << " inputs fails");
  for (size_t i = 0; i < in.size(); i++)
    for (size_t j = 0; j < want[at[i]].size(); j++)
      PBT_REQUIRE(c, r.ValueOrDie()[i][j] == want[at[i]][j], "hash function " << j << " of input " << v[at[i]] << " is " << want[at[i]][j] << ", but " << r.ValueOrDie()[i][j] << " if the input has type " << type);
}
void SignedInputs(Ctx &c) {
  u128 key = c.Bits128();
  int64_t buckets = DrawBuckets(c, 2, int64_t{1} << 62);
  auto h = Make(c, key, 3);
  std::vector<absl::int128> v;
  for (int i = 0, n = static_cast<int>(c.Range(1, 30)); i < n; i++) {
    static const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 100, 127};
    absl::uint128 x = ToAbsl(c.Bits128()) >> (128 - bits[c.Choice(9)]);
    v.push_back(c.Bool() ? static_cast<absl::int128>(x) : -static_cast<absl::int128>(x) - c.Range(0, 1));
  }
  c.Desc() << "inputs";
  for (auto x : v) c.Desc() << " " << x;
  c.Desc() << ", " << buckets << " buckets, key " << Hex(key);
  c.NonTrivial();
  auto r = h->Hash(absl::MakeConstSpan(v), buckets);
  PBT_REQUIRE(c, r.ok(), "Hash fails");
  Table want;
  for (auto &e : r.ValueOrDie()) want.emplace_back(e.begin(), e.end());
  // As unsigned 128-bit words.
  std::vector<u128> w;
  for (auto x : v) w.push_back(FromAbsl(static_cast<absl::uint128>(x)));
  Table rw = HashAs<absl::uint128>(c, *h, w, buckets);
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] >= 0) PBT_REQUIRE(c, rw[i] == want[i], "input " << v[i] << " hashes differently as a signed and an unsigned 128-bit integer");
  SameIn<int8_t>(c, *h, v, want, buckets, "int8");
  SameIn<int16_t>(c, *h, v, want, buckets, "int16");
  SameIn<int32_t>(c, *h, v, want, buckets, "int32");
  SameIn<int64_t>(c, *h, v, want, buckets, "int64");
  SameIn<long long>(c, *h, v, want, buckets, "long long");
  SameIn<uint8_t>(c, *h, v, want, buckets, "uint8");
  SameIn<uint16_t>(c, *h, v, want, buckets, "uint16");
  SameIn<uint32_t>(c, *h, v, want, buckets, "uint32");
  SameIn<uint64_t>(c, *h, v, want, buckets, "uint64");
  // Different values do not meet among very many buckets.
  int64_t huge = int64_t{1} << 62;
  auto rh = h->Hash(absl::MakeConstSpan(v), huge);
  PBT_REQUIRE(c, rh.ok(), "Hash fails");
  for (size_t i = 0; i < v.size(); i++)
    for (size_t k = 0; k < i; k++)
      for (int j = 0; j < 3; j++) PBT_REQUIRE(c, v[i] == v[k] || rh.ValueOrDie()[i][j] != rh.ValueOrDie()[k][j], "inputs " << v[i] << " and " << v[k] << " share a bucket of 2^62");
}
// Instances used on several threads at the same time.
void ConcurrentUse(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8)), instances = static_cast<int>(c.Range(1, 4));
  struct Job {
    std::vector<uint64_t> in;
    int inst;
    int64_t buckets;
    Table want, simple;
  };
  std::vector<std::unique_ptr<CuckooHasher>> h;
  std::vector<int> k;
  u128 key = c.Bits128();
  for (int i = 0; i < instances; i++) {
    k.push_back(static_cast<int>(c.Range(1, 5)));
    h.push_back(Make(c, key + i, k.back()));
  }
  omp_set_num_threads(1);
  std::vector<Job> jobs(nt);
  c.Desc() << nt << " threads with " << instances << " instances, key " << Hex(key) << ":";
  for (auto &j : jobs) {
    j.inst = static_cast<int>(c.Choice(instances - 1));
    j.buckets = c.Size(1, 400);
    for (auto x : DrawInputs(c, static_cast<int>(c.Size(20, 400)), 64, false)) j.in.push_back(static_cast<uint64_t>(x));
    std::vector<u128> w(j.in.begin(), j.in.end());
    j.want = HashAs<uint64_t>(c, *h[j.inst], w, j.buckets);
    j.simple.resize(j.buckets);
    for (size_t i = 0; i < j.in.size(); i++)
      for (auto b : j.want[i]) j.simple[b].push_back(static_cast<int64_t>(i));
    c.Desc() << " " << j.in.size() << " inputs into " << j.buckets << " buckets by " << j.inst << ";";
  }
  c.NonTrivial();
  int rounds = pbt::Sanitized() ? 4 : 12;
  int regions = c.Bool() ? static_cast<int>(c.Range(1, 2)) : 0;
  if (regions) c.Label("in parallel regions");
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    const Job &j = jobs[t];
    omp_set_num_threads(1 + t % 3);
    for (int r = 0; r < rounds; r++) {
      auto a = h[j.inst]->Hash(absl::MakeConstSpan(j.in), j.buckets);
      if (!a.ok()) return "Hash fails";
      for (size_t i = 0; i < j.in.size(); i++)
        for (size_t f = 0; f < j.want[i].size(); f++)
          if (a.ValueOrDie()[i][f] != j.want[i][f]) return "hash function " + std::to_string(f) + " of input " + std::to_string(i) + " differs when other threads hash";
      auto s = h[j.inst]->HashSimple(absl::MakeConstSpan(j.in), j.buckets);
      if (!s.ok()) return "HashSimple fails";
      for (int64_t b = 0; b < j.buckets; b++)
        if (!std::equal(s.ValueOrDie()[b].begin(), s.ValueOrDie()[b].end(), j.simple[b].begin(), j.simple[b].end())) return "bucket " + std::to_string(b) + " differs when other threads hash";
    }
    return "";
  }, regions);
  if (!err.empty()) c.Fail(err);
}
template <class T>
void SimpleAs(Ctx &c, CuckooHasher &h, const std::vector<u128> &in, int64_t buckets, int k, int threads) {
  std::vector<T> v;
  for (auto x : in) v.push_back(sc::Tr<T>::FromInt(x));
  Table ref;
  {
    Threads t(1);
    ref = HashAs<T>(c, h, in, buckets);
  }
  Table want(buckets);
  for (size_t i = 0; i < in.size(); i++)
    for (int j = 0; j < k; j++) want[ref[i][j]].push_back(static_cast<int64_t>(i));
  Threads t(threads);
  auto r = h.HashSimple(absl::MakeConstSpan(v), buckets);
  PBT_REQUIRE(c, r.ok(), "HashSimple fails: " << r.status().message());
  auto &got = r.ValueOrDie();
  PBT_REQUIRE(c, static_cast<int64_t>(got.size()) == buckets, "HashSimple returns " << got.size() << " buckets instead of " << buckets);
  for (int64_t b = 0; b < buckets; b++)
    if (got[b] != want[b]) {
      std::ostringstream os;
      os << "bucket " << b << " of HashSimple (" << threads << " threads) is {";
      for (auto x : got[b]) os << x << " ";
      os << "}, expected {";
      for (auto x : want[b]) os << x << " ";
      c.Fail(os.str() + "}");
    }
}
void Simple(Ctx &c) {
  u128 key = c.Bits128();
  int k = static_cast<int>(c.Range(1, 6));
  int n = static_cast<int>(c.Size(0, pbt::Sanitized() ? 80 : 600));
  int64_t buckets = c.Chance(1, 3) ? c.Range(1, 12) : c.Size(1, 3000);
  int threads = static_cast<int>(c.Range(1, 16));
  double s = static_cast<double>(c.Range(0, 80));
  c.Desc() << n << " inputs into " << buckets << " buckets, " << k << " hash functions, " << threads << " threads";
  c.NonTrivial(n >= 2 && buckets >= 2);
  auto h = Make(c, key, k, s);
  if (c.Bool()) SimpleAs<absl::uint128>(c, *h, DrawInputs(c, n, 128, false), buckets, k, threads);
  else if (c.Bool()) SimpleAs<uint64_t>(c, *h, DrawInputs(c, n, 64, false), buckets, k, threads);
  else SimpleAs<uint16_t>(c, *h, DrawInputs(c, n, 16, false), buckets, k, threads);
}
void SimpleLarge(Ctx &c) {
  int n = static_cast<int>(c.Range(5000, pbt::Thorough() ? 400000 : 60000));
  int64_t buckets = c.Size(1, 20000);
  int k = static_cast<int>(c.Range(1, 3)), threads = static_cast<int>(c.Range(2, 16));
  c.Desc() << n << " inputs into " << buckets << " buckets, " << k << " hash functions, " << threads << " threads";
  c.NonTrivial();
  auto h = Make(c, c.Bits128(), k);
  SimpleAs<uint64_t>(c, *h, DrawInputs(c, n, 64, false), buckets, k, threads);
}
void Rejected(Ctx &c) {
  c.NonTrivial();
  int mode = static_cast<int>(c.Choice(3));
  if (mode == 0) {
    static const int ks[] = {0, -1, -3, INT32_MIN};
    int k = ks[c.Choice(3)];
    c.Desc() << k << " hash functions";
    auto r = CuckooHasher::Create(ToAbsl(c.Bits128()), k);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), k << " hash functions are not rejected as invalid");
    return;
  }
  int k = static_cast<int>(c.Range(1, 20));
  int n = static_cast<int>(c.Range(mode == 1 ? 0 : 1, 40));
  std::vector<uint64_t> in(n, 3);
  if (mode == 1) {
    static const int64_t bs[] = {0, -1, -2, -1000, INT64_MIN, INT64_MIN + 1};
    int64_t b = bs[c.Choice(5)];
    c.Desc() << b << " buckets, " << n << " inputs";
    auto h = Make(c, c.Bits128(), k);
    auto r1 = h->Hash(absl::MakeConstSpan(in), b);
    auto r2 = h->HashSimple(absl::MakeConstSpan(in), b);
    PBT_REQUIRE(c, !r1.ok() && mpc_utils::IsInvalidArgument(r1.status()), "Hash into " << b << " buckets is not rejected as invalid");
    PBT_REQUIRE(c, !r2.ok() && mpc_utils::IsInvalidArgument(r2.status()), "HashSimple into " << b << " buckets is not rejected as invalid");
    return;
  }
  // Needed bits around and above 128.
  int64_t b = c.Bool() ? c.Size(1, 2000) : DrawBuckets(c, 1, int64_t{1} << 62);
  double rest = BitsNeeded(0, n, k, b);
  double s = mode == 2 ? 128 - rest + (c.Bool() ? 1e-6 : -1e-6) * (1 + static_cast<double>(c.Choice(1000000))) : static_cast<double>(c.Range(0, 140));
  if (s < 0) s = 0;
  double need = s + rest;
  c.Desc() << "HashSimple needs " << need << " hash bits (" << n << " inputs, " << b << " buckets, " << k << " functions, security " << s << ")";
  c.Assume(std::fabs(need - 128) > 1e-7);
  auto h = Make(c, c.Bits128(), k, s);
  if (need > 128) {
    auto r = h->HashSimple(absl::MakeConstSpan(in), b);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "parameters that need " << need << " hash bits are not rejected as invalid");
    c.Label("needs more than 128 bits");
  } else if (b <= 100000) {
    auto r = h->HashSimple(absl::MakeConstSpan(in), b);
    PBT_REQUIRE(c, r.ok(), "parameters that need only " << need << " hash bits are rejected: " << r.status().message());
  }
}
// Assignments of different inputs, hash functions and keys behave like
// independent uniform choices.
void Uniform(Ctx &c) {
  u128 key = c.Bits128();
  int k = static_cast<int>(c.Chance(1, 4) ? c.Range(5, 20) : c.Range(2, 4));
  int b = static_cast<int>(c.Range(2, 20));
  const int n = 6000;
  int mode = static_cast<int>(c.Choice(3));
  int bit = static_cast<int>(c.Choice(127));
  std::vector<u128> in;
  pbt::Rng r = c.Bulk();
  u128 base = r.U128() & ~((static_cast<u128>(n) * 2) << bit);
  for (int i = 0; i < n; i++)
    switch (mode) {
      case 0: in.push_back(i); break;
      case 1: in.push_back(static_cast<u128>(i) << bit | (bit > 110 ? i : 0)); break;  // (distinct)
      case 2: in.push_back((static_cast<u128>(i) << 64) | 7); break;
      default: in.push_back(base + i);
    }
  c.Desc() << n << " inputs (mode " << mode << ", bit " << bit << "), " << b << " buckets, " << k << " functions, key " << Hex(key);
  c.NonTrivial();
  auto h = Make(c, key, k);
  Table t = HashAs<absl::uint128>(c, *h, in, b);
  auto h2 = Make(c, key ^ (static_cast<u128>(1) << c.Choice(127)), k);
  Table t2 = HashAs<absl::uint128>(c, *h2, in, b);
  for (int j = 0; j < k; j++) {
    std::vector<int64_t> one(b, 0), nb(b * b, 0), kk(b * b, 0);
    for (int i = 0; i < n; i++) {
      one[t[i][j]]++;
      if (i) nb[t[i - 1][j] * b + t[i][j]]++;
      kk[t[i][j] * b + t2[i][j]]++;
    }
    double z = stats::ChiZUniform(one);
    PBT_REQUIRE(c, z < 9, "hash function " << j << " is not uniform over " << b << " buckets (deviate " << z << ")");
    z = stats::ChiZUniform(nb);
    PBT_REQUIRE(c, z < 9, "hash function " << j << " of consecutive inputs is dependent over " << b << " buckets (deviate " << z << ")");
    z = stats::ChiZUniform(kk);
    PBT_REQUIRE(c, z < 9, "hash function " << j << " is dependent for two keys over " << b << " buckets (deviate " << z << ")");
    for (int l = 0; l < j; l++) {
      std::vector<int64_t> two(b * b, 0);
      for (int i = 0; i < n; i++) two[t[i][l] * b + t[i][j]]++;
      z = stats::ChiZUniform(two);
      PBT_REQUIRE(c, z < 9, "hash functions " << l << " and " << j << " are dependent over " << b << " buckets (deviate " << z << ")");
    }
  }
}
// The same for bucket counts of many bits: every part of the range is hit
// equally often. (All 128 hash bits have to be reduced for that: 64 bits are
// far from uniform over 3 * 2^61 buckets.)
void UniformWide(Ctx &c) {
  u128 key = c.Bits128();
  int k = static_cast<int>(c.Range(1, 4));
  int64_t b = c.Bool() ? c.Range(3, 63) << c.Range(20, 56) : c.Range(int64_t{1} << 40, INT64_MAX);
  if (c.Bool()) {
    while (b < int64_t{1} << 61) b *= 2;
  }
  const int n = 8000, q = 12;
  std::vector<u128> in;
  pbt::Rng r = c.Bulk();
  u128 base = r.U128();
  for (int i = 0; i < n; i++) in.push_back(base + i);
  c.Desc() << n << " inputs from " << Hex(base) << ", " << b << " buckets, " << k << " functions, key " << Hex(key);
  c.NonTrivial();
  auto h = Make(c, key, k);
  Table t = HashAs<absl::uint128>(c, *h, in, b);
  auto cell = [&](int64_t v) { return static_cast<int>(static_cast<u128>(v) * q / static_cast<u128>(b)); };
  for (int j = 0; j < k; j++) {
    std::vector<int64_t> one(q, 0);
    for (int i = 0; i < n; i++) one[cell(t[i][j])]++;
    double z = stats::ChiZUniform(one);
    PBT_REQUIRE(c, z < 9, "hash function " << j << " is not uniform over " << b << " buckets (deviate " << z << ")");
    for (int l = 0; l < j; l++) {
      std::vector<int64_t> two(q * q, 0);
      for (int i = 0; i < n; i++) two[cell(t[i][l]) * q + cell(t[i][j])]++;
      z = stats::ChiZUniform(two);
      PBT_REQUIRE(c, z < 9, "hash functions " << l << " and " << j << " are dependent over " << b << " buckets (deviate " << z << ")");
    }
  }
}
// With 2^62 buckets different inputs, functions and keys never meet, and all
// bits of the bucket index vary.
void Wide(Ctx &c) {
  u128 key = c.Bits128();
  int64_t b = (int64_t{1} << 62) - static_cast<int64_t>(c.Choice(1000));
  int k = static_cast<int>(c.Chance(1, 4) ? c.Range(6, 40) : c.Range(2, 5));
  u128 x = c.Bits128();
  std::vector<u128> in = {x};
  for (int i = 0; i < 128; i++) in.push_back(x ^ (static_cast<u128>(1) << i));
  c.Desc() << "neighbours of " << Hex(x) << ", " << b << " buckets, " << k << " functions, key " << Hex(key);
  c.NonTrivial();
  std::set<int64_t> seen;
  size_t want = 0;
  uint64_t ones = 0, zeros = 0;
  for (int v = 0; v < 3; v++) {
    auto h = Make(c, key ^ (v ? static_cast<u128>(1) << (v == 1 ? c.Choice(63) : 64 + c.Choice(63)) : 0), k);
    for (auto &e : HashAs<absl::uint128>(c, *h, in, b))
      for (auto q : e) {
        seen.insert(q), want++;
        ones |= q, zeros |= ~q;
      }
  }
  PBT_REQUIRE(c, seen.size() == want, "two different inputs, hash functions or keys share a bucket of 2^62 (" << want - seen.size() << " of " << want << ", inputs differ in one bit)");
  for (int i = 0; i < 62; i++) PBT_REQUIRE(c, ((ones >> i) & 1) && ((zeros >> i) & 1), "bit " << i << " of the bucket index is constant");
}
template <class T>
void AskAs(Ctx &c, Instance &x, const Ask &a, const Table &want, size_t q) {
  std::vector<T> v;
  for (auto e : a.in) v.push_back(sc::Tr<T>::FromInt(e));
  Threads t(a.threads);
  if (a.what == 0) {
    PBT_REQUIRE(c, HashAs<T>(c, *x.h, a.in, a.buckets) == want, "the assignment of question " << q << " depends on the questions before");
    return;
  }
  Table simple(a.buckets);
  for (size_t i = 0; i < want.size(); i++)
    for (auto b : want[i]) simple[b].push_back(static_cast<int64_t>(i));
  auto r = x.h->HashSimple(absl::MakeConstSpan(v), a.buckets);
  PBT_REQUIRE(c, r.ok(), "HashSimple of question " << q << " fails: " << r.status().message());
  auto &got = r.ValueOrDie();
  PBT_REQUIRE(c, got.size() == simple.size(), "HashSimple of question " << q << " returns " << got.size() << " buckets");
  for (size_t b = 0; b < simple.size(); b++)
    PBT_REQUIRE(c, simple[b].size() == got[b].size() && std::equal(simple[b].begin(), simple[b].end(), got[b].begin()), "bucket " << b << " of question " << q << " does not hold the inputs it should");
}
void HashHistory(Ctx &c) {
  std::vector<Instance> inst;
  std::vector<Ask> asks;
  DrawAsks(c, 1, false, 2, &inst, &asks);
  c.NonTrivial(asks.size() > 1 && asks.back().in.size() > 1);
  std::vector<Table> want;
  for (auto &a : asks) want.push_back(Alone(c, inst[a.inst], a));
  for (size_t q = 0; q < asks.size(); q++) {
    Instance &x = inst[asks[q].inst];
    switch (asks[q].ty) {
      case 1: AskAs<uint16_t>(c, x, asks[q], want[q], q); break;
      case 2: AskAs<uint32_t>(c, x, asks[q], want[q], q); break;
      case 3: AskAs<uint64_t>(c, x, asks[q], want[q], q); break;
      default: AskAs<absl::uint128>(c, x, asks[q], want[q], q);
    }
  }
}
pbt::Register r10{{"hash_history", HashHistory, 15000, 200000, 0, -1, 0.1}};
pbt::Register r1{{"hash_assignment", Assignment, 12000, 400000, 0, -1, 0.1}};
pbt::Register r2{{"hash_signed", SignedInputs, 5000, 200000, 0, -1, 0.1}};
pbt::Register r3{{"hash_simple", Simple, 8000, 300000, 0, -1, 0.1}};
pbt::Register r4{{"hash_simple_large", SimpleLarge, 40, 1500, 0, -1, 0.1}};
pbt::Register r5{{"hash_rejected", Rejected, 20000, 500000, 0, -1, 0.1}};
pbt::Register r6{{"hash_uniform", Uniform, 400, 20000, 0, -1, 0.05}};
pbt::Register r9{{"hash_uniform_wide", UniformWide, 300, 15000, 0, -1, 0.05}};
pbt::Register r8{{"hash_concurrent", ConcurrentUse, 150, 5000, 0, -1, 0.1}};
pbt::Register r7{{"hash_wide", Wide, 2000, 100000, 0, -1, 0.05}};
#endif

#ifdef VERIF_CUCKOO
// Largest matching of inputs to buckets (Kuhn).
bool Perfect(const Table &h, int64_t buckets) {
  std::vector<int64_t> owner(buckets, -1);
  std::vector<char> mark;
  std::function<bool(int64_t)> go = [&](int64_t i) {
    for (auto b : h[i]) {
      if (mark[b]) continue;
      mark[b] = 1;
      if (owner[b] < 0 || go(owner[b])) {
        owner[b] = i;
        return true;
      }
    }
    return false;
  };
  for (size_t i = 0; i < h.size(); i++) {
    mark.assign(buckets, 0);
    if (!go(static_cast<int64_t>(i))) return false;
  }
  return true;
}
template <class T>
void PlaceAs(Ctx &c, CuckooHasher &h, const std::vector<u128> &in, int64_t buckets, int k, const Table *own_buckets = nullptr) {
  std::vector<T> v;
  for (auto x : in) v.push_back(sc::Tr<T>::FromInt(x));
  Table ref = own_buckets ? *own_buckets : HashAs<T>(c, h, in, buckets);
  auto r = h.HashCuckoo(absl::MakeConstSpan(v), buckets);
  bool possible = in.size() <= 400 ? Perfect(ref, buckets) : true;
  if (!possible) c.Label("no placement exists");
  if (!r.ok()) {
    c.Label(possible ? "placement search exhausted" : "rejected: no placement");
    PBT_REQUIRE(c, mpc_utils::IsInternal(r.status()), "a failed placement of " << in.size() << " inputs into " << buckets << " buckets is not reported as an internal error: " << r.status().message());
    return;
  }
  c.Label("placed");
  PBT_REQUIRE(c, possible, "a placement was returned although none exists");
  auto &b = r.ValueOrDie();
  PBT_REQUIRE(c, static_cast<int64_t>(b.size()) == buckets, "HashCuckoo returns " << b.size() << " buckets instead of " << buckets);
  std::vector<int> count(in.size(), 0);
  for (int64_t i = 0; i < buckets; i++) {
    if (b[i] == -1) continue;
    PBT_REQUIRE(c, b[i] >= 0 && b[i] < static_cast<int64_t>(in.size()), "bucket " << i << " holds " << b[i] << ", which is no position of an input");
    count[b[i]]++;
    bool own = false;
    for (int j = 0; j < k; j++) own |= ref[b[i]][j] == i;
    PBT_REQUIRE(c, own, "input " << b[i] << " was placed in bucket " << i << ", which none of its hash functions assigns");
  }
  for (size_t i = 0; i < in.size(); i++) PBT_REQUIRE(c, count[i] == 1, "input " << i << " appears in " << count[i] << " buckets");
}
void Place(Ctx &c) {
  u128 key = c.Bits128();
  int k = static_cast<int>(c.Chance(1, 5) ? c.Range(2, 12) : c.Range(2, 4));
  int n = static_cast<int>(c.Chance(1, 3) ? c.Size(0, 12) : c.Size(0, 300));
  int64_t buckets;
  switch (c.Choice(4)) {
    case 0: buckets = n + static_cast<int64_t>(c.Choice(3)); break;                   // load close to 1
    case 1: buckets = n + n / 10 + static_cast<int64_t>(c.Choice(5)); break;
    case 2: buckets = n + n / 3 + static_cast<int64_t>(c.Choice(10)); break;
    case 3: buckets = 2 * n + static_cast<int64_t>(c.Choice(20)); break;
    default: buckets = c.Size(n, 4 * n + 40);
  }
  if (buckets < 1) buckets = 1;
  double s = static_cast<double>(c.Range(0, 80));
  c.Desc() << n << " inputs into " << buckets << " buckets, " << k << " hash functions, key " << Hex(key);
  c.NonTrivial(n >= 2);
  omp_set_num_threads(static_cast<int>(c.Range(1, 4)));
  auto h = Make(c, key, k, s);
  bool distinct = c.Chance(4, 5);
  int bits = c.Bool() ? 128 : 64;
  auto in = DrawInputs(c, n, bits, distinct);
  if (bits == 128) PlaceAs<absl::uint128>(c, *h, in, buckets, k);
  else PlaceAs<uint64_t>(c, *h, in, buckets, k);
  if (c.Bool()) PlaceAs<uint64_t>(c, *h, DrawInputs(c, static_cast<int>(c.Range(0, 20)), 64, true), 40, k);  // the same hasher again
}
void Large(Ctx &c) {
  int n = static_cast<int>(c.Range(1000, pbt::Thorough() ? 200000 : 30000));
  int k = static_cast<int>(c.Range(2, 4));
  int64_t buckets = n + static_cast<int64_t>(c.Choice(2 * n));
  c.Desc() << n << " inputs into " << buckets << " buckets, " << k << " hash functions";
  c.NonTrivial();
  auto h = Make(c, c.Bits128(), k);
  PlaceAs<uint64_t>(c, *h, DrawInputs(c, n, 64, true), buckets, k);
}
void Rejected(Ctx &c) {
  c.NonTrivial();
  int mode = static_cast<int>(c.Choice(3));
  int n = static_cast<int>(c.Range(1, 40));
  std::vector<uint64_t> in;
  for (int i = 0; i < n; i++) in.push_back(i);
  int k = static_cast<int>(c.Range(mode == 2 ? 1 : 2, 8));
  double s = 40;
  int64_t b = 1000;
  switch (mode) {
    case 0: {
      static const int64_t bs[] = {0, -1, -7, INT64_MIN};
      b = bs[c.Choice(3)];
      if (c.Bool()) in.clear();
      break;
    }
    case 1: {
      n = static_cast<int>(c.Range(2, 40));
      in.assign(n, 1);
      for (int i = 0; i < n; i++) in[i] = i;
      b = c.Range(1, n - 1);
      break;
    }
    case 2:
      k = 1;
      if (c.Bool()) in.clear();
      b = 1 + static_cast<int64_t>(c.Choice(100));
      break;
    default: {
      b = c.Bool() ? c.Size(n, 2000) : DrawBuckets(c, 1 << 20, int64_t{1} << 62);
      s = 128 - BitsNeeded(0, n, k, b) + 1e-6 * (1 + static_cast<double>(c.Choice(1000000)));
      if (s < 0) s = 130;
      if (c.Chance(1, 5)) s += 100;
    }
  }
  c.Desc() << in.size() << " inputs, " << b << " buckets, " << k << " hash functions, security " << s;
  auto h = Make(c, c.Bits128(), k, s);
  auto r = h->HashCuckoo(absl::MakeConstSpan(in), b);
  PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "not rejected as invalid");
}
// Just enough hash bits: must not be rejected as invalid.
void NotRejected(Ctx &c) {
  int n = static_cast<int>(c.Range(1, 30)), k = static_cast<int>(c.Range(2, 8));
  int64_t b = c.Size(4 * n, 3000);
  double s = 128 - BitsNeeded(0, n, k, b) - 1e-6 * (1 + static_cast<double>(c.Choice(1000000)));
  c.Desc() << n << " inputs, " << b << " buckets, " << k << " hash functions, security " << s << " (just below 128 bits)";
  c.NonTrivial();
  auto h = Make(c, c.Bits128(), k, s);
  PlaceAs<uint64_t>(c, *h, DrawInputs(c, n, 64, true), b, k);
}
// Several threads place at the same time, some with a common instance.
void ConcurrentUse(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8)), instances = static_cast<int>(c.Range(1, 3));
  std::vector<std::unique_ptr<CuckooHasher>> h;
  std::vector<int> k;
  u128 key = c.Bits128();
  for (int i = 0; i < instances; i++) {
    k.push_back(static_cast<int>(c.Range(2, 4)));
    h.push_back(Make(c, key + i, k.back()));
  }
  struct Job {
    std::vector<uint64_t> in;
    int inst;
    int64_t buckets;
    Table own;
    bool possible;
  };
  std::vector<Job> jobs(nt);
  omp_set_num_threads(1);
  c.Desc() << nt << " threads with " << instances << " instances, key " << Hex(key) << ":";
  for (auto &j : jobs) {
    j.inst = static_cast<int>(c.Choice(instances - 1));
    int n = static_cast<int>(c.Size(10, 200));
    j.buckets = n + static_cast<int64_t>(c.Choice(n));
    for (auto x : DrawInputs(c, n, 64, true)) j.in.push_back(static_cast<uint64_t>(x));
    j.own = HashAs<uint64_t>(c, *h[j.inst], std::vector<u128>(j.in.begin(), j.in.end()), j.buckets);
    j.possible = Perfect(j.own, j.buckets);
    c.Desc() << " " << n << " inputs into " << j.buckets << " buckets by " << j.inst << ";";
  }
  c.NonTrivial();
  int rounds = pbt::Sanitized() ? 3 : 10;
  int regions = c.Bool() ? static_cast<int>(c.Range(1, 2)) : 0;
  if (regions) c.Label("in parallel regions");
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    const Job &j = jobs[t];
    omp_set_num_threads(1 + t % 3);
    for (int q = 0; q < rounds; q++) {
      auto r = h[j.inst]->HashCuckoo(absl::MakeConstSpan(j.in), j.buckets);
      if (!r.ok()) {
        if (!mpc_utils::IsInternal(r.status())) return "a failed placement is not reported as an internal error";
        continue;
      }
      if (!j.possible) return "a placement was returned although none exists";
      auto &b = r.ValueOrDie();
      if (static_cast<int64_t>(b.size()) != j.buckets) return "wrong number of buckets";
      std::vector<int> count(j.in.size(), 0);
      for (int64_t i = 0; i < j.buckets; i++) {
        if (b[i] == -1) continue;
        if (b[i] < 0 || b[i] >= static_cast<int64_t>(j.in.size())) return "bucket " + std::to_string(i) + " holds no position of an input";
        count[b[i]]++;
        bool own = false;
        for (auto o : j.own[b[i]]) own |= o == i;
        if (!own) return "input " + std::to_string(b[i]) + " was placed in a bucket that is not its own when other threads hash";
      }
      for (size_t i = 0; i < count.size(); i++)
        if (count[i] != 1) return "input " + std::to_string(i) + " appears in " + std::to_string(count[i]) + " buckets when other threads hash";
    }
    return "";
  }, regions);
  if (!err.empty()) c.Fail(err);
}
void PlaceHistory(Ctx &c) {
  std::vector<Instance> inst;
  std::vector<Ask> asks;
  DrawAsks(c, 2, true, 3, &inst, &asks);
  for (auto &a : asks) {
    if (c.Chance(2, 3)) a.what = 2;
    int64_t n = static_cast<int64_t>(a.in.size());
    a.buckets = std::max<int64_t>({a.buckets % (3 * n + 1), n, 1});
  }
  c.NonTrivial(asks.size() > 1 && asks.back().in.size() > 1);
  std::vector<Table> want;
  for (auto &a : asks) want.push_back(Alone(c, inst[a.inst], a));
  for (size_t q = 0; q < asks.size(); q++) {
    const Ask &a = asks[q];
    Instance &x = inst[a.inst];
    omp_set_num_threads(a.threads);
    if (a.what == 0) {
      HashAs<absl::uint128>(c, *x.h, a.in, a.buckets);
    } else if (a.what == 1) {
      std::vector<absl::uint128> v;
      for (auto e : a.in) v.push_back(ToAbsl(e));
      x.h->HashSimple(absl::MakeConstSpan(v), a.buckets);
    } else {
      switch (a.ty) {
        case 1: PlaceAs<uint16_t>(c, *x.h, a.in, a.buckets, x.k, &want[q]); break;
        case 2: PlaceAs<uint32_t>(c, *x.h, a.in, a.buckets, x.k, &want[q]); break;
        case 3: PlaceAs<uint64_t>(c, *x.h, a.in, a.buckets, x.k, &want[q]); break;
        default: PlaceAs<absl::uint128>(c, *x.h, a.in, a.buckets, x.k, &want[q]);
      }
    }
  }
  omp_set_num_threads(1);
}
pbt::Register r6{{"cuckoo_history", PlaceHistory, 15000, 200000, 0, -1, 0.1}};
pbt::Register r5{{"cuckoo_concurrent", ConcurrentUse, 150, 5000, 0, -1, 0.1}};
pbt::Register r1{{"cuckoo_place", Place, 40000, 1500000, 0, -1, 0.08}};
pbt::Register r2{{"cuckoo_large", Large, 60, 2500, 0, -1, 0.05}};
pbt::Register r3{{"cuckoo_rejected", Rejected, 20000, 500000, 0, -1, 0.08}};
pbt::Register r4{{"cuckoo_not_rejected", NotRejected, 5000, 200000, 0, -1, 0.08}};
#endif

#ifdef VERIF_BUCKETS
int64_t Recommended(Ctx &c, int k, double s, int64_t n, u128 key) {
  auto h = Make(c, key, k, s);
  auto r = h->GetOptimalNumberOfBuckets(n);
  PBT_REQUIRE(c, r.ok(), "no bucket count for " << n << " inputs, " << k << " functions, security " << s << ": " << r.status().message());
  auto r2 = h->GetOptimalNumberOfBuckets(n);
  PBT_REQUIRE(c, r2.ok() && r2.ValueOrDie() == r.ValueOrDie(), "two calls recommend different bucket counts");
  return r.ValueOrDie();
}
// The published estimate (cryptoTools, CuckooIndex.cpp), in buckets.
long double Estimate(int k, long double s, int64_t n) {
  long double ln = std::log2(static_cast<long double>(n));
  if (k == 3) {
    long double r = std::sqrt(2.0L);
    long double a = 123.5L / 2 * std::erfc(-(ln - 6.3L) / (2.3L * r)), b = -130.0L / 2 * std::erfc(-(ln - 6.45L) / (2.18L * r)) - ln;
    return (s - b) / a * static_cast<long double>(n);
  }
  long double e = 1;
  for (long double level = 0; level < s; e += 1)
    level = 3.3L * std::log2(e + 1) - 0.8L + ln - (5 * ln + 14) * std::pow(e + 1, -2.5L);
  return e * static_cast<long double>(n);
}
void Counts(Ctx &c) {
  int k = static_cast<int>(c.Range(2, 3));
  int64_t n;
  switch (c.Choice(3)) {
    case 0: n = c.Range(0, 300); break;
    case 1: n = c.Size(0, int64_t{1} << 40); break;
    case 2: n = (int64_t{1} << c.Range(0, 40)) + c.Range(-2, 2); break;
    default: n = c.Range(0, 1 << 20);
  }
  if (n < 0) n = 0;
  if (n > int64_t{1} << 40) n = int64_t{1} << 40;
  // With two functions and few inputs the search for high levels is long.
  double smax = k == 3 ? 80 : 50 + std::log2(static_cast<double>(n + 1));
  if (smax > 80) smax = 80;
  double s1 = c.Bool() ? static_cast<double>(c.Range(0, static_cast<int64_t>(smax))) : c.Real01() * smax;
  double s2 = c.Bool() ? s1 + c.Real01() : c.Real01() * smax;
  if (s2 > smax) s2 = smax;
  if (s2 < s1) std::swap(s1, s2);
  c.Desc() << n << " inputs, " << k << " hash functions, security " << s1 << " and " << s2;
  c.NonTrivial(n >= 1);
  int64_t b1 = Recommended(c, k, s1, n, c.Bits128()), b2 = Recommended(c, k, s2, n, c.Bits128());
  if (n == 0) {
    PBT_REQUIRE(c, b1 == 1 && b2 == 1, "no inputs need " << b1 << " / " << b2 << " buckets");
    return;
  }
  PBT_REQUIRE(c, b1 >= n && b1 >= 1 && b2 >= n, b1 << " / " << b2 << " buckets recommended for " << n << " inputs");
  PBT_REQUIRE(c, b1 <= b2, "the bucket count for " << n << " inputs shrinks from " << b1 << " to " << b2 << " when the security level grows from " << s1 << " to " << s2);
  // Space, and the communication of multi-point sharing, grow with the buckets.
  if (k == 3 || s1 + 15 < 40 + std::log2(static_cast<double>(n))) {
    long double most = 2 * std::max(Estimate(k, s1, n), static_cast<long double>(n)) + 2;
    PBT_REQUIRE(c, static_cast<long double>(b1) <= most, b1 << " buckets recommended for " << n << " inputs, more than twice the published estimate");
  }
  int64_t other = Recommended(c, k, s1, n, ~static_cast<u128>(0) - c.Choice(100));
  PBT_REQUIRE(c, other == b1, "the bucket count depends on the key: " << b1 << " and " << other);
}
// The count depends on nothing but the parameters: two sequences of confusable
// questions, the second in another order, on other instances and threads.
void Interleaved(Ctx &c) {
  struct Q {
    int k;
    double s;
    int64_t n;
  };
  std::vector<Q> qs;
  auto level = [&](int k, int64_t n, double s) {
    double max = k == 3 ? 80 : 50 + std::log2(static_cast<double>(n + 1));
    return s < 0 ? 0 : s > max ? max : s;
  };
  int64_t n0 = c.Bool() ? c.Range(1, 400) : c.Size(1, int64_t{1} << 33);
  double s0 = c.Bool() ? static_cast<double>(c.Range(0, 60)) : c.Real01() * 60;
  int m = static_cast<int>(c.Range(2, 10));
  for (int i = 0; i < m; i++) {
    Q q;
    q.k = static_cast<int>(c.Range(2, 3));
    switch (c.Choice(5)) {
      case 0: q.n = n0; break;
      case 1: q.n = n0 + c.Range(-2, 2); break;
      case 2: q.n = (int64_t{1} << 32) + n0; break;
      case 3: q.n = c.Bool() ? 2 * n0 : n0 / 2; break;
      case 4: q.n = 0; break;
      default: q.n = qs.empty() ? n0 : qs[c.Choice(qs.size() - 1)].n;
    }
    if (q.n < 0) q.n = 0;
    switch (c.Choice(4)) {
      case 0: q.s = s0; break;
      case 1: q.s = std::floor(s0) + c.Real01(); break;
      case 2: q.s = s0 + static_cast<double>(c.Range(-2, 2)); break;
      case 3: q.s = c.Real01() * 60; break;
      default: q.s = qs.empty() ? s0 : qs[c.Choice(qs.size() - 1)].s;
    }
    q.s = level(q.k, q.n, q.s);
    qs.push_back(q);
  }
  for (auto &q : qs) c.Desc() << "(" << q.k << " functions, security " << q.s << ", " << q.n << " inputs) ";
  c.NonTrivial();
  // One answer per question, each on a thread of its own that has asked nothing before.
  std::vector<int64_t> fresh(m), seq(m);
  u128 key = c.Bits128();
  std::vector<std::unique_ptr<CuckooHasher>> h;
  for (int i = 0; i < m; i++) h.push_back(Make(c, key + i, qs[i].k, qs[i].s));
  auto ask = [&](int i, CuckooHasher &hh) -> int64_t {
    auto r = hh.GetOptimalNumberOfBuckets(qs[i].n);
    return r.ok() ? r.ValueOrDie() : -1;
  };
  for (int i = 0; i < m; i++) seq[i] = ask(i, *h[i]);
  std::vector<int> order(m);
  for (int i = 0; i < m; i++) order[i] = i;
  for (int i = m - 1; i > 0; i--) std::swap(order[i], order[c.Choice(i)]);
  if (c.Bool())
    for (int i : order) std::thread([&] { fresh[i] = ask(i, *Make(c, key ^ 1, qs[i].k, qs[i].s)); }).join();
  else
    Concurrently(m, [&](int i) -> std::string { return fresh[i] = ask(i, *h[i]), ""; });
  for (int i = 0; i < m; i++) {
    PBT_REQUIRE(c, seq[i] == fresh[i], qs[i].n << " inputs with " << qs[i].k << " functions and security " << qs[i].s << ": " << seq[i] << " buckets are recommended after earlier questions, " << fresh[i] << " otherwise");
    PBT_REQUIRE(c, seq[i] >= (qs[i].n ? qs[i].n : 1), seq[i] << " buckets recommended for " << qs[i].n << " inputs");
  }
  for (int i : order) PBT_REQUIRE(c, ask(i, *h[i]) == seq[i], "the count for " << qs[i].n << " inputs, " << qs[i].k << " functions, security " << qs[i].s << " changes with the order of the questions");
}
pbt::Register r5{{"buckets_interleaved", Interleaved, 8000, 200000, 0, -1, 0.1}};
void Bad(Ctx &c) {
  c.NonTrivial();
  static const int64_t neg[] = {-1, -2, -1000, INT64_MIN, INT64_MIN + 1};
  int k;
  if (c.Bool()) {
    k = static_cast<int>(c.Range(2, 3));
    int64_t n = neg[c.Choice(4)];
    c.Desc() << n << " inputs, " << k << " hash functions";
    auto r = Make(c, c.Bits128(), k)->GetOptimalNumberOfBuckets(n);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), n << " inputs are not rejected as invalid");
  } else {
    static const int ks[] = {1, 4, 5, 6, 7, 20};
    k = ks[c.Choice(5)];
    int64_t n = c.Size(1, 1 << 20);
    c.Desc() << n << " inputs, " << k << " hash functions";
    auto r = Make(c, c.Bits128(), k)->GetOptimalNumberOfBuckets(n);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsUnimplemented(r.status()), k << " hash functions are not reported as unimplemented");
  }
}
// Placement succeeds: counted over random keys, judged at the end.
const int kSec[] = {3, 5, 8, 10, 40};
const char *kClass[] = {"1-4", "5-16", "17-40", "41-80", "81-150", "151-1000", "1001+"};
int ClassOf(int64_t n) { return n <= 4 ? 0 : n <= 16 ? 1 : n <= 40 ? 2 : n <= 80 ? 3 : n <= 150 ? 4 : n <= 1000 ? 5 : 6; }
void Trials(Ctx &c, int k, double s, int64_t n, int trials) {
  pbt::Rng r = c.Bulk();
  int64_t b = Recommended(c, k, s, n, 1);
  omp_set_num_threads(1);
  std::vector<uint64_t> in(n);
  int fail = 0;
  int mode = static_cast<int>(c.Choice(2));
  for (int t = 0; t < trials; t++) {
    uint64_t base = r();
    for (int64_t i = 0; i < n; i++) in[i] = mode == 0 ? base + i : mode == 1 ? (base << 40) + i * 4096 : (base << 20) + (r() & 0xfffff);
    if (mode == 2) {
      std::sort(in.begin(), in.end());
      in.erase(std::unique(in.begin(), in.end()), in.end());
    }
    auto h = Make(c, r.U128(), k, s);
    auto res = h->HashCuckoo(absl::MakeConstSpan(in), b);
    fail += !res.ok();
    in.resize(n);
  }
  std::string key = std::to_string(k) + "/" + std::to_string(static_cast<int>(s)) + "/" + kClass[ClassOf(n)];
  c.Count("trials " + key, trials);
  c.Count("failures " + key, fail);
  c.Desc() << trials << " random keys, " << n << " inputs, " << b << " buckets, " << k << " functions, security " << s << ": " << fail << " failures";
  c.NonTrivial();
}
void Success(Ctx &c) {
  int k = static_cast<int>(c.Range(2, 3));
  double s = kSec[c.Choice(4)];
  int cls = static_cast<int>(c.Range(0, 5));
  static const int64_t lo[] = {1, 5, 17, 41, 81, 151}, hi[] = {4, 16, 40, 80, 150, 1000};
  int64_t n = c.Range(lo[cls], hi[cls]);
  int trials = static_cast<int>(40000 / (n + 20)) + 10;
  if (k == 2 && s == 40) trials /= 20;  // large tables
  if (pbt::Sanitized()) trials = trials / 20 + 1;
  Trials(c, k, s, n, trials);
}
void SuccessLarge(Ctx &c) {
  int k = static_cast<int>(c.Chance(3, 4) ? 3 : 2);
  int64_t n = c.Size(1001, pbt::Thorough() ? (1 << 18) : k == 2 ? 4000 : (1 << 15));
  Trials(c, k, 40, n, k == 2 ? 1 : static_cast<int>(100000 / n) + 1);
}
std::string Judge(const std::map<std::string, int64_t> &counts) {
  std::ostringstream os;
  for (int k = 2; k <= 3; k++)
    for (int s : kSec)
      for (auto cl : kClass) {
        std::string key = std::to_string(k) + "/" + std::to_string(s) + "/" + cl;
        auto t = counts.find("trials " + key), f = counts.find("failures " + key);
        if (t == counts.end()) continue;
        double T = static_cast<double>(t->second), F = f == counts.end() ? 0 : static_cast<double>(f->second);
        // The formulas are fitted: measured rates stay below 1.4 times 2^-s at
        // low levels; at level 40 about one key in a million fails.
        double limit = s == 40 ? 4e-6 * T + 8 : 2.0 * T * std::ldexp(1.0, -s);
        limit += 7 * std::sqrt(limit) + (s == 40 ? 0 : 6);
        if (s == 40) limit = 4e-6 * T + 9;
        if (F > limit) os << "placement fails for " << F << " of " << T << " random keys with " << k << " hash functions, security level " << s << ", " << cl << " inputs (limit " << limit << "); ";
      }
  return os.str();
}
pbt::Register r1{{"buckets_counts", Counts, 60000, 1500000, 0, -1, 0.05}};
pbt::Register r2{{"buckets_bad", Bad, 5000, 100000, 0, -1, 0.1}};
pbt::Register r3{{"buckets_success", Success, 9000, 200000, 0, -1, 0.02, Judge}};
pbt::Register r4{{"buckets_success_large", SuccessLarge, 120, 4000, 0, -1, 0.05, Judge}};
#endif
}  // namespace
