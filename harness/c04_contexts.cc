// C04: modulus-dependent helpers follow the current modulus of the calling
// thread over histories of install / save / restore / query on several threads.
#include <condition_variable>
#include <mutex>
#include <thread>

#include <omp.h>

#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "scalars.h"

using distributed_vector_ole::NTLContext;
using distributed_vector_ole::NTLNumBits;
using distributed_vector_ole::ScalarHelper;
using namespace sc;

namespace {
// A thread that executes closures one at a time.
class Worker {
 public:
  Worker() : t_([this] { Loop(); }) {}
  ~Worker() {
    {
      std::lock_guard<std::mutex> l(m_);
      stop_ = true;
    }
    cv_.notify_all();
    t_.join();
  }
  void Start(std::function<void()> f) {
    std::lock_guard<std::mutex> l(m_);
    f_ = std::move(f);
    busy_ = true;
    cv_.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return !busy_; });
  }

 private:
  void Loop() {
    std::unique_lock<std::mutex> l(m_);
    for (;;) {
      cv_.wait(l, [&] { return stop_ || busy_; });
      if (stop_) return;
      auto f = std::move(f_);
      l.unlock();
      f();
      l.lock();
      busy_ = false;
      cv_.notify_all();
    }
  }
  std::mutex m_;
  std::condition_variable cv_;
  std::function<void()> f_;
  bool busy_ = false, stop_ = false;
  std::thread t_;
};

// Moduli of the multi-precision type may exceed 128 bits here.
struct Mod {
  NTL::ZZ zz;
  bool Small() const { return NTL::NumBits(zz) <= 128; }
};

std::string S(const NTL::ZZ &z) {
  std::ostringstream os;
  os << z;
  return os.str();
}

// All queries against the modulus that is expected to be current; returns an
// error message or an empty string. `salt` selects values.
std::string QueryBig(const NTL::ZZ &n, uint64_t salt) {
  using H = ScalarHelper<NTL::ZZ_p>;
  std::ostringstream e;
  if (NTL::ZZ_p::modulus() != n) return "the current modulus is " + S(NTL::ZZ_p::modulus()) + " instead of " + S(n);
  long bits = NTL::NumBits(n - 1);
  int got = NTLNumBits<NTL::ZZ_p>();
  if (got != bits) {
    e << "NTLNumBits = " << got << " for modulus " << n << " (expected " << bits << ")";
    return e.str();
  }
  if (H::SizeOf() != (bits + 7) / 8) {
    e << "SizeOf = " << H::SizeOf() << " for modulus " << n;
    return e.str();
  }
  pbt::Rng rng(salt);
  for (int i = 0; i < 3; i++) {
    u128 x = i == 0 ? ~static_cast<u128>(0) - salt % 5 : rng.U128() >> (rng() % 128);
    NTL::ZZ want = ToZZ(x) % n;
    NTL::ZZ_p t = H::FromUint128(ToAbsl(x));
    if (NTL::rep(t) != want) {
      e << "FromUint128(" << Hex(x) << ") = " << NTL::rep(t) << " for modulus " << n;
      return e.str();
    }
    if (FromAbsl(H::ToUint128(t)) != FromZZ(want)) {
      e << "ToUint128(" << want << ") wrong for modulus " << n;
      return e.str();
    }
    long k = rng() % bits;
    if (H::GetBit(t, k) != (NTL::bit(want, k) != 0)) {
      e << "GetBit(" << want << ", " << k << ") wrong";
      return e.str();
    }
    if (NTL::rep(H::SetBit(k)) != (NTL::ZZ(1) << k) % n) {
      e << "SetBit(" << k << ") wrong for modulus " << n;
      return e.str();
    }
  }
  {
    // decisive cases of the hash-suitability test
    int h = 1 + rng() % 128;
    NTL::ZZ rem = NTL::power2_ZZ(h) % n;
    bool zero = NTL::IsZero(rem);
    double s = static_cast<double>(rng() % 100);
    // yes iff rem < 2^(h-s); skip cases within a factor of two of the limit
    long rb = NTL::NumBits(rem);
    bool yes = zero || rb < h - s, no = !zero && rb - 1 > h - s;
    if (yes || no) {
      if (H::CanBeHashedInto(s, h) != yes) {
        e << "CanBeHashedInto(" << s << ", " << h << ") = " << !yes << " for modulus " << n;
        return e.str();
      }
    }
  }
  NTL::ZZ_p out[3];
  H::Randomize(absl::MakeSpan(out));
  for (auto &o : out)
    if (NTL::rep(o) >= n || NTL::sign(NTL::rep(o)) < 0) {
      e << "Randomize produced " << NTL::rep(o) << " for modulus " << n;
      return e.str();
    }
  return "";
}

std::string QuerySmall(long n, uint64_t salt) {
  using H = ScalarHelper<NTL::zz_p>;
  std::ostringstream e;
  if (NTL::zz_p::modulus() != n) {
    e << "the current single-precision modulus is " << NTL::zz_p::modulus() << " instead of " << n;
    return e.str();
  }
  int bits = BitLen(static_cast<u128>(n - 1));
  if (NTLNumBits<NTL::zz_p>() != bits || H::SizeOf() != (bits + 7) / 8) {
    e << "NTLNumBits = " << NTLNumBits<NTL::zz_p>() << ", SizeOf = " << H::SizeOf() << " for single-precision modulus " << n;
    return e.str();
  }
  pbt::Rng rng(salt);
  for (int i = 0; i < 3; i++) {
    u128 x = i == 0 ? ~static_cast<u128>(0) - salt % 5 : rng.U128() >> (rng() % 128);
    u128 want = x % static_cast<u128>(n);
    NTL::zz_p t = H::FromUint128(ToAbsl(x));
    if (static_cast<u128>(NTL::rep(t)) != want || FromAbsl(H::ToUint128(t)) != want) {
      e << "conversion of " << Hex(x) << " gives " << NTL::rep(t) << " for single-precision modulus " << n;
      return e.str();
    }
    long k = rng() % bits;
    if (static_cast<u128>(NTL::rep(H::SetBit(k))) != (static_cast<u128>(1) << k) % static_cast<u128>(n) || H::GetBit(t, k) != ((want >> k) & 1)) {
      e << "bit " << k << " wrong for single-precision modulus " << n;
      return e.str();
    }
  }
  int h = 1 + rng() % 128;
  u128 rem = h == 128 ? ((~static_cast<u128>(0)) % n + 1) % n : (static_cast<u128>(1) << h) % n;
  double s = static_cast<double>(rng() % 100);
  int rb = BitLen(rem);
  bool yes = rem == 0 || rb < h - s, no = rem != 0 && rb - 1 > h - s;
  if ((yes || no) && H::CanBeHashedInto(s, h) != yes) {
    e << "CanBeHashedInto(" << s << ", " << h << ") = " << !yes << " for single-precision modulus " << n;
    return e.str();
  }
  NTL::zz_p out[3];
  H::Randomize(absl::MakeSpan(out));
  for (auto &o : out)
    if (NTL::rep(o) >= n || NTL::rep(o) < 0) {
      e << "Randomize produced " << NTL::rep(o) << " for single-precision modulus " << n;
      return e.str();
    }
  return "";
}

struct ThreadModel {
  bool has_big = false, has_small = false;
  NTL::ZZ big;
  long small = 0;
};

void History(Ctx &c) {
  // A pool of related moduli: equal sizes, equal low or high words, neighbours.
  std::vector<NTL::ZZ> pool;
  std::vector<long> spool;
  int np = static_cast<int>(c.Range(2, 6));
  for (int i = 0; i < np; i++) {
    NTL::ZZ z;
    if (i && c.Bool()) {
      NTL::ZZ b = pool[c.Choice(pool.size() - 1)];
      switch (c.Choice(7)) {
        case 0: z = b + 1 + c.Choice(3); break;
        case 1: z = b + (NTL::ZZ(1 + c.Choice(200)) << 64); break;    // same low word
        case 2: z = b ^ NTL::conv<NTL::ZZ>(static_cast<long>(c.Choice(65535))); break;  // same high bits
        case 3: z = b << 1; break;
        case 4: z = (NTL::ZZ(1) << NTL::NumBits(b)) - 1; break;  // same bit length
        case 5: z = (NTL::ZZ(1) << NTL::NumBits(b - 1)); break;
        case 6: z = (b >> static_cast<long>(c.Choice(8))); break;
        default: z = b + (NTL::ZZ(1 + c.Choice(3)) << 128); break;
      }
    } else if (c.Chance(1, 6)) {
      z = (NTL::ZZ(1) << static_cast<long>(c.Range(128, 300))) + c.Choice(100);
    } else {
      z = ToZZ(DrawModulus(c, 2, ~static_cast<u128>(0)));
    }
    if (z < 2) z = 2;
    pool.push_back(z);
    long s;
    if (i && c.Bool()) {
      s = spool[c.Choice(spool.size() - 1)] ^ (1l << c.Choice(59));
    } else if (NTL::NumBits(z) < 60 && c.Bool()) {
      s = NTL::conv<long>(z);  // the same modulus in both types
    } else {
      s = static_cast<long>(DrawModulus(c, 2, NTL_SP_BOUND - 1));
    }
    if (s < 2) s = 2;
    if (s >= NTL_SP_BOUND) s = NTL_SP_BOUND - 1;
    spool.push_back(s);
  }
  int nt = static_cast<int>(c.Range(1, 4));
  int steps = static_cast<int>(c.Range(3, 40));
  std::vector<std::unique_ptr<Worker>> w;
  for (int i = 0; i < nt; i++) w.emplace_back(new Worker);
  std::vector<ThreadModel> m(nt);
  constexpr int kSlots = 3;
  NTLContext<NTL::ZZ_p> big_slot[kSlots];
  NTLContext<NTL::zz_p> small_slot[kSlots];
  NTL::ZZ big_saved[kSlots];
  long small_saved[kSlots] = {0, 0, 0};
  bool big_used[kSlots] = {false, false, false};
  std::string err;
  int queries = 0, restores = 0, switches = 0;
  auto run = [&](int t, std::function<void()> f) {
    w[t]->Start(std::move(f));
    w[t]->Wait();
  };
  auto query = [&](int t) {
    uint64_t salt = c.Choice(UINT64_MAX);
    run(t, [&] {
      if (m[t].has_big) err = QueryBig(m[t].big, salt);
      if (err.empty() && m[t].has_small) err = QuerySmall(m[t].small, salt);
    });
    queries++;
    if (!err.empty()) c.Fail("thread " + std::to_string(t) + ": " + err);
  };
  for (int i = 0; i < steps; i++) {
    int t = static_cast<int>(c.Choice(nt - 1));
    switch (c.Choice(11)) {
      case 0:
      case 1: {
        size_t k = c.Choice(pool.size() - 1);
        c.Desc() << "t" << t << ":ZZ_p=" << pool[k] << " ";
        switches += m[t].has_big && m[t].big != pool[k];
        run(t, [&] { NTL::ZZ_p::init(pool[k]); });
        m[t].has_big = true;
        m[t].big = pool[k];
        break;
      }
      case 2: {
        size_t k = c.Choice(spool.size() - 1);
        c.Desc() << "t" << t << ":zz_p=" << spool[k] << " ";
        run(t, [&] { NTL::zz_p::init(spool[k]); });
        m[t].has_small = true;
        m[t].small = spool[k];
        break;
      }
      case 3: {
        int s = static_cast<int>(c.Choice(kSlots - 1));
        if (!m[t].has_big) break;
        c.Desc() << "t" << t << ":save" << s << " ";
        run(t, [&] { big_slot[s].save(); });
        big_used[s] = true;
        big_saved[s] = m[t].big;
        break;
      }
      case 4:
      case 5: {
        int s = static_cast<int>(c.Choice(kSlots - 1));
        if (!big_used[s]) break;
        c.Desc() << "t" << t << ":restore" << s << " ";
        run(t, [&] { big_slot[s].restore(); });
        switches += m[t].has_big && m[t].big != big_saved[s];
        m[t].has_big = true;
        m[t].big = big_saved[s];
        restores++;
        break;
      }
      case 6: {
        int s = static_cast<int>(c.Choice(kSlots - 1));
        if (c.Bool()) {
          if (!m[t].has_small) break;
          c.Desc() << "t" << t << ":savesp" << s << " ";
          run(t, [&] { small_slot[s].save(); });
          small_saved[s] = m[t].small;
        } else if (small_saved[s]) {
          c.Desc() << "t" << t << ":restoresp" << s << " ";
          run(t, [&] { small_slot[s].restore(); });
          m[t].has_small = true;
          m[t].small = small_saved[s];
          restores++;
        }
        break;
      }
      case 7: {  // non-modular contexts change nothing
        c.Desc() << "t" << t << ":nonmodular ";
        run(t, [&] {
          NTLContext<uint32_t> a;
          NTLContext<gf128> b;
          NTLContext<absl::uint128> d;
          a.save(), b.save(), d.save();
          a.restore(), b.restore(), d.restore();
        });
        query(t);
        break;
      }
      case 8: {  // a parallel region restores the caller's context
        if (!m[t].has_big) break;
        int k = static_cast<int>(c.Range(1, 4));
        uint64_t salt = c.Choice(UINT64_MAX);
        c.Desc() << "t" << t << ":parallel" << k << " ";
        run(t, [&] {
          NTLContext<NTL::ZZ_p> cb;
          NTLContext<NTL::zz_p> cs;
          cb.save();
          if (m[t].has_small) cs.save();
          std::mutex em;
#pragma omp parallel num_threads(k)
          {
            cb.restore();
            if (m[t].has_small) cs.restore();
            std::string e = QueryBig(m[t].big, salt + omp_get_thread_num());
            if (e.empty() && m[t].has_small) e = QuerySmall(m[t].small, salt);
            if (!e.empty()) {
              std::lock_guard<std::mutex> l(em);
              err = "in a parallel region: " + e;
            }
          }
        });
        queries++;
        if (!err.empty()) c.Fail("thread " + std::to_string(t) + ": " + err);
        break;
      }
      case 9: {  // all threads query at the same time
        c.Desc() << "all ";
        uint64_t salt = c.Choice(UINT64_MAX);
        std::vector<std::string> errs(nt);
        for (int u = 0; u < nt; u++)
          w[u]->Start([&, u] {
            for (int j = 0; j < 8 && errs[u].empty(); j++) {
              if (m[u].has_big) errs[u] = QueryBig(m[u].big, salt + j);
              if (errs[u].empty() && m[u].has_small) errs[u] = QuerySmall(m[u].small, salt + j);
            }
          });
        for (int u = 0; u < nt; u++) w[u]->Wait();
        queries++;
        for (int u = 0; u < nt; u++)
          if (!errs[u].empty()) c.Fail("thread " + std::to_string(u) + " (concurrently): " + errs[u]);
        break;
      }
      default:
        c.Desc() << "t" << t << ":query ";
        query(t);
    }
  }
  for (int t = 0; t < nt; t++) query(t);
  c.NonTrivial(switches > 0 || restores > 0);
  if (restores) c.Label("restores a context");
  if (nt > 1) c.Label("several threads");
  c.Count("queries", queries);
  // Threads are destroyed here; their thread-local caches with them.
}

pbt::Register r1{{"modulus_histories", History, 60000, 1500000, 0, -1, 0.12}};
}  // namespace
