// Two parties, one thread each, over the in-memory network.
#ifndef VERIF_PROTO_H_
#define VERIF_PROTO_H_
#include <omp.h>

#include <condition_variable>
#include <functional>
#include <mutex>
#include <optional>
#include <thread>

#include "NTL/ZZ.h"
#include "proto_ops.h"
#include "rand_tape.h"

namespace proto {
using pbt::Ctx;
using pbt::Dec;
using pbt::Failure;
using pbt::Hex;
using pbt::Rng;
using sc::Ring;

// Numbers of the two parties, which may be any two of many.
constexpr int kNumbers[][2] = {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {3, 7}, {0, 1000000}, {9, 10}, {5, 4096}, {2147483646, 2147483647}};

struct Opts {
  int omp[2] = {1, 1};      // by role
  bool measured = false;
  bool swap = false;        // role 0 has party id 1
  int numbers = 0;          // index into kNumbers
  bool taped = true;
  uint64_t tape[2] = {1, 2};  // by role
  uint64_t sched = 0;       // 0: undisturbed schedule
  bool record = false;
  bool region = false;      // the parties run inside parallel regions
  double ss = 40;
  std::string Str() const {
    std::ostringstream os;
    os << "threads " << omp[0] << "/" << omp[1] << (measured ? " measured" : "") << " parties " << kNumbers[numbers][swap] << "," << kNumbers[numbers][!swap] << (sched ? " perturbed" : "")
       << (region ? " in a parallel region" : "") << " security " << ss;
    return os.str();
  }
};

inline void ShortDelay(Rng *r) {
  switch (r->Upto(7)) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(r->Upto(300))); break;
    case 1: case 2: std::this_thread::yield(); break;
    case 3: for (volatile int i = 0; i < 2000; i = i + 1) {} break;
    default: break;
  }
}

class Session {
 public:
  explicit Session(const Opts &o) : opt(o), net_(std::make_shared<verif_net::Net>()) {
    net_->set_record(o.record);
    uint64_t otseed = o.tape[0] * 0x9E3779B97F4A7C15ull ^ o.tape[1];
    ot_rng_.Seed(otseed);
    net_->ot_random = [this] { return ot_rng_.U128(); };
    if (o.sched) {
      sched_[0].Seed(o.sched);
      sched_[1].Seed(o.sched ^ 0x5555);
      net_->yield_hook = [this](int p) { ShortDelay(&sched_[p]); };
    }
    for (int r = 0; r < 2; r++) chan_[r] = std::make_unique<mpc_utils::comm_channel>(net_, Id(r), o.measured, kNumbers[o.numbers][Id(r)], kNumbers[o.numbers][1 - Id(r)]);
    for (int r = 0; r < 2; r++) th_[r] = std::thread([this, r] { Main(r); });
    Run([&] { Init(0); }, [&] { Init(1); });
  }
  ~Session() {
    // Instances are destroyed on the threads that used them.
    for (int r = 0; r < 2; r++) {
      {
        std::lock_guard<std::mutex> l(m_);
        stop_ = true;
      }
      cv_.notify_all();
    }
    for (auto &t : th_) t.join();
  }
  int Id(int role) const { return opt.swap ? 1 - role : role; }
  mpc_utils::comm_channel *chan(int role) { return chan_[role].get(); }
  verif_net::Net &net() { return *net_; }

  // Runs both closures concurrently (a null one means that this party does
  // nothing). Reports a failure of either.
  void Run(std::function<void()> f0, std::function<void()> f1) {
    std::string e = TryRun(std::move(f0), std::move(f1));
    if (!e.empty()) throw Failure{e};
  }
  std::string TryRun(std::function<void()> f0, std::function<void()> f1) {
    std::function<void()> f[2] = {std::move(f0), std::move(f1)};
    for (int r = 0; r < 2; r++) {
      if (f[r]) net_->Begin(Id(r));
      else net_->Finish(Id(r));
      error_[r].clear();
      secondary_[r] = false;
    }
    {
      std::lock_guard<std::mutex> l(m_);
      for (int r = 0; r < 2; r++)
        if (f[r]) job_[r] = std::move(f[r]), busy_[r] = true;
    }
    cv_.notify_all();
    {
      std::unique_lock<std::mutex> l(m_);
      cv_.wait(l, [&] { return !busy_[0] && !busy_[1]; });
    }
    std::string e;
    for (int pass = 0; pass < 2; pass++)
      for (int r = 0; r < 2; r++)
        if (!error_[r].empty() && secondary_[r] == (pass == 1)) e += (e.empty() ? "" : "; ") + std::string("party in role ") + std::to_string(r) + ": " + error_[r];
    return e;
  }
  const Opts opt;

 private:
  void Init(int r) {
    omp_set_dynamic(0);
    omp_set_num_threads(opt.omp[r]);
    if (opt.taped) {
      // The parties never share their randomness.
      uint64_t tape = opt.tape[r] * 2 + static_cast<uint64_t>(r);
      verif_rand::SetThreadTape(tape);
      unsigned char b[32];
      Rng(tape ^ 0xabcdef0).Fill(b, 32);
      NTL::SetSeed(b, 32);
    }
  }
  void Call(int r, const std::function<void()> &f) {
    try {
      f();
    } catch (const Failure &e) {
      error_[r] = e.msg;
    } catch (const verif_net::ProtocolError &e) {
      error_[r] = std::string("protocol out of step: ") + e.what();
      secondary_[r] = true;
    } catch (const std::exception &e) {
      error_[r] = std::string("exception: ") + e.what();
    } catch (...) {
      error_[r] = "unknown exception";
    }
  }
  void Main(int r) {
    for (;;) {
      std::function<void()> f;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return stop_ || job_[r]; });
        if (!job_[r]) return;
        f = std::move(job_[r]);
        job_[r] = nullptr;
      }
      if (opt.region) {
#pragma omp parallel num_threads(2)
        {
#pragma omp master
          {
            omp_set_num_threads(opt.omp[r]);
            Call(r, f);
          }
        }
      } else {
        Call(r, f);
      }
      if (!error_[r].empty()) net_->Abort(error_[r]);
      f = nullptr;
      net_->Finish(Id(r));
      {
        std::lock_guard<std::mutex> l(m_);
        busy_[r] = false;
      }
      cv_.notify_all();
    }
  }
  std::shared_ptr<verif_net::Net> net_;
  std::unique_ptr<mpc_utils::comm_channel> chan_[2];
  std::thread th_[2];
  std::mutex m_;
  std::condition_variable cv_;
  bool stop_ = false, busy_[2] = {false, false};
  std::function<void()> job_[2];
  std::string error_[2];
  bool secondary_[2] = {false, false};
  Rng ot_rng_, sched_[2];
};

inline Failure Bad(const std::string &what, const Res &r) {
  return Failure{what + ": status " + std::to_string(r.code) + " \"" + r.msg + "\" " + r.bad};
}
// For calls that have to succeed.
inline void Ok(const char *what, const Res &r) {
  if (!r.ok || !r.bad.empty()) throw Bad(what, r);
}

// The protocol instances of one session. Each role only touches its own.
struct Env {
  explicit Env(Session *s) : s(s) {}
  ~Env() {
    // Destroyed by their own threads.
    s->TryRun([&] { Clear(0); }, [&] { Clear(1); });
  }
  void Clear(int r) { abo[r].reset(), spfss[r].reset(), mpfss[r].reset(), gil[r].reset(), vole[r].clear(); }
  template <class P>
  P &Get(std::unique_ptr<P> *slot, int role) {
    if (!slot[role]) {
      auto so = P::Create(s->chan(role), s->opt.ss);
      if (!so.ok()) throw Failure{std::string("Create failed: ") + std::string(so.status().message())};
      slot[role] = std::move(so.ValueOrDie());
    }
    return *slot[role];
  }
  dv::AllButOneRandomOT &Abo(int role) { return Get(abo, role); }
  dv::SPFSSKnownIndex &Spfss(int role) { return Get(spfss, role); }
  dv::MPFSSKnownIndices &Mpfss(int role) { return Get(mpfss, role); }
  dv::ScalarVectorGilboaProduct &Gil(int role) { return Get(gil, role); }
  // One vector-OLE instance per number (types and moduli differ).
  Vole &GetVole(int role, int slot, const Ops *o) {
    auto &v = vole[role][slot];
    if (!v) Ok("DistributedVectorOLE::Create", o->vole_create(s->chan(role), s->opt.ss, &v));
    return *v;
  }
  Session *s;
  std::unique_ptr<dv::AllButOneRandomOT> abo[2];
  std::unique_ptr<dv::SPFSSKnownIndex> spfss[2];
  std::unique_ptr<dv::MPFSSKnownIndices> mpfss[2];
  std::unique_ptr<dv::ScalarVectorGilboaProduct> gil[2];
  std::map<int, std::unique_ptr<Vole>> vole[2];
};

// ---- generation helpers ----------------------------------------------------

// Is it guaranteed (with margin) that hashes may be reduced modulo n with this
// statistical security?
inline bool Admissible(u128 n, double bits) {
  if (n == 0) return true;
  u128 rem = (~static_cast<u128>(0) % n + 1) % n;
  if (rem == 0) return true;
  return 128 - std::log2(static_cast<double>(rem)) > bits + 0.01;
}

struct TypeSpec {
  const Ops *ops;
  u128 modulus = 0;
  Ring ring;
  std::string Str() const { return std::string(ops->name) + (ops->modular ? " mod " + (modulus ? Dec(modulus) : std::string("2^128")) : ""); }
  void Install() const {
    if (ops->modular) ops->install(modulus);
  }
};
inline Ring RingOf(const Ops *o, u128 modulus) {
  if (o->modular) return Ring{modulus, false};
  switch (o->kind) {
    case sc::kU8: return Ring{static_cast<u128>(1) << 8, false};
    case sc::kU16: return Ring{static_cast<u128>(1) << 16, false};
    case sc::kU32: return Ring{static_cast<u128>(1) << 32, false};
    case sc::kU64: return Ring{static_cast<u128>(1) << 64, false};
    case sc::kGf: return Ring{0, true};
    default: return Ring{0, false};
  }
}
inline TypeSpec MakeType(const Ops *o, u128 modulus) { return TypeSpec{o, modulus, RingOf(o, modulus)}; }
// Any modulus of at most 128 bits / `admissible` bits for hashing.
inline TypeSpec DrawTypeOf(Ctx &c, const Ops *o, double admissible = -1) {
  u128 m = 0;
  if (o->kind == sc::kzzp) m = sc::DrawModulus(c, 2, (static_cast<u128>(1) << 60) - 1);
  if (o->kind == sc::kZZp) {
    m = admissible >= 0 ? sc::DrawHashableModulus(c, false) : c.Chance(1, 8) ? 0 : sc::DrawModulus(c, 2, ~static_cast<u128>(0));
  }
  if (o->modular && admissible >= 0) {
    if (!Admissible(m, admissible) && m >> 60) m = (m >> 68) + 2;
    while (!Admissible(m, admissible)) m = (m >> 4) + 2;
  }
  return MakeType(o, m);
}
inline TypeSpec DrawType(Ctx &c, double admissible = -1) { return DrawTypeOf(c, c.Pick(AllOps()), admissible); }

// n elements with one of several shapes.
inline U DrawVec(Ctx &c, const Ring &r, size_t n) {
  U v(n);
  uint64_t mode = c.Choice(5);
  Rng b = c.Bulk();
  for (auto &x : v) {
    switch (mode) {
      case 0: x = 0; break;
      case 1: x = r.Red(1); break;
      case 2: x = r.Max(); break;
      case 3: x = r.Red(b.U128()); break;
      case 4: x = r.Red(b.Upto(3)); break;
      default: {
        uint64_t k = b.Upto(5);
        x = k == 0 ? 0 : k == 1 ? r.Max() : k == 2 ? r.Red(static_cast<u128>(1) << b.Upto(127)) : r.Red(b.U128());
      }
    }
  }
  return v;
}
inline U RandVec(Rng &b, const Ring &r, size_t n) {
  U v(n);
  for (auto &x : v) x = r.Red(b.U128());
  return v;
}
inline std::string Show(const U &v, size_t cap = 6) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < cap; i++) s += (i ? "," : "") + Dec(v[i]);
  return s + (v.size() > cap ? ",..." : "") + "](" + std::to_string(v.size()) + ")";
}
inline int DrawNumbers(Ctx &c) { return c.Chance(1, 3) ? static_cast<int>(c.Choice(8)) : 0; }
inline Opts DrawOpts(Ctx &c, bool threads) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX);
  o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool();
  o.measured = c.Bool();
  o.numbers = DrawNumbers(c);
  if (threads && c.Chance(1, 3)) {
    static const int n[] = {1, 2, 3, 4, 8, 16};
    o.omp[0] = n[c.Choice(5)];
    o.omp[1] = n[c.Choice(5)];
  }
  return o;
}
}  // namespace proto
#endif
