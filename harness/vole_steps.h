// Vector-OLE precomputations and runs as steps of a history.
#ifndef VERIF_VOLE_STEPS_H_
#define VERIF_VOLE_STEPS_H_
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "steps.h"

#include "vole_params.h"

namespace proto {

// Number of buckets for n noise positions at this security level (used to find
// interesting sizes only).
inline int64_t GuessBuckets(int n, double ss) {
  auto h = dv::CuckooHasher::Create(0, 3, ss + std::log2(3.0) + 1);
  if (!h.ok()) return 50;
  auto b = h.ValueOrDie()->GetOptimalNumberOfBuckets(n);
  return b.ok() ? b.ValueOrDie() : 50;
}

struct VoleStep : Step {
  int slot = 0;
  bool pre = false;
  int64_t n = 0;             // batch size or number of elements
  bool explicit_delta = false;
  u128 delta_in = 0;
  // results
  U u, v, w;
  u128 delta = 0;
  bool have_before = false, have_after = false;
  VoleSeeds before, after;
  void Setup(Env &e, int role) override { e.GetVole(role, slot, t.ops); }
  void Party(Env &e, int role, bool first) override {
    Vole &p = e.GetVole(role, slot, t.ops);
    if (pre) {
      if (first) Ok("PrecomputeSender", p.PreSender(n));
      else Ok("PrecomputeReceiver", p.PreReceiver(n, explicit_delta ? &delta_in : nullptr));
    } else if (first) {
      have_before = p.Seeds(&before);
      Ok("RunSender", p.RunSender(n, &u, &v));
    } else {
      Ok("RunReceiver", p.RunReceiver(n, &w, &delta));
    }
    if (first) have_after = p.Seeds(&after);
  }
  void Verify() override {
    if (pre) return;
    STEP_REQUIRE(static_cast<int64_t>(u.size()) == n && static_cast<int64_t>(v.size()) == n && static_cast<int64_t>(w.size()) == n,
                 "results have lengths " << u.size() << ", " << v.size() << " and " << w.size());
    const Ring &r = t.ring;
    STEP_REQUIRE(r.n == 0 || delta < r.n, "non-canonical delta");
    for (int64_t i = 0; i < n; i++) {
      STEP_REQUIRE(r.n == 0 || (u[i] < r.n && v[i] < r.n && w[i] < r.n), "non-canonical output");
      u128 want = r.Add(r.Mul(u[i], delta), v[i]);
      STEP_REQUIRE(w[i] == want, "element " << i << " of " << n << ": u=" << Dec(u[i]) << " delta=" << Dec(delta) << " v=" << Dec(v[i]) << " but w="
                                            << Dec(w[i]) << " instead of " << Dec(want));
    }
  }
  std::string Str() const override {
    std::ostringstream os;
    os << (pre ? "precompute vector OLE #" : "run vector OLE #") << slot << " " << t.Str() << (flip ? " flipped" : "") << " n=" << n;
    if (pre) os << (explicit_delta ? " delta=" + Dec(delta_in) : std::string(" generated delta"));
    return os.str();
  }
};

// Relations between the steps of one instance.
inline void VerifyDeltas(const std::vector<std::unique_ptr<Step>> &h) {
  struct State {
    bool known = false;
    u128 delta = 0;
    std::string from;
  };
  std::map<std::pair<int, bool>, State> st;
  for (auto &p : h) {
    auto *s = dynamic_cast<VoleStep *>(p->Core());
    if (!s) continue;
    State &q = st[{s->slot, s->flip}];
    if (s->pre) {
      q.known = s->explicit_delta;
      q.delta = s->delta_in;
      q.from = s->Str();
    } else if (q.known) {
      if (s->delta != q.delta)
        throw Failure{s->Str() + ": delta is " + Dec(s->delta) + ", but it was " + Dec(q.delta) + " in \"" + q.from + "\""};
    } else {
      q.known = true, q.delta = s->delta, q.from = s->Str();
    }
  }
}

// A vector-OLE instance in a generated history: draws sensible next steps.
struct VoleGen {
  int slot = 0;
  bool flip = false;
  TypeSpec t;
  double ss = 40;
  int64_t max_batch = 0;
  int64_t batch = 0, cache = 0;  // what the model expects
  bool pre = false;
  int64_t ClampBatch(int64_t b) const {
    int64_t n = static_cast<int64_t>(VP::seed_size.size()) - 1;
    return std::min<int64_t>(b, VP::output_size[n] - VP::seed_size[n] - GuessBuckets(VP::num_noise_indices[n], ss));
  }
  int64_t DrawBatchSize(Ctx &c) {
    int64_t b;
    switch (c.Choice(4)) {
      case 0: b = c.Range(1, 8); break;
      case 1: {
        int i = static_cast<int>(c.Choice(VP::output_size.size() - 1));
        b = VP::output_size[i] - VP::seed_size[i] - GuessBuckets(VP::num_noise_indices[i], ss) + c.Range(-2, 2);
        break;
      }
      case 2: {
        int i = static_cast<int>(c.Choice(VP::output_size.size() - 1));
        b = VP::output_size[i] + c.Range(-2, 2);
        break;
      }
      case 3: b = c.Range(1, std::min<int64_t>(max_batch, 300)); break;
      default: b = c.Range(1, max_batch + max_batch / 10);
    }
    return std::max<int64_t>(1, std::min(b, max_batch + max_batch / 10));
  }
  std::unique_ptr<VoleStep> Base() const {
    auto p = std::make_unique<VoleStep>();
    p->slot = slot, p->flip = flip, p->t = t;
    return p;
  }
  std::unique_ptr<VoleStep> Precompute(Ctx &c, int64_t b) {
    auto p = Base();
    p->pre = true;
    p->n = b;
    p->explicit_delta = c.Bool();
    if (p->explicit_delta) p->delta_in = sc::DrawElement(c, t.ring);
    pre = true;
    batch = ClampBatch(b), cache = 0;
    return p;
  }
  std::unique_ptr<VoleStep> RunOf(int64_t n) {
    auto p = Base();
    if (!pre && n < 1) n = 1;
    p->n = n;
    if (!pre) pre = true, batch = ClampBatch(n), cache = 0;
    while (cache < n) cache += std::max<int64_t>(1, batch);
    cache -= n;
    return p;
  }
  std::unique_ptr<VoleStep> DrawRun(Ctx &c, int64_t limit) {
    int64_t n;
    if (!pre) {
      n = DrawBatchSize(c);
    } else {
      switch (c.Choice(5)) {
        case 0: n = c.Range(0, 5); break;
        case 1: n = cache + c.Range(-1, 1); break;
        case 2: n = cache + batch + c.Range(-1, 1); break;
        case 3: n = batch * c.Range(1, 3) + c.Range(-1, 1); break;
        case 4: n = c.Range(0, std::max<int64_t>(1, cache)); break;
        default: n = c.Range(0, 2 * batch + 3);
      }
    }
    // At most this many expansions.
    n = std::min(n, limit);
    if (pre) n = std::min(n, cache + 12 * std::max<int64_t>(1, batch));
    return RunOf(std::max<int64_t>(0, n));
  }
};
// Bits of security a modulus has to have for the code generator.
inline double VoleBits(double ss, int64_t max_output) {
  return ss + std::log2(3.0) + 1.1 + std::log2(static_cast<double>(VP::kCodeGeneratorNonzeros) * static_cast<double>(max_output)) + 3;
}
}  // namespace proto
#endif
