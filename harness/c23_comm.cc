// C23: how much is communicated, and that cached elements cost nothing.
#include "pbt.h"
#include "vole_steps.h"

using namespace proto;

namespace {
int CeilLog2(int64_t n) {
  int l = 0;
  while ((int64_t{1} << l) < n) l++;
  return l;
}
// Levels of one tree, with one to spare.
int64_t Levels(int64_t n) { return n > 0 ? CeilLog2(n) + 1 : 0; }
// Bytes that a message may need besides its contents: framing, archive headers.
constexpr int64_t kSlack = 1024;

struct Use {
  int64_t ots, bytes[2], sends;
};
Use Of(const Step &s) {
  Use u;
  u.ots = static_cast<int64_t>(s.ots[0] + s.ots[1]);
  u.sends = static_cast<int64_t>(s.sends[0] + s.sends[1]);
  for (int r = 0; r < 2; r++) u.bytes[r] = static_cast<int64_t>(s.bytes[r]);
  return u;
}
void Limit(const Step &s, int64_t max_ots, int64_t vectors, int64_t per_vector, int64_t linear) {
  Use u = Of(s);
  STEP_REQUIRE_OF(s, u.ots <= max_ots, "takes " << u.ots << " oblivious transfers, at most " << max_ots << " are needed (the outputs have " << linear << " elements)");
  for (int r = 0; r < 2; r++) {
    int64_t max = kSlack + vectors * per_vector + 64 * max_ots;
    STEP_REQUIRE_OF(s, u.bytes[r] <= max, "role " << r << " sends " << u.bytes[r] << " bytes, which is more than " << max << " (the outputs have " << linear << " elements)");
  }
}
// Sum over all buckets of the levels of their trees: the logarithm is concave.
int64_t BucketOts(int64_t buckets, int64_t n) {
  double per = std::max(0.0, std::log2(3.0 * static_cast<double>(n) / static_cast<double>(buckets)));
  return static_cast<int64_t>(static_cast<double>(buckets) * (per + 2)) + 2;
}

// Lengths between 2^10 and 2^17 next to short ones.
int64_t LongLen(Ctx &c) {
  int k = static_cast<int>(c.Range(8, pbt::Thorough() ? 18 : 16));
  int64_t v = int64_t{1} << k;
  return c.Bool() ? v + c.Range(-1, 1) : v + c.Range(0, v - 1);
}
void Trees(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 3));
  bool longer = false;
  for (int i = 0; i < n; i++) {
    bool spfss = c.Bool();
    int64_t cap = c.Chance(1, 3) ? 300 : 20;
    std::unique_ptr<Step> st;
    auto stretch = [&](std::vector<int64_t> *sizes, std::vector<int64_t> *idx) {
      int64_t total = 0;
      for (size_t j = 0; j < sizes->size(); j++) {
        if ((*sizes)[j] > 0 && c.Chance(1, 2)) {
          (*sizes)[j] = LongLen(c);
          (*idx)[j] = DrawIndex(c, (*sizes)[j]);
        }
        total += (*sizes)[j];
      }
      longer = longer || total > 4000;
    };
    if (spfss) {
      auto p = DrawSpfss(c, o.ss, cap);
      stretch(&p->sizes, &p->idx);
      if (p->t.ops->modular) p->t = DrawTypeOf(c, p->t.ops, o.ss + 24);
      p->va = DrawVec(c, p->t.ring, p->sizes.size());
      p->vb = DrawVec(c, p->t.ring, p->sizes.size());
      st = std::move(p);
    } else {
      auto p = DrawAbo(c, o.ss, cap);
      stretch(&p->sizes, &p->idx);
      if (p->t.ops->modular) p->t = DrawTypeOf(c, p->t.ops, o.ss + 24);
      st = std::move(p);
    }
    h.push_back(std::move(st));
  }
  c.NonTrivial(longer);
  RunHistory(c, env, h);
  for (auto &p : h) {
    const std::vector<int64_t> *sizes = nullptr;
    if (auto *a = dynamic_cast<AboStep *>(p.get())) sizes = &a->sizes;
    if (auto *a = dynamic_cast<SpfssStep *>(p.get())) sizes = &a->sizes;
    int64_t ots = 0, total = 0;
    for (auto v : *sizes) ots += Levels(v), total += v;
    Limit(*p, ots, static_cast<int64_t>(sizes->size()), 96, total);
  }
}
void Points(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 3));
  for (int i = 0; i < n; i++) {
    auto p = DrawMpfss(c, o.ss, 400, 30);
    if (c.Chance(2, 3)) {
      p->size = std::max<int64_t>(static_cast<int64_t>(p->idx.size()), LongLen(c));
      p->idx = DrawIndices(c, static_cast<int64_t>(p->idx.size()), p->size);
      if (p->t.ops->modular) p->t = DrawTypeOf(c, p->t.ops, o.ss + 24);
      p->y = DrawVec(c, p->t.ring, p->idx.size());
      p->x = sc::DrawElement(c, p->t.ring);
    }
    h.push_back(std::move(p));
  }
  RunHistory(c, env, h);
  bool longer = false;
  for (auto &q : h) {
    auto *p = static_cast<MpfssStep *>(q.get());
    int64_t nb = p->nb[0];
    longer = longer || p->size > 50 * nb;
    Limit(*p, BucketOts(nb, p->size), nb, 192, p->size);
  }
  c.NonTrivial(longer);
  // Preparing buckets is local.
  size_t before[2] = {s.net().NumSends(0), s.net().NumSends(1)};
  int64_t len = c.Range(0, 3000);
  int num = static_cast<int>(c.Range(1, 60));
  std::string e = s.TryRun([&] { (void)env.Mpfss(0).UpdateBuckets(len, num), (void)env.Mpfss(0).NumBuckets(num); }, nullptr);
  PBT_REQUIRE(c, e.empty(), "UpdateBuckets(" << len << ", " << num << ") with an idle peer: " << e);
  for (int i = 0; i < 2; i++) PBT_REQUIRE(c, s.net().NumSends(i) == before[i], "UpdateBuckets sends a message");
}

// What the model expects one instance to do.
struct Account {
  int64_t batch = 0, ss_noise = 0, used = 0, expansions = 0;
  int64_t per_expansion = -1;
  int64_t max_ots = 0, buckets = 0, n = 0;
  int64_t pre_ots = 0, pre_elements = 0;
  bool pre = false;
  // Returns false if the batch is clamped or otherwise not modelled.
  bool Start(int64_t b, const TypeSpec &t, double ss) {
    pre = true;
    batch = b, used = expansions = 0, per_expansion = -1;
    size_t lv = VP::seed_size.size();
    pre_ots = 0;
    int sz = SizeOf(t);
    int64_t base = VP::seed_size[0] + GuessBuckets(VP::num_noise_indices[0], ss);
    int64_t stride = 16 / sz;
    pre_ots += (base + stride - 1) / stride * sz * 8;
    pre_elements = base;
    for (size_t i = 0;; i++) {
      int64_t nb = GuessBuckets(VP::num_noise_indices[i], ss);
      n = batch + VP::seed_size[i] + nb;
      buckets = nb;
      if (VP::output_size[i] >= n) break;
      if (i + 1 == lv) return false;
      int64_t out = VP::seed_size[i + 1] + GuessBuckets(VP::num_noise_indices[i + 1], ss);
      pre_ots += BucketOts(nb, out);
      pre_elements += 3 * nb;
    }
    max_ots = BucketOts(buckets, n);
    return true;
  }
  static int SizeOf(const TypeSpec &t) {
    switch (t.ops->kind) {
      case sc::kU8: return 1;
      case sc::kU16: return 2;
      case sc::kU32: return 4;
      case sc::kU64: return 8;
      case sc::kzzp: case sc::kZZp: {
        int bits = 0;
        for (u128 m = t.modulus - 1; m; m >>= 1) bits++;
        return std::max(1, (bits + 7) / 8);
      }
      default: return 16;
    }
  }
};
void Runs(Ctx &c) {
  Opts o = DrawOpts(c, false);
#ifdef VERIF_TINY
  int64_t max_batch = 2700, limit = 9000, max_output = VP::output_size.back();
  int steps = static_cast<int>(c.Range(1, 8));
#else
  int64_t max_batch = c.Chance(1, 6) ? 50000 : 12000, limit = 120000, max_output = 150000;
  int steps = static_cast<int>(c.Range(1, 4));
#endif
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.flip = c.Bool();
  std::vector<const Ops *> kinds;
  for (auto *k : AllOps())
    if (k->vole_create) kinds.push_back(k);
  g.t = DrawTypeOf(c, c.Pick(kinds), VoleBits(o.ss, max_output));
  g.ss = o.ss;
  g.max_batch = max_batch;
  History h;
  int64_t total = 0;
  bool cached = false;
  for (int i = 0; i < steps && total < limit; i++) {
    if (i == 0 ? c.Chance(2, 3) : c.Chance(1, 6)) h.push_back(g.Precompute(c, c.Bool() ? g.DrawBatchSize(c) : c.Range(1, max_batch)));
    int64_t have = g.cache;
    auto p = g.DrawRun(c, limit - total);
    cached = cached || (have >= p->n && p->n > 0);
    total += p->n + 1;
    h.push_back(std::move(p));
  }
  c.NonTrivial(cached || total > 3000);
  RunHistory(c, env, h);
  Account a;
  bool modelled = false;
  for (auto &q : h) {
    auto *p = static_cast<VoleStep *>(q.get());
    Use u = Of(*p);
    int64_t bytes = u.bytes[0] + u.bytes[1];
    if (p->pre) {
      modelled = a.Start(p->n, p->t, o.ss);
      if (modelled) {
        STEP_REQUIRE_OF(*p, u.ots <= a.pre_ots, "takes " << u.ots << " oblivious transfers, at most " << a.pre_ots << " are needed");
        STEP_REQUIRE_OF(*p, bytes <= 16 * kSlack + 128 * a.pre_ots + 96 * a.pre_elements, "takes " << bytes << " bytes in both directions");
      }
      continue;
    }
    bool first = !a.pre;
    if (first) {
      // The precomputation is part of this run.
      modelled = a.Start(p->n, p->t, o.ss);
      if (modelled)
        STEP_REQUIRE_OF(*p, u.ots <= a.pre_ots + a.max_ots, "takes " << u.ots << " oblivious transfers, at most " << a.pre_ots << " + " << a.max_ots << " are needed");
      a.used += p->n;
      a.expansions = (a.used + a.batch - 1) / a.batch;
      continue;
    }
    if (!modelled) continue;
    a.used += p->n;
    int64_t need = (a.used + a.batch - 1) / a.batch, now = need - a.expansions;
    a.expansions = need;
    if (now == 0) {
      STEP_REQUIRE_OF(*p, u.sends == 0 && bytes == 0 && u.ots == 0,
                      "exchanges " << u.sends << " messages (" << bytes << " bytes, " << u.ots << " oblivious transfers) although " << need * a.batch - (a.used - p->n)
                                   << " elements were left over from " << need << " expansions by batches of " << a.batch);
      c.Label("served from the cache");
      continue;
    }
    c.Label(now == 1 ? "one expansion" : "several expansions");
    STEP_REQUIRE_OF(*p, u.ots <= now * a.max_ots, "takes " << u.ots << " oblivious transfers, but the " << now << " missing expansions of " << a.n << " elements need at most "
                                                           << now * a.max_ots << " (batch size " << a.batch << ", " << a.used - p->n << " elements used before)");
    STEP_REQUIRE_OF(*p, bytes <= now * (2 * kSlack + 96 * a.max_ots + 192 * a.buckets), "takes " << bytes << " bytes for " << now << " expansions");
    if (a.per_expansion < 0 && now > 0) {
      STEP_REQUIRE_OF(*p, u.ots % now == 0, "takes " << u.ots << " oblivious transfers for " << now << " expansions of equal size");
      a.per_expansion = u.ots / now;
    }
    STEP_REQUIRE_OF(*p, u.ots == now * a.per_expansion, "takes " << u.ots << " oblivious transfers, but " << now << " expansions are missing and each takes " << a.per_expansion
                                                                 << " (batch size " << a.batch << ", " << a.used - p->n << " elements used before)");
  }
}
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, double sanitized = 0.1) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.sanitized_scale = sanitized;
  return k;
}
#ifdef VERIF_TINY
pbt::Register r1(Make("comm_trees", Trees, 2500, 40000));
pbt::Register r2(Make("comm_points", Points, 1200, 20000));
pbt::Register r3(Make("comm_vole", Runs, 5000, 80000));
#else
pbt::Register r3(Make("comm_vole_real", Runs, 60, 1500));
#endif
}  // namespace
