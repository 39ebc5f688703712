// C22: threads, party numbers, channel kinds and timing do not matter.
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
#include "distributed_vector_ole/ggm_tree.h"
#include "pbt.h"
#include "vole_steps.h"

using namespace proto;

namespace {
// Another number of threads for one step.
struct ThreadsStep : Step {
  std::unique_ptr<Step> inner;
  int omp[2] = {1, 1};
  void Setup(Env &e, int role) override { inner->Setup(e, role); }
  void Party(Env &e, int role, bool first) override {
    omp_set_num_threads(omp[role]);
    inner->Party(e, role, first);
    int got = omp_get_max_threads();
    omp_set_num_threads(e.s->opt.omp[role]);
    if (got != omp[role]) throw Failure{Str() + ": the caller's number of threads was changed"};
  }
  void Verify() override { inner->Verify(); }
  Step *Core() override { return inner->Core(); }
  std::string Str() const override { return inner->Str() + " with " + std::to_string(omp[0]) + "/" + std::to_string(omp[1]) + " threads"; }
};
int DrawThreads(Ctx &c) {
  static const int n[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 32};
  return n[c.Choice(pbt::Thorough() ? 9 : 8)];
}
struct Party2 {
  Opts o;
  std::vector<VoleGen> g;
  History h;
};
Opts DrawConfig(Ctx &c) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  // Half of the cases without taped randomness in the parties.
  o.taped = c.Bool();
  o.swap = c.Bool(), o.measured = c.Bool(), o.numbers = DrawNumbers(c);
  o.omp[0] = DrawThreads(c), o.omp[1] = DrawThreads(c);
  if (c.Chance(1, 2)) o.sched = 1 + c.Choice(1u << 30);
  o.region = c.Chance(1, 6);
  return o;
}
void DrawSession(Ctx &c, Party2 *p, int max_steps, int64_t max_len, bool vole, int64_t max_batch, int64_t limit, int64_t max_output) {
  p->o = DrawConfig(c);
  double ss = p->o.ss;
  int slots = vole ? static_cast<int>(c.Range(0, 2)) : 0;
  for (int i = 0; i < slots; i++) {
    VoleGen g;
    const Ops *ops = c.Chance(1, 2) ? GetOps(sc::kzzp) : c.Pick(AllOps());
    if (!ops->vole_create) ops = GetOps(sc::kzzp);
    g.t = DrawTypeOf(c, ops, VoleBits(ss, max_output));
    g.slot = i, g.flip = c.Bool(), g.ss = ss, g.max_batch = max_batch;
    p->g.push_back(g);
  }
  int n = static_cast<int>(c.Range(1, max_steps));
  for (int i = 0; i < n; i++) {
    std::unique_ptr<Step> st;
    if (slots && c.Chance(1, 2)) {
      VoleGen &g = p->g[c.Choice(slots - 1)];
      std::unique_ptr<VoleStep> vs = c.Chance(1, 4) ? g.Precompute(c, g.DrawBatchSize(c)) : g.DrawRun(c, limit);
      // With moduli the number of threads has to stay the same (documented).
      if (!g.t.ops->modular && c.Chance(1, 3)) {
        auto w = std::make_unique<ThreadsStep>();
        w->t = vs->t, w->flip = vs->flip;
        w->omp[0] = DrawThreads(c), w->omp[1] = DrawThreads(c);
        w->inner = std::move(vs);
        p->h.push_back(std::move(w));
      } else {
        p->h.push_back(std::move(vs));
      }
      continue;
    }
    switch (c.Choice(3)) {
      case 0: st = NextAbo(c, p->h, ss, max_len); break;
      case 1: st = NextSpfss(c, p->h, ss, max_len); break;
      case 2: st = NextMpfss(c, p->h, ss, max_len, 60); break;
      default: st = NextGilboa(c, p->h, 60);
    }
    if (c.Bool()) st->flip = !st->flip;
    if (c.Chance(1, 3)) {
      auto w = std::make_unique<ThreadsStep>();
      w->t = st->t, w->flip = st->flip;
      w->omp[0] = DrawThreads(c), w->omp[1] = DrawThreads(c);
      w->inner = std::move(st);
      st = std::move(w);
    }
    p->h.push_back(std::move(st));
  }
}
// One or two sessions at the same time.
void RunSessions(Ctx &c, std::vector<Party2> &ps) {
  std::vector<std::string> err(ps.size());
  for (auto &p : ps) {
    c.Desc() << p.o.Str() << "\n";
    for (auto &st : p.h) c.Desc() << "  " << st->Str() << "\n";
  }
  auto one = [&](size_t i) {
    try {
      Session s(ps[i].o);
      Env env(&s);
      auto &h = ps[i].h;
      s.Run([&] { for (auto &st : h) st->Do(env, 0); }, [&] { for (auto &st : h) st->Do(env, 1); });
      if (!s.net().Idle()) throw Failure{"messages are left in the channel after all runs"};
      for (auto &st : h) st->Verify();
      VerifyDeltas(h);
    } catch (const Failure &f) {
      err[i] = f.msg;
    } catch (const std::exception &e) {
      err[i] = e.what();
    }
  };
  std::vector<std::thread> th;
  for (size_t i = 1; i < ps.size(); i++) th.emplace_back(one, i);
  one(0);
  for (auto &t : th) t.join();
  for (size_t i = 0; i < ps.size(); i++)
    if (!err[i].empty()) c.Fail((ps.size() > 1 ? "session " + std::to_string(i) + ": " : std::string()) + err[i]);
}
void Configs(Ctx &c) {
#ifdef VERIF_TINY
  int64_t max_len = c.Chance(1, 20) ? 5000 : 300, max_batch = 500, limit = 2500, out = 3000;
#else
  int64_t max_len = c.Chance(1, 10) ? 20000 : 2000, max_batch = c.Chance(1, 6) ? 9000 : 2600, limit = 20000, out = 80000;
#endif
  int sessions = c.Chance(1, 3) ? 2 : 1;
  std::vector<Party2> ps(sessions);
  for (auto &p : ps) DrawSession(c, &p, pbt::Thorough() ? 8 : 5, max_len, true, max_batch, limit, out);
  bool nt = false;
  for (auto &p : ps) nt = nt || p.o.omp[0] > 1 || p.o.omp[1] > 1 || p.o.swap || p.o.measured || p.o.sched;
  c.NonTrivial(nt);
  for (auto &p : ps) {
    if (p.o.sched) c.Label("perturbed schedule");
    if (p.o.measured) c.Label("measured channel");
    if (p.o.swap) c.Label("swapped numbers");
    if (p.o.omp[0] != p.o.omp[1]) c.Label("different thread counts");
  }
  if (sessions > 1) c.Label("two sessions at once");
  RunSessions(c, ps);
}
// Every combination of thread counts 1-8 at both sides, both numberings and
// channel kinds, for every protocol.
constexpr int kGrid = 8 * 8 * 2 * 2 * 5;
void Grid(Ctx &c) {
  uint64_t k = c.Choice(kGrid - 1);
  Party2 p;
  p.o.tape[0] = c.Choice(UINT64_MAX), p.o.tape[1] = c.Choice(UINT64_MAX);
  p.o.taped = c.Bool();
  p.o.omp[0] = 1 + static_cast<int>(k % 8), k /= 8;
  p.o.omp[1] = 1 + static_cast<int>(k % 8), k /= 8;
  p.o.swap = k % 2, k /= 2;
  p.o.measured = k % 2, k /= 2;
  for (int rep = 0; rep < 2; rep++) {
    std::unique_ptr<Step> st;
    switch (k) {
      case 0: {
        auto q = DrawAbo(c, 40, 60);
        for (int i = 0; i < 20; i++) q->sizes.push_back(c.Range(0, 40)), q->idx.push_back(DrawIndex(c, q->sizes.back()));
        q->t = DrawType(c, 54);
        q->single = false;
        st = std::move(q);
        break;
      }
      case 1: {
        auto q = DrawSpfss(c, 40, 60);
        q->api = {0};
        q->t = DrawType(c, 54);
        q->sizes.clear(), q->idx.clear();
        for (int i = 0; i < 20; i++) q->sizes.push_back(c.Range(0, 40)), q->idx.push_back(DrawIndex(c, q->sizes.back()));
        q->va = DrawVec(c, q->t.ring, 20), q->vb = DrawVec(c, q->t.ring, 20);
        st = std::move(q);
        break;
      }
      case 2: st = DrawMpfss(c, 40, 200, 40); break;
      case 3: st = DrawGilboa(c, 40); break;
      default: {
        VoleGen g;
        const Ops *ops = c.Pick(AllOps());
        if (!ops->vole_create) ops = GetOps(sc::kzzp);
        g.t = DrawTypeOf(c, ops, VoleBits(40, 3000));
        g.max_batch = 200, g.slot = rep;
        g.flip = rep == 1;
        p.h.push_back(g.Precompute(c, g.DrawBatchSize(c)));
        p.h.push_back(g.DrawRun(c, 500));
        continue;
      }
    }
    st->flip = rep == 1;
    p.h.push_back(std::move(st));
  }
  std::vector<Party2> ps;
  ps.push_back(std::move(p));
  c.NonTrivial();
  RunSessions(c, ps);
}
// Local computations, with different numbers of threads and on several threads
// at once, give the same results.
struct LocalJob {
  absl::uint128 seed;
  std::vector<absl::uint128> keys;
  int64_t leaves, missing;
  std::vector<uint64_t> in;
  int64_t buckets;
  int hashes;
  std::vector<uint8_t> gen_seed;
  int64_t draws;
  std::string Run() const {
    std::ostringstream os;
    auto put = [&](absl::uint128 v) { os << absl::Uint128High64(v) << "," << absl::Uint128Low64(v) << ";"; };
    auto t = dv::GGMTree::Create(leaves, seed, keys);
    if (!t.ok()) throw Failure{"GGMTree::Create failed"};
    auto &tree = *t.ValueOrDie();
    for (int64_t i = 0; i < leaves; i++) put(tree.GetValueAtLeaf(i).ValueOrDie());
    auto x = tree.GetSiblingWiseXOR();
    for (auto &l : x) for (auto v : l) put(v);
    auto p = dv::GGMTree::CreateFromSiblingWiseXOR(static_cast<int>(keys.size()), leaves, missing, x, keys);
    if (!p.ok()) throw Failure{"CreateFromSiblingWiseXOR failed"};
    for (int64_t i = 0; i < leaves; i++)
      if (i != missing) put(p.ValueOrDie()->GetValueAtLeaf(i).ValueOrDie());
    os << "|";
    auto h = dv::CuckooHasher::Create(seed, hashes);
    if (!h.ok()) throw Failure{"CuckooHasher::Create failed"};
    auto a = h.ValueOrDie()->Hash(absl::MakeConstSpan(in), buckets);
    if (!a.ok()) throw Failure{"Hash failed"};
    for (auto &l : a.ValueOrDie()) for (auto v : l) os << v << ";";
    os << "|";
    auto s = h.ValueOrDie()->HashSimple(absl::MakeConstSpan(in), buckets);
    if (!s.ok()) throw Failure{"HashSimple failed"};
    for (auto &l : s.ValueOrDie()) {
      auto sorted = l;
      std::sort(sorted.begin(), sorted.end());
      for (auto v : sorted) os << v << ";";
      os << "/";
      // The order matters for the protocols: both parties have to agree on it.
      for (auto v : l) os << v << ";";
    }
    os << "|";
    if (hashes > 1) {
      auto k = h.ValueOrDie()->HashCuckoo(absl::MakeConstSpan(in), static_cast<int64_t>(in.size()) * 3 + 10);
      os << k.ok() << ";";
      if (k.ok()) for (auto v : k.ValueOrDie()) os << v << ";";
    }
    os << "|";
    auto g = dv::AESUniformBitGenerator::Create(gen_seed, 64);
    if (!g.ok()) throw Failure{"AESUniformBitGenerator::Create failed"};
    auto &rng = g.ValueOrDie();
    for (int64_t i = 0; i < draws; i++) os << rng() << ";";
    return os.str();
  }
};
void Local(Ctx &c) {
  LocalJob j;
  Rng b = c.Bulk();
  auto block = [&] { u128 v = b.U128(); return absl::MakeUint128(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); };
  j.seed = block();
  int arity = static_cast<int>(c.Chance(1, 2) ? 2 : c.Range(2, 9));
  for (int i = 0; i < arity; i++) j.keys.push_back(block());
  j.leaves = c.Size(1, 3000);
  j.missing = DrawIndex(c, j.leaves);
  int64_t n = c.Size(0, 3000);
  for (int64_t i = 0; i < n; i++) j.in.push_back(b());
  j.buckets = c.Size(1, 500);
  j.hashes = static_cast<int>(c.Range(1, 3));
  for (int i = 0; i < 32; i++) j.gen_seed.push_back(static_cast<uint8_t>(b()));
  j.draws = c.Size(0, 500);
  int t1 = DrawThreads(c), t2 = DrawThreads(c), k = static_cast<int>(c.Range(1, 3));
  int nested = c.Chance(1, 3) ? static_cast<int>(c.Range(1, 2)) : 0;
  c.Desc() << "local computations: " << j.leaves << " leaves of arity " << arity << ", " << n << " inputs into " << j.buckets << " buckets with " << j.hashes
           << " hash functions, " << j.draws << " draws; 1 thread, " << t1 << " threads, " << k << " callers with " << t2 << " threads" << (nested == 2 ? ", in nested parallel regions" : nested ? ", in a parallel region" : "");
  c.NonTrivial(t1 > 1 || t2 > 1 || k > 1);
  int old = omp_get_max_threads();
  omp_set_num_threads(1);
  std::string want = j.Run();
  omp_set_num_threads(t1);
  std::string got = j.Run();
  omp_set_num_threads(old);
  PBT_REQUIRE(c, got == want, "results with " << t1 << " threads differ from those with one");
  std::vector<std::string> r(k), err(k);
  std::vector<std::thread> th;
  for (int i = 0; i < k; i++)
    th.emplace_back([&, i] {
      omp_set_num_threads(t2);
      try {
        r[i] = j.Run();
      } catch (const Failure &f) {
        err[i] = f.msg;
      }
    });
  for (auto &t : th) t.join();
  for (int i = 0; i < k; i++) {
    PBT_REQUIRE(c, err[i].empty(), err[i]);
    PBT_REQUIRE(c, r[i] == want, "results of a concurrent caller with " << t2 << " threads differ");
  }
  if (nested) {
    // Inner regions have one thread (whatever number is asked for), or t2.
    std::vector<std::string> q(3);
    int levels = omp_get_max_active_levels();
    omp_set_max_active_levels(nested);
#pragma omp parallel num_threads(3)
    {
      omp_set_num_threads(t2);
      try {
        q[omp_get_thread_num()] = j.Run();
      } catch (const Failure &f) {
        q[omp_get_thread_num()] = f.msg;
      }
    }
    omp_set_max_active_levels(levels);
    for (auto &x : q) PBT_REQUIRE(c, x.empty() || x == want, "results inside a parallel region differ");
  }
}
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated, double sanitized = 0.1) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  k.sanitized_scale = sanitized;
  return k;
}
#ifdef VERIF_TINY
pbt::Register r1(Make("config_histories", Configs, 5000, 120000, 0));
pbt::Register r2(Make("config_grid", Grid, 0, 5000, kGrid, 0));
pbt::Register r3(Make("config_local", Local, 1500, 40000, 0));
#else
pbt::Register r1(Make("config_real_histories", Configs, 300, 8000, 0));
#endif
}  // namespace
