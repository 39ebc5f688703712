// C18: w = u * delta + v over histories of precomputations and runs.
#include "pbt.h"
#include "vole_steps.h"

using namespace proto;

namespace {
TypeSpec DrawVoleType(Ctx &c, double ss, int64_t max_output) {
  return DrawTypeOf(c, c.Pick(AllOps()), VoleBits(ss, max_output));
}
// Up to three instances (types and moduli may differ) used alternately.
void VoleHistory(Ctx &c) {
  Opts o = DrawOpts(c, true);
#ifdef VERIF_TINY
  static const double ss[] = {40, 20, 40, 60, 80};
  o.ss = ss[c.Choice(4)];
  int64_t max_batch = pbt::Thorough() ? 2900 : c.Chance(1, 3) ? 2900 : 500, limit = 6000;
  int max_slots = 3, max_steps = 9;
#else
  int64_t max_batch = c.Chance(1, 12) ? 30000 : c.Chance(1, 3) ? 9000 : 2400, limit = 40000;
  int max_slots = 2, max_steps = 5;
#endif
  int64_t max_output = max_batch + max_batch / 5 + 8000;
#ifdef VERIF_TINY
  max_output = VP::output_size.back();
#else
  max_output = 80000;
#endif
  Session s(o);
  Env env(&s);
  int slots = c.Chance(2, 3) ? 1 : static_cast<int>(c.Range(1, max_slots));
  std::vector<VoleGen> g(slots);
  for (int i = 0; i < slots; i++) {
    g[i].slot = i;
    g[i].flip = c.Bool();
    g[i].t = DrawVoleType(c, o.ss, max_output);
    g[i].ss = o.ss;
    g[i].max_batch = max_batch;
  }
  History h;
  int n = static_cast<int>(c.Range(1, max_steps));
  int64_t total = 0;
  int runs = 0;
  for (int i = 0; i < n && total < limit; i++) {
    VoleGen &q = g[c.Choice(slots - 1)];
    std::unique_ptr<VoleStep> p;
    if (q.pre ? c.Chance(1, 5) : c.Chance(1, 2)) {
      p = q.Precompute(c, q.DrawBatchSize(c));
    } else {
      p = q.DrawRun(c, limit - total);
      total += p->n + 1;
      runs += p->n > 0;
    }
    h.push_back(std::move(p));
  }
  if (!runs) h.push_back(g[0].RunOf(c.Range(1, 50)));
  c.NonTrivial(total > 1);
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
#ifdef VERIF_TINY
// One pair of instances used in both roles. A switch of roles shares the batch
// size and code generator, so every switch is preceded by a precomputation.
void VoleRoleSwitch(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  TypeSpec t = DrawVoleType(c, o.ss, VP::output_size.back());
  bool flip = c.Bool();
  History h;
  int n = static_cast<int>(c.Range(2, 5));
  for (int i = 0; i < n; i++) {
    VoleGen g;
    g.t = t, g.ss = o.ss, g.max_batch = 700;
    g.flip = flip;
    h.push_back(g.Precompute(c, g.DrawBatchSize(c)));
    int k = static_cast<int>(c.Range(1, 3));
    for (int j = 0; j < k; j++) h.push_back(g.DrawRun(c, 1500));
    if (c.Chance(2, 3)) flip = !flip;
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
// Many short runs on one pair of instances, most of which expand.
void VoleRuns(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = DrawVoleType(c, o.ss, VP::output_size.back());
  g.ss = o.ss;
  g.max_batch = 60;
  g.flip = c.Bool();
  History h;
  int64_t b = c.Range(1, 40);
  h.push_back(g.Precompute(c, b));
  bool often = c.Bool();  // a precomputation before most runs?
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) {
    if (often ? c.Chance(1, 2) : c.Chance(1, 40)) h.push_back(g.Precompute(c, b = c.Chance(1, 4) ? c.Range(1, 40) : b));
    h.push_back(g.RunOf(c.Chance(1, 2) ? b : c.Range(0, 2 * b)));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
// Every batch size around every boundary of the table, followed by runs that
// exhaust the cache exactly.
constexpr int kBatches = 400;
void VoleBatches(Ctx &c) {
  int64_t b = static_cast<int64_t>(c.Choice(kBatches - 1)) + 1;
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool(), o.numbers = DrawNumbers(c);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = DrawVoleType(c, o.ss, VP::output_size.back());
  g.ss = o.ss;
  g.max_batch = 3000;
  g.flip = c.Bool();
  History h;
  if (c.Bool()) h.push_back(g.Precompute(c, b));
  h.push_back(g.RunOf(b));
  for (int64_t d : {int64_t{1}, b - 1, b, b + 1, 2 * b + 1, int64_t{0}}) h.push_back(g.RunOf(d));
  if (c.Bool()) h.push_back(g.Precompute(c, b)), h.push_back(g.RunOf(b));
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
#else
// All levels of the real table that fit into memory.
void VoleLevels(Ctx &c) {
  int level = static_cast<int>(c.Choice(pbt::Thorough() ? 3 : 2));
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool(), o.numbers = DrawNumbers(c);
  o.omp[0] = o.omp[1] = static_cast<int>(c.Range(1, 4));
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = DrawVoleType(c, o.ss, 700000);
  g.ss = o.ss;
  g.max_batch = 1000000;
  g.flip = c.Bool();
  int64_t b = VP::output_size[level] - VP::seed_size[level] - GuessBuckets(VP::num_noise_indices[level], o.ss);
  b = c.Bool() ? b : std::max<int64_t>(1, b - c.Range(1, b / 3));
  History h;
  h.push_back(g.Precompute(c, b));
  h.push_back(g.RunOf(b - c.Range(0, 3)));
  h.push_back(g.RunOf(c.Range(1, b / 2)));
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
#endif
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated, double sanitized = 0.1) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  k.sanitized_scale = sanitized;
  return k;
}
#ifdef VERIF_TINY
pbt::Register r1(Make("vole_history", VoleHistory, 6000, 150000, 0));
pbt::Register r2(Make("vole_role_switch", VoleRoleSwitch, 1500, 30000, 0));
pbt::Register r4(Make("vole_runs", VoleRuns, 40, 1000, 0));
pbt::Register r3(Make("vole_batches", VoleBatches, 0, 8000, kBatches));
#else
pbt::Register r1(Make("vole_real_history", VoleHistory, 120, 3000, 0));
pbt::Register r2(Make("vole_real_levels", VoleLevels, 3, 40, 3, 0));
#endif
}  // namespace
