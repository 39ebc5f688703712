// C15: single-point function secret sharing.
#include <unordered_map>

#include "pbt.h"
#include "steps.h"
#include "uniform.h"

using namespace proto;

namespace {
// No value of a wide type may occur twice in what one party was given, and no
// output vector may repeat.
void Fresh(std::unordered_map<uint64_t, std::string> *seen, const Step &st, const std::vector<U> &outs, const char *who, size_t run) {
  if (st.t.ring.n != 0 && (st.t.ring.n >> 100) == 0) return;
  for (size_t e = 0; e < outs.size(); e++)
    for (size_t j = 0; j < outs[e].size(); j++) {
      uint64_t key = static_cast<uint64_t>(outs[e][j]) ^ static_cast<uint64_t>(outs[e][j] >> 64) * 0x9E3779B97F4A7C15ull;
      std::string where = std::string(who) + " run " + std::to_string(run) + " entry " + std::to_string(e) + " position " + std::to_string(j);
      auto ins = seen->emplace(key, where);
      if (!ins.second) throw Failure{st.Str() + ": the output at " + where + " equals the one at " + ins.first->second};
    }
}
void Stats(Ctx &c, const History &h) {
  Rng b = c.Bulk();
  std::unordered_map<uint64_t, std::string> seen_a, seen_b;
  for (size_t k = 0; k < h.size(); k++) {
    auto *st = dynamic_cast<SpfssStep *>(h[k].get());
    if (!st) continue;
    const Ring &r = st->t.ring;
    std::string ty = st->t.ops->name;
    Fresh(&seen_a, *st, st->a, "value provider", k);
    Fresh(&seen_b, *st, st->b, "index provider", k);
    for (size_t e = 0; e < st->sizes.size(); e++) {
      int64_t n = st->sizes[e], i = st->idx[e];
      if (n == 0) continue;
      const char *cls = st->va[e] == 0 && st->vb[e] == 0 ? "0" : st->va[e] == r.Max() || st->vb[e] == r.Max() ? "max" : "any";
      int64_t j = static_cast<int64_t>(b.Upto(n - 1));
      uni::Add(c, "value.any." + ty, st->a[e][j], r, &b);
      uni::Add(c, "index.any." + ty, st->b[e][j], r, &b);
      uni::Add(c, std::string("value.at.") + cls + "." + ty, st->a[e][i], r, &b);
      uni::Add(c, std::string("index.at.") + cls + "." + ty, st->b[e][i], r, &b);
      u128 sa = 0, sb = 0;
      for (int64_t q = 0; q < n; q++) sa = r.Add(sa, st->a[e][q]), sb = r.Add(sb, st->b[e][q]);
      uni::Add(c, "value.sum." + ty, sa, r, &b);
      uni::Add(c, "index.sum." + ty, sb, r, &b);
      if (n > 1) uni::Add(c, "value.difference." + ty, r.Sub(st->a[e][i], st->a[e][i ? i - 1 : 1]), r, &b);
      if (n > 1) uni::Add(c, "index.difference." + ty, r.Sub(st->b[e][i], st->b[e][i ? i - 1 : 1]), r, &b);
    }
  }
}
void SpfssHistory(Ctx &c) {
  Opts o = DrawOpts(c, true);
  static const double ss[] = {40, 0, 1, 20, 60, 80};
  o.ss = ss[c.Choice(5)];
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 4));
  bool big = c.Chance(1, 40);
  int64_t total = 0;
  for (int i = 0; i < n; i++) {
    auto p = NextSpfss(c, h, o.ss, big ? (pbt::Thorough() ? 60000 : 9000) : 300);
    for (size_t e = 0; e < p->sizes.size(); e++)
      if (p->sizes[e] && p->t.ring.Add(p->va[e], p->vb[e])) total += p->sizes[e];
    h.push_back(std::move(p));
  }
  c.NonTrivial(total > 1);
  RunHistory(c, env, h);
  Stats(c, h);
}
constexpr int kShapeMax = 40;
void SpfssShapes(Ctx &c) {
  int64_t n = static_cast<int64_t>(c.Choice(kShapeMax - 1)) + 1;
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  for (int64_t i = -1; i < n; i++) {
    auto p = std::make_unique<SpfssStep>();
    p->t = DrawType(c, o.ss + 12);
    if (i >= 0) p->sizes = {n}, p->idx = {i}, p->api = static_cast<int>(c.Choice(2));
    else
      for (int64_t k = 0; k < n; k++) p->sizes.push_back(n), p->idx.push_back(k);
    p->va = DrawVec(c, p->t.ring, p->sizes.size());
    p->vb = DrawVec(c, p->t.ring, p->sizes.size());
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial(n > 1);
  RunHistory(c, env, h);
  Stats(c, h);
}
// Many short runs on one pair of instances.
void SpfssRuns(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  bool one = c.Bool();  // one type?
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) {
    auto p = NextSpfss(c, h, o.ss, 9);
    h.push_back(one ? OfSameType(h, std::move(p)) : std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Batches of many vectors.
void SpfssMany(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 3));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<SpfssStep>();
    DrawManyEntries(c, &p->sizes, &p->idx);
    int64_t total = 1;
    for (auto x : p->sizes) total += x;
    p->t = DrawType(c, o.ss + std::log2(static_cast<double>(total)));
    p->va = DrawVec(c, p->t.ring, p->sizes.size());
    p->vb = DrawVec(c, p->t.ring, p->sizes.size());
    p->flip = c.Chance(1, 4);
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Long vectors.
void SpfssLong(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  auto p = std::make_unique<SpfssStep>();
  int64_t len = c.Bool() ? 65536 + c.Range(-3, 3) : c.Range(20000, pbt::Thorough() ? 600000 : 150000);
  if (pbt::Sanitized()) len /= 16;
  int64_t before = c.Range(0, 5);
  if (c.Bool()) p->sizes.push_back(before), p->idx.push_back(before ? before - 1 : 0);
  p->sizes.push_back(len);
  p->idx.push_back(c.Chance(1, 3) ? len - 1 : c.Chance(1, 2) && len > 65536 ? 65536 : c.Range(0, len - 1));
  if (c.Bool()) p->sizes.push_back(3), p->idx.push_back(1);
  p->t = DrawType(c, o.ss + std::log2(static_cast<double>(len + 8)));
  p->va = DrawVec(c, p->t.ring, p->sizes.size());
  p->vb = DrawVec(c, p->t.ring, p->sizes.size());
  p->flip = c.Bool();
  p->fill = c.Choice(1000);
  h.push_back(std::move(p));
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
void SpfssStats(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  const Ops *ops = c.Pick(AllOps());
  int n = static_cast<int>(c.Range(1, 5));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<SpfssStep>();
    p->t = DrawTypeOf(c, ops, o.ss + 8);
    int k = static_cast<int>(c.Range(1, 10));
    for (int j = 0; j < k; j++) p->sizes.push_back(c.Range(1, 5)), p->idx.push_back(DrawIndex(c, p->sizes.back()));
    p->va = DrawVec(c, p->t.ring, k);
    p->vb = DrawVec(c, p->t.ring, k);
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
pbt::Register r1(Make("spfss_history", SpfssHistory, 20000, 400000, 0));
pbt::Register r2(Make("spfss_shapes", SpfssShapes, 0, 400, kShapeMax));
pbt::Register r4(Make("spfss_many", SpfssMany, 500, 10000, 0));
pbt::Register r5(Make("spfss_long", SpfssLong, 32, 800, 0));
pbt::Register r6(Make("spfss_runs", SpfssRuns, 64, 1000, 0));
pbt::Register r3(Make("spfss_stats", SpfssStats, 25000, 400000, 0));
}  // namespace
