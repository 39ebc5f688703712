// C16: multi-point function secret sharing from a vector-OLE correlation.
#include <unordered_map>

#include "pbt.h"
#include "steps.h"
#include "uniform.h"

using namespace proto;

namespace {
void Stats(Ctx &c, const History &h) {
  Rng b = c.Bulk();
  std::unordered_map<uint64_t, std::string> seen[2];
  for (size_t k = 0; k < h.size(); k++) {
    auto *st = dynamic_cast<MpfssStep *>(h[k].get());
    if (!st || st->size == 0) continue;
    const Ring &r = st->t.ring;
    std::string ty = st->t.ops->name;
    // Each party's share on its own.
    int64_t j = static_cast<int64_t>(b.Upto(st->size - 1)), i = st->idx[b.Upto(st->idx.size() - 1)];
    uni::Add(c, "value.any." + ty, st->a[j], r, &b);
    uni::Add(c, "index.any." + ty, st->b[j], r, &b);
    uni::Add(c, "value.at." + ty, st->a[i], r, &b);
    if (st->corr_mode == 0) uni::Add(c, "index.at." + ty, st->b[i], r, &b);
    if (r.n != 0 && (r.n >> 100) == 0) continue;
    for (int p = 0; p < 2; p++) {
      const U &o = p ? st->b : st->a;
      for (size_t q = 0; q < o.size(); q++) {
        uint64_t key = static_cast<uint64_t>(o[q]) ^ static_cast<uint64_t>(o[q] >> 64) * 0x9E3779B97F4A7C15ull;
        std::string where = "run " + std::to_string(k) + " position " + std::to_string(q);
        auto ins = seen[p].emplace(key, where);
        if (!ins.second) throw Failure{st->Str() + ": the output at " + where + " equals the one at " + ins.first->second};
      }
    }
  }
}
void MpfssHistory(Ctx &c) {
  Opts o = DrawOpts(c, true);
  static const double ss[] = {40, 0, 1, 20, 60};
  o.ss = c.Chance(2, 3) ? 40 : ss[c.Choice(4)];
  // Below about 30 bits the tables are too small for cuckoo hashing to be
  // relied upon.
  if (o.ss < 30) o.ss = 30 + o.ss / 4;
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 4));
  bool big = c.Chance(1, 50);
  for (int i = 0; i < n; i++) h.push_back(NextMpfss(c, h, o.ss, big ? 20000 : 400, big ? 800 : 40));
  // Runs that repeat or nearly repeat an earlier shape exercise the cache.
  if (n > 1 && c.Chance(1, 3)) {
    auto *first = static_cast<MpfssStep *>(h[0].get());
    auto *last = static_cast<MpfssStep *>(h[n - 1].get());
    if (last->idx.size() <= static_cast<size_t>(first->size)) {
      last->size = first->size;
      last->idx = DrawIndices(c, static_cast<int64_t>(last->idx.size()), last->size);
      last->t = DrawType(c, o.ss + 1 + std::log2(3.0 * static_cast<double>(last->size) + 10));
      last->y = DrawVec(c, last->t.ring, last->idx.size());
      last->x = sc::DrawElement(c, last->t.ring);
    }
  }
  bool nt = false;
  for (auto &p : h) {
    auto *st = static_cast<MpfssStep *>(p.get());
    for (auto v : st->y) nt = nt || (st->t.ring.Mul(st->x, v) != 0 && st->size > 1);
  }
  c.NonTrivial(nt);
  RunHistory(c, env, h);
  Stats(c, h);
}
// All non-empty sets of positions of all output sizes up to 6.
constexpr int kSets = 2 + 4 + 8 + 16 + 32 + 64 - 6;
void MpfssSets(Ctx &c) {
  int64_t k = static_cast<int64_t>(c.Choice(kSets - 1));
  int64_t size = 1;
  while (k >= (int64_t{1} << size) - 1) k -= (int64_t{1} << size) - 1, size++;
  k++;
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  for (int i = 0; i < 3; i++) {
    auto p = std::make_unique<MpfssStep>();
    p->size = size;
    for (int64_t q = 0; q < size; q++)
      if (k >> q & 1) p->idx.push_back(q);
    if (i == 1) std::reverse(p->idx.begin(), p->idx.end());
    p->t = DrawType(c, o.ss + 12);
    p->y = DrawVec(c, p->t.ring, p->idx.size());
    p->x = sc::DrawElement(c, p->t.ring);
    p->corr = c.Choice(UINT64_MAX);
    h.push_back(std::move(p));
  }
  c.NonTrivial(size > 1);
  RunHistory(c, env, h);
  Stats(c, h);
}
// Many short runs on one pair of instances.
void MpfssRuns(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  bool one = c.Bool();  // one type?
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) {
    auto p = NextMpfss(c, h, o.ss, 20, 5);
    h.push_back(one ? OfSameType(h, std::move(p)) : std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Few indices in long outputs: buckets of hundreds of elements.
void MpfssLong(Ctx &c) {
  Opts o = DrawOpts(c, true);
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 4));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<MpfssStep>();
    p->size = c.Chance(1, 8) ? c.Range(3000, pbt::Thorough() ? 200000 : 20000) : c.Range(150, 3000);
    int64_t k = c.Range(1, 12);
    // Many indices and long buckets at once.
    if (c.Chance(1, 40)) p->size = c.Range(25000, pbt::Thorough() ? 200000 : 60000), k = c.Range(200, pbt::Thorough() ? 2000 : 600);
    p->idx = DrawIndices(c, k, p->size);
    p->t = DrawType(c, o.ss + 1 + std::log2(3.0 * static_cast<double>(p->size) + 10));
    p->y = DrawVec(c, p->t.ring, p->idx.size());
    p->x = sc::DrawElement(c, p->t.ring);
    if (p->x == 0) p->x = 1;
    p->corr = c.Choice(UINT64_MAX);
    p->flip = c.Chance(1, 4);
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}

// One to three indices in outputs of up to hundreds of thousands of elements:
// buckets of more elements than 14, 15 or 16 bits count.
void MpfssWide(Ctx &c) {
  Opts o = DrawOpts(c, true);
  // Buckets of more than 2^16 positions.
  bool huge = !pbt::Sanitized() && c.Chance(1, 10);
  if (huge) o.ss = 30;
  Session s(o);
  Env env(&s);
  History h;
  int n = huge ? 1 : static_cast<int>(c.Range(1, 2));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<MpfssStep>();
    static const std::vector<int64_t> around = {16384, 32768, 65536};
    int64_t k = c.Range(1, 3);
    p->size = c.Chance(1, 3) ? c.Pick(around) * c.Range(1, 3) + c.Range(-40, 40) : c.Range(20000, pbt::Sanitized() ? 60000 : pbt::Thorough() ? 900000 : 300000);
    if (huge) k = c.Range(4, 8), p->size = c.Range(850000, 1000000);
    p->idx = DrawIndices(c, k, p->size);
    if (huge || c.Chance(1, 3)) {
      int64_t last = p->size - 1 - static_cast<int64_t>(c.Choice(20));
      if (std::find(p->idx.begin(), p->idx.end(), last) == p->idx.end()) p->idx.back() = last;
    }
    p->t = DrawType(c, o.ss + 1 + std::log2(3.0 * static_cast<double>(p->size) + 10));
    p->y = DrawVec(c, p->t.ring, p->idx.size());
    for (auto &v : p->y)
      if (v == 0) v = 1;
    p->x = sc::DrawElement(c, p->t.ring);
    if (p->x == 0) p->x = 1;
    p->corr = c.Choice(UINT64_MAX);
    p->flip = c.Chance(1, 4);
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
}

// Arguments that have to be rejected; afterwards a valid run works.
void MpfssRejected(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  auto before = DrawMpfss(c, o.ss, 60, 12);
  auto bad = DrawMpfss(c, o.ss, 60, 12);
  auto after = DrawMpfss(c, o.ss, 60, 12);
  bool warm = c.Bool();
  int kind = static_cast<int>(c.Choice(13));
  uint64_t q = c.Choice(1000);
  static const char *names[] = {"repeated index", "negative index", "index equal to the size", "huge index", "very negative index", "y longer than indices",
                                "indices longer than y", "output too short", "empty y", "u of wrong size", "v of wrong size", "y_len zero", "y_len negative",
                                "w of wrong size"};
  c.Desc() << o.Str() << " " << names[kind] << (warm ? " after a run" : "") << "\n  " << bad->Str() << "\n";
  c.Label(names[kind]);
  c.NonTrivial();
  auto idx = bad->idx;
  U y = bad->y, out = Prefilled({bad->size}, bad->t.ring, bad->fill)[0];
  size_t at = q % idx.size();
  bool value_side = kind >= 11;
  int y_len = static_cast<int>(y.size());
  int64_t du = 0, dv_ = 0, dw = 0;
  switch (kind) {
    case 0: {
      if (idx.size() < 2) idx.push_back(idx[0]), y.push_back(1), out.push_back(0);
      at = q % idx.size();
      idx[at] = idx[(at + 1 + q / 7 % (idx.size() - 1)) % idx.size()];
      break;
    }
    case 1: idx[at] = -1 - static_cast<int64_t>(q % 3); break;
    case 2: idx[at] = bad->size; break;
    case 3: idx[at] = q % 2 ? bad->size + 1 + static_cast<int64_t>(q) : INT64_MAX; break;
    case 4: idx[at] = INT64_MIN + static_cast<int64_t>(q % 2); break;
    case 5: y.push_back(1); break;
    case 6: idx.push_back(bad->size > static_cast<int64_t>(idx.size()) ? 0 : 0); break;
    case 7: {
      // more indices than outputs
      out.resize(idx.size() - 1);
      break;
    }
    case 8: y.clear(), idx.clear(); break;
    case 9: du = q % 2 ? 1 : -1; break;
    case 10: dv_ = q % 2 ? 1 : -1; break;
    case 11: y_len = 0; break;
    case 12: y_len = q % 2 ? -1 : INT32_MIN; break;
    case 13: dw = q % 2 ? 1 : -1; break;
  }
  if (kind == 9 && q % 5 == 0) du = -1000000;
  if (kind == 13 && q % 5 == 0) dw = -1000000;
  int role = value_side ? bad->First() : bad->Second();
  auto call = [&] {
    bad->t.Install();
    auto &inst = env.Mpfss(role);
    auto so = inst.NumBuckets(static_cast<int>(bad->y.size()));
    if (!so.ok()) throw Failure{"NumBuckets failed"};
    int64_t nb = so.ValueOrDie();
    auto len = [&](int64_t d) { return static_cast<size_t>(std::max<int64_t>(0, nb + d)); };
    auto before_sends = s.net().NumSends(s.Id(role));
    Res r;
    U u(len(du), 1 % 2), v(len(dv_)), w(len(dw));
    if (value_side) r = bad->t.ops->mpfss_value(inst, bad->x, y_len, w, out);
    else r = bad->t.ops->mpfss_index(inst, y, idx, u, v, out);
    if (r.ok) throw Failure{"accepted: " + bad->Str()};
    if (!r.invalid()) throw Bad("not an invalid-argument error", r);
    if (!r.bad.empty()) throw Bad("rejected, but", r);
    if (s.net().NumSends(s.Id(role)) != before_sends) throw Failure{"a message was sent although the arguments are invalid"};
  };
  s.Run([&] { if (warm) before->Do(env, 0); else env.Mpfss(0); }, [&] { if (warm) before->Do(env, 1); else env.Mpfss(1); });
  // The other party does nothing.
  s.Run(role == 0 ? std::function<void()>(call) : nullptr, role == 1 ? std::function<void()>(call) : nullptr);
  PBT_REQUIRE(c, s.net().Idle(), "messages are in the channel after a rejected call");
  s.Run([&] { after->Do(env, 0); }, [&] { after->Do(env, 1); });
  PBT_REQUIRE(c, s.net().Idle(), "messages are left in the channel");
  if (warm) before->Verify();
  after->Verify();
}
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated, bool stats) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  if (stats) k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
pbt::Register r1(Make("mpfss_history", MpfssHistory, 10000, 200000, 0, true));
pbt::Register r2(Make("mpfss_sets", MpfssSets, 0, 2000, kSets, true));
pbt::Register r4(Make("mpfss_long", MpfssLong, 1500, 30000, 0, true));
pbt::Register r6(Make("mpfss_runs", MpfssRuns, 24, 600, 0, true));
pbt::Register r5(Make("mpfss_wide", MpfssWide, 120, 2500, 0, false));
pbt::Register r3(Make("mpfss_rejected", MpfssRejected, 4000, 60000, 0, false));
}  // namespace
