// C14: (N-1)-out-of-N random OT.
#include <unordered_map>

#include "aes_ref.h"
#include "pbt.h"
#include "steps.h"
#include "uniform.h"

using namespace proto;

namespace {
double DrawSecurity(Ctx &c) {
  static const double v[] = {40, 0, 1, 20, 60, 80};
  return v[c.Choice(5)];
}

// Can the receiver compute the missing value from what it has seen? Every block
// of its view is tried as an inner node above the missing leaf.
void Attack(const AboStep &st, const std::vector<u128> &view, const std::vector<u128> &keys) {
  if (keys.size() < 2) return;
  aesref::Aes128 k[2] = {aesref::Aes128(keys[0]), aesref::Aes128(keys[1])};
  for (size_t e = 0; e < st.sizes.size(); e++) {
    if (st.sizes[e] < 1) continue;
    u128 target = st.s[e][st.idx[e]];
    int depth = 0;
    while ((int64_t{1} << depth) < st.sizes[e]) depth++;
    for (u128 b : view)
      for (int d = 0; d <= depth; d++) {
        u128 n = b;
        for (int l = d - 1; l >= 0; l--) n = k[(st.idx[e] >> l) & 1].Encrypt(n) ^ n;
        if (st.t.ring.Red(n) == target) {
          std::ostringstream os;
          os << st.Str() << ": the value at the receiver's index of entry " << e << " follows from a block " << Hex(b) << " that the receiver has seen (" << d
             << " levels above the leaf)";
          throw Failure{os.str()};
        }
      }
  }
}

void Check(Ctx &c, const std::vector<std::unique_ptr<Step>> &h, Session &s, bool attack) {
  Rng b = c.Bulk();
  // Freshness over the whole history.
  std::unordered_map<uint64_t, std::string> seen;
  std::vector<std::pair<const AboStep *, size_t>> small;
  std::vector<u128> view;
  for (auto &p : h) {
    auto *st = dynamic_cast<AboStep *>(p.get());
    if (!st) continue;
    bool wide = st->t.ring.n == 0 || (st->t.ring.n >> 100) != 0;
    for (size_t e = 0; e < st->sizes.size(); e++) {
      int64_t n = st->sizes[e];
      if (n == 0) continue;
      // The receiver's value at its index tells nothing about the sender's.
      double pr = st->t.ring.n ? 1.0 / static_cast<double>(st->t.ring.n) : 1e-30;
      bool eq = st->s[e][st->idx[e]] == st->r[e][st->idx[e]];
      if (pr < 1e-13 && eq) throw Failure{st->Str() + ": entry " + std::to_string(e) + ": the receiver knows the value at its own index"};
      uni::Event(c, std::string("known.") + st->t.ops->name, eq, pr);
      uni::Add(c, std::string("out.first.") + st->t.ops->name, st->s[e][0], st->t.ring, &b);
      uni::Add(c, std::string("out.last.") + st->t.ops->name, st->s[e][n - 1], st->t.ring, &b);
      uni::Add(c, std::string("out.any.") + st->t.ops->name, st->s[e][b.Upto(n - 1)], st->t.ring, &b);
      u128 miss = st->s[e][st->idx[e]], sum = 0;
      for (int64_t j = 0; j < n; j++)
        if (j != st->idx[e]) sum = st->t.ring.Add(sum, st->r[e][j]);
      uni::Add(c, std::string("missing.") + st->t.ops->name, miss, st->t.ring, &b);
      uni::Add(c, std::string("missing-received.") + st->t.ops->name, st->t.ring.Sub(miss, st->r[e][st->idx[e]]), st->t.ring, &b);
      uni::Add(c, std::string("missing-sum.") + st->t.ops->name, st->t.ring.Sub(miss, sum), st->t.ring, &b);
      if (n > 1) {
        int64_t j = st->idx[e] ^ 1;
        if (j >= n) j = 0;
        if (j != st->idx[e]) uni::Add(c, std::string("missing-sibling.") + st->t.ops->name, st->t.ring.Sub(miss, st->s[e][j]), st->t.ring, &b);
      }
      if (wide) {
        for (int64_t j = 0; j < n; j++) {
          uint64_t key = static_cast<uint64_t>(st->s[e][j]) ^ static_cast<uint64_t>(st->s[e][j] >> 64) * 0x9E3779B97F4A7C15ull;
          std::string where = "run " + std::to_string(&p - &h[0]) + " entry " + std::to_string(e) + " position " + std::to_string(j);
          auto ins = seen.emplace(key, where);
          // 64-bit fingerprints: a chance collision needs about 2^32 values.
          if (!ins.second) throw Failure{st->Str() + ": the sender's value at " + where + " equals the one at " + ins.first->second};
        }
      }
      small.push_back({st, e});
    }
  }
  for (size_t i = 0; i < small.size(); i++)
    for (size_t j = 0; j < i; j++) {
      auto &A = small[i], &B = small[j];
      const U &x = A.first->s[A.second], &y = B.first->s[B.second];
      if (A.first->t.ring.n != B.first->t.ring.n || A.first->t.ring.gf != B.first->t.ring.gf) continue;
      size_t n = std::min(x.size(), y.size());
      double bits = n * (A.first->t.ring.n ? std::log2(static_cast<double>(A.first->t.ring.n)) : 128);
      if (bits < 90) continue;
      if (std::equal(x.begin(), x.begin() + n, y.begin()))
        throw Failure{A.first->Str() + ": entry " + std::to_string(A.second) + " repeats the sender vector of entry " + std::to_string(B.second) + " of " + B.first->Str()};
    }
  if (!attack) return;
  // View of the receiver: what the sender sent, what came out of the OTs, and
  // its own outputs, over the whole history.
  view.push_back(0);
  view.push_back(~static_cast<u128>(0));
  struct Run {
    const AboStep *st;
    std::vector<u128> keys;
  };
  std::vector<Run> runs[2];
  std::vector<u128> views[2];
  for (int r = 0; r < 2; r++) views[r] = view;
  for (auto &p : h) {
    auto *st = dynamic_cast<AboStep *>(p.get());
    if (!st) continue;
    int snd = st->First(), rcv = st->Second();
    Run run{st, {}};
    for (size_t m = st->sent_lo[snd]; m < st->sent_hi[snd]; m++) {
      const auto &msg = s.net().sent(s.Id(snd))[m];
      for (size_t o = 0; o + 16 <= msg.bytes.size() && o < 256; o++) {
        u128 blk;
        memcpy(&blk, msg.bytes.data() + o, 16);
        if (o % 16 == 0 && msg.kind == verif_net::Kind::kRaw) run.keys.push_back(blk);
        if (o % 16 == 0 || views[rcv].size() < 120) views[rcv].push_back(blk);
      }
    }
    for (size_t m = st->ot_lo[snd]; m < st->ot_hi[snd]; m++) {
      const auto &o = s.net().ots()[m];
      for (size_t i = 0; i < o.choices.size(); i++) views[rcv].push_back(o.choices[i] ? o.m1[i] : o.m0[i]);
    }
    bool wide = st->t.ring.n == 0;
    if (wide)
      for (auto &v : st->r)
        for (size_t j = 0; j < v.size() && j < 24; j++) views[rcv].push_back(v[j]);
    runs[rcv].push_back(run);
  }
  for (int r = 0; r < 2; r++)
    for (auto &run : runs[r]) {
      bool wide = run.st->t.ring.n == 0 || (run.st->t.ring.n >> 100) != 0;
      int64_t total = 0;
      for (auto n : run.st->sizes) total += n;
      if (!wide || total > 400) continue;
      Attack(*run.st, views[r], run.keys);
      c.Count("attacked runs");
    }
}

void AboHistory(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.ss = DrawSecurity(c);
  o.record = true;
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 4));
  bool big = c.Chance(1, 40);
  for (int i = 0; i < n; i++) h.push_back(NextAbo(c, h, o.ss, big ? (pbt::Thorough() ? 60000 : 9000) : 300));
  int64_t total = 0;
  for (auto &p : h)
    for (auto v : static_cast<AboStep *>(p.get())->sizes) total += v;
  c.NonTrivial(total > 1);
  RunHistory(c, env, h);
  Check(c, h, s, c.Chance(1, 3));
}

// Every length and index up to a bound, for a narrow and a wide type.
constexpr int kShapeMax = 40;
void AboShapes(Ctx &c) {
  int64_t n = static_cast<int64_t>(c.Choice(kShapeMax - 1)) + 1;
  Opts o = DrawOpts(c, false);
  o.record = true;
  Session s(o);
  Env env(&s);
  History h;
  for (int64_t i = 0; i < n; i++) {
    auto p = std::make_unique<AboStep>();
    p->t = DrawType(c, o.ss + 12);
    p->sizes = {n};
    p->idx = {i};
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  // And all indices at once.
  auto p = std::make_unique<AboStep>();
  p->t = DrawType(c, o.ss + 12);
  for (int64_t i = 0; i < n; i++) p->sizes.push_back(n), p->idx.push_back(i);
  h.push_back(std::move(p));
  c.NonTrivial(n > 1);
  RunHistory(c, env, h);
  Check(c, h, s, false);
}

// Batches of many vectors.
void AboMany(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.record = true;
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 3));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<AboStep>();
    DrawManyEntries(c, &p->sizes, &p->idx);
    int64_t total = 1;
    for (auto x : p->sizes) total += x;
    p->t = DrawType(c, o.ss + std::log2(static_cast<double>(total)));
    p->flip = c.Chance(1, 4);
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Check(c, h, s, false);
}

// Long vectors.
void AboLong(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.record = true;
  Session s(o);
  Env env(&s);
  History h;
  auto p = std::make_unique<AboStep>();
  int64_t len = c.Bool() ? 65536 + c.Range(-3, 3) : c.Range(20000, pbt::Thorough() ? 600000 : 150000);
  if (pbt::Sanitized()) len /= 16;
  int64_t before = c.Range(0, 5);
  if (c.Bool()) p->sizes.push_back(before), p->idx.push_back(before ? before - 1 : 0);
  p->sizes.push_back(len);
  p->idx.push_back(c.Chance(1, 3) ? len - 1 : c.Chance(1, 2) && len > 65536 ? 65536 : c.Range(0, len - 1));
  if (c.Bool()) p->sizes.push_back(3), p->idx.push_back(1);
  p->t = DrawType(c, o.ss + std::log2(static_cast<double>(len + 8)));
  p->flip = c.Bool();
  p->fill = c.Choice(1000);
  h.push_back(std::move(p));
  c.NonTrivial();
  RunHistory(c, env, h);
  Check(c, h, s, false);
}
// Many short runs on one pair of instances.
void AboRuns(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.record = true;
  Session s(o);
  Env env(&s);
  History h;
  bool one = c.Bool();  // one type?
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) {
    auto p = NextAbo(c, h, o.ss, 9);
    h.push_back(one ? OfSameType(h, std::move(p)) : std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Check(c, h, s, false);
}
// Many runs for the statistics of narrow types.
void AboStats(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  const Ops *ops = c.Pick(AllOps());
  int n = static_cast<int>(c.Range(1, 6));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<AboStep>();
    p->t = DrawTypeOf(c, ops, o.ss + 8);
    int k = static_cast<int>(c.Range(1, 12));
    for (int j = 0; j < k; j++) p->sizes.push_back(c.Range(1, 6)), p->idx.push_back(DrawIndex(c, p->sizes.back()));
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Check(c, h, s, false);
}

pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated, bool stats) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  if (stats) k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
pbt::Register r1(Make("abo_history", AboHistory, 20000, 400000, 0, true));
pbt::Register r2(Make("abo_shapes", AboShapes, 0, 400, kShapeMax, false));
pbt::Register r4(Make("abo_many", AboMany, 500, 10000, 0, true));
pbt::Register r5(Make("abo_long", AboLong, 32, 800, 0, true));
pbt::Register r6(Make("abo_runs", AboRuns, 64, 1000, 0, true));
pbt::Register r3(Make("abo_stats", AboStats, 25000, 400000, 0, true));
}  // namespace
