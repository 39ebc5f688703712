// C19: vector-OLE outputs are new, never reused and pseudorandom.
#include <unordered_map>

#include "linalg.h"
#include "pbt.h"
#include "uniform.h"
#include "vole_steps.h"

using namespace proto;

namespace {
const int64_t kMaxOutput =
#ifdef VERIF_TINY
    3000;
#else
    80000;
#endif
int Bits(const Ring &r) { return r.n == 0 ? 128 : static_cast<int>(std::floor(std::log2(static_cast<double>(r.n)))); }

// Remembers every stretch of elements that is long enough (120 bits) to be
// unique if the elements are random.
class Windows {
 public:
  void Add(const Ring &r, const char *what, const U &a, const U *b, const std::string &where) {
    size_t len = static_cast<size_t>((120 + Bits(r) * (b ? 2 : 1) - 1) / (Bits(r) * (b ? 2 : 1)));
    for (size_t i = 0; i + len <= a.size(); i++) {
      Key k{0x243F6A8885A308D3ull, 0x13198A2E03707344ull};
      for (size_t j = 0; j < len; j++) {
        Mix(&k, a[i + j]);
        if (b) Mix(&k, (*b)[i + j]);
      }
      auto ins = seen_.emplace(k, Where{static_cast<uint32_t>(names_.size()), static_cast<uint32_t>(i)});
      if (!ins.second) {
        const Where &w = ins.first->second;
        std::string other = w.name == names_.size() ? where : names_[w.name];
        throw Failure{std::string(what) + ": " + std::to_string(len) + " element(s) from position " + std::to_string(i) + " of " + where +
                      " already occurred at position " + std::to_string(w.pos) + " of " + other};
      }
    }
    names_.push_back(where);
  }

 private:
  struct Key {
    uint64_t a, b;
    bool operator==(const Key &o) const { return a == o.a && b == o.b; }
  };
  struct Hash {
    size_t operator()(const Key &k) const { return k.a; }
  };
  struct Where {
    uint32_t name, pos;
  };
  static uint64_t M(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  static void Mix(Key *k, u128 v) {
    for (uint64_t x : {static_cast<uint64_t>(v), static_cast<uint64_t>(v >> 64)}) {
      k->a = M(k->a ^ x) + 0x9E3779B97F4A7C15ull;
      k->b = M(k->b + x * 0xD6E8FEB86659FD93ull) ^ (k->a >> 7);
    }
  }
  std::unordered_map<Key, Where, Hash> seen_;
  std::vector<std::string> names_;
};
int ElemBytes(const TypeSpec &t) {
  switch (t.ops->kind) {
    case sc::kU8: return 1;
    case sc::kU16: return 2;
    case sc::kU32: return 4;
    case sc::kU64: case sc::kzzp: return 8;
    default: return 16;
  }
}
// Stretches of 16 bytes of handed-out elements must not be in any message.
void CheckTranscript(const verif_net::Net &net, const History &h) {
  struct H {
    size_t operator()(const std::pair<uint64_t, uint64_t> &p) const { return p.first * 0x9E3779B97F4A7C15ull ^ p.second; }
  };
  std::unordered_map<std::pair<uint64_t, uint64_t>, std::string, H> want;
  for (auto &p : h) {
    auto *s = dynamic_cast<VoleStep *>(p.get());
    if (!s || s->pre) continue;
    int eb = ElemBytes(s->t);
    if (s->t.ops->kind == sc::kzzp && Bits(s->t.ring) < 50) continue;
    size_t per = 16 / eb;
    for (int which = 0; which < 3; which++) {
      const U &a = which == 0 ? s->u : which == 1 ? s->v : s->w;
      for (size_t i = 0; i + per <= a.size(); i++) {
        unsigned char buf[16];
        for (size_t j = 0; j < per; j++) memcpy(buf + j * eb, &a[i + j], eb);
        std::pair<uint64_t, uint64_t> k;
        memcpy(&k.first, buf, 8), memcpy(&k.second, buf + 8, 8);
        want.emplace(k, std::string(which == 0 ? "u" : which == 1 ? "v" : "w") + "[" + std::to_string(i) + "] of \"" + s->Str() + "\"");
      }
    }
  }
  for (int p = 0; p < 2; p++)
    for (auto &m : net.sent(p))
      for (size_t i = 0; i + 16 <= m.bytes.size(); i++) {
        std::pair<uint64_t, uint64_t> k;
        memcpy(&k.first, m.bytes.data() + i, 8), memcpy(&k.second, m.bytes.data() + i + 8, 8);
        if (k.first == 0 || k.second == 0) continue;
        auto it = want.find(k);
        if (it != want.end()) throw Failure{"a message contains " + it->second};
      }
}
struct Sess {
  std::unique_ptr<Session> s;
  std::unique_ptr<Env> env;
  History h;
};
void FreshHistory(Ctx &c) {
  int sessions = c.Chance(1, 4) ? 2 : 1;
#ifdef VERIF_TINY
  int64_t max_batch = c.Chance(1, 4) ? 2900 : 500, limit = 5000;
#else
  int64_t max_batch = 2400, limit = 9000;
#endif
  bool transcript = c.Chance(1, 4);
  // All instances have the same type, so that their outputs can be compared.
  double ss = 40;
  TypeSpec t = DrawTypeOf(c, c.Pick(AllOps()), VoleBits(ss, kMaxOutput));
  while (Bits(t.ring) < 8) t = MakeType(t.ops, (t.modulus << 7) + 1);
  std::vector<Sess> all(sessions);
  int64_t total = 0, steps = 0;
  for (int k = 0; k < sessions; k++) {
    Opts o = DrawOpts(c, k == 0);
    // Sources of the two sessions have to differ for each party.
    o.tape[0] = o.tape[0] * 4 + 2 * k, o.tape[1] = o.tape[1] * 4 + 2 * k + 1;
    o.ss = ss;
    o.record = transcript;
    all[k].s = std::make_unique<Session>(o);
    all[k].env = std::make_unique<Env>(all[k].s.get());
    int slots = c.Chance(3, 4) ? 1 : 2;
    std::vector<VoleGen> g(slots);
    for (int i = 0; i < slots; i++) g[i].slot = i, g[i].flip = c.Bool(), g[i].t = t, g[i].ss = ss, g[i].max_batch = max_batch;
    int n = static_cast<int>(c.Range(1, 8));
    for (int i = 0; i < n && total < limit; i++) {
      VoleGen &q = g[c.Choice(slots - 1)];
      std::unique_ptr<VoleStep> p;
      if (q.pre ? c.Chance(1, 4) : c.Chance(1, 2)) {
        p = q.Precompute(c, q.DrawBatchSize(c));
      } else {
        p = q.DrawRun(c, limit - total);
        total += p->n + 1;
        steps += p->n > 0;
      }
      all[k].h.push_back(std::move(p));
    }
  }
  c.NonTrivial(steps > 1);
  Windows u, v, w, uv, d;
  for (int k = 0; k < sessions; k++) {
    History &h = all[k].h;
    RunHistory(c, *all[k].env, h);
    if (transcript) CheckTranscript(all[k].s->net(), h);
    std::string pre = "session " + std::to_string(k) + " ";
    std::map<std::pair<int, bool>, std::pair<U, U>> last;  // seeds
    for (size_t i = 0; i < h.size(); i++) {
      auto *s = static_cast<VoleStep *>(h[i].get());
      std::string where = pre + "step " + std::to_string(i) + " (" + s->Str() + ")";
      if (!s->pre) {
        u.Add(t.ring, "u", s->u, nullptr, where);
        v.Add(t.ring, "v", s->v, nullptr, where);
        w.Add(t.ring, "w", s->w, nullptr, where);
        uv.Add(t.ring, "(u,v)", s->u, &s->v, where);
      }
      // Seeds: whenever they change, the new ones are new; none was or will be
      // handed out.
      if (s->have_after) {
        auto &l = last[{s->slot, s->flip}];
        if (s->after.vole_u != l.first) {
          u.Add(t.ring, "u", s->after.vole_u, nullptr, where + " expansion seed");
          v.Add(t.ring, "v", s->after.vole_v, nullptr, where + " expansion seed");
          l.first = s->after.vole_u;
        }
        if (s->after.mpfss_u != l.second) {
          u.Add(t.ring, "u", s->after.mpfss_u, nullptr, where + " mask seed");
          v.Add(t.ring, "v", s->after.mpfss_v, nullptr, where + " mask seed");
          l.second = s->after.mpfss_u;
        }
      }
    }
  }
}
#ifdef VERIF_TINY
// Many expansions of one pair of instances: stretches of the outputs are all
// different from each other, and so are the seeds.
void FreshRuns(Ctx &c) {
  // Fields: where factors divide zero, so small a code forgets its seeds, and
  // outputs between the noise repeat.
  const Ops *ops = c.Bool() ? GetOps(sc::kGf) : GetOps(sc::kzzp);
  TypeSpec t = MakeType(ops, ops->modular ? 1152921504606846883ull : 0);
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.flip = c.Bool();
  History h;
  int64_t batch = c.Range(1, 60);
  h.push_back(g.Precompute(c, batch));
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) h.push_back(g.RunOf(batch));
  c.NonTrivial();
  RunHistory(c, env, h);
  Windows u, v, w, uv;
  U last[2];
  for (size_t i = 0; i < h.size(); i++) {
    auto *q = static_cast<VoleStep *>(h[i].get());
    std::string where = "step " + std::to_string(i) + " (" + q->Str() + ")";
    if (!q->pre) u.Add(t.ring, "u", q->u, nullptr, where), v.Add(t.ring, "v", q->v, nullptr, where), w.Add(t.ring, "w", q->w, nullptr, where), uv.Add(t.ring, "(u,v)", q->u, &q->v, where);
    if (!q->have_after) continue;
    if (q->after.vole_u != last[0]) {
      u.Add(t.ring, "u", q->after.vole_u, nullptr, where + " expansion seed");
      v.Add(t.ring, "v", q->after.vole_v, nullptr, where + " expansion seed");
    }
    if (q->after.mpfss_u != last[1]) {
      u.Add(t.ring, "u", q->after.mpfss_u, nullptr, where + " mask seed");
      v.Add(t.ring, "v", q->after.mpfss_v, nullptr, where + " mask seed");
    }
    last[0] = q->after.vole_u, last[1] = q->after.mpfss_u;
  }
}
#endif
// Generated deltas.
void Deltas(Ctx &c) {
  double ss = 40;
  TypeSpec t = DrawTypeOf(c, c.Pick(AllOps()), VoleBits(ss, kMaxOutput));
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.max_batch = 60, g.flip = c.Bool();
  History h;
  int n = static_cast<int>(c.Range(1, 4));
  int64_t batch = c.Range(1, 60);
  for (int i = 0; i < n; i++) {
    if (i || c.Bool()) {
      if (c.Bool()) batch = c.Range(1, 60);
      auto p = g.Precompute(c, batch);
      p->explicit_delta = c.Chance(1, 6);
      h.push_back(std::move(p));
    }
    h.push_back(g.RunOf(c.Range(1, 5)));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
  bool given = false, first = true, again = false;
  std::map<u128, std::string> seen;
  u128 prev = 0, before = 0;  // the last generated, and the last of all
  Rng b = c.Bulk();
  for (auto &p : h) {
    auto *q = static_cast<VoleStep *>(p.get());
    if (q->pre) given = q->explicit_delta;
    if (q->pre) continue;
    if (given) {
      before = q->delta, again = true;
      continue;
    }
    uni::Add(c, std::string("delta.") + t.ops->name, q->delta, t.ring, &b);
    if (again) uni::Add(c, std::string("delta.minus.last.") + t.ops->name, t.ring.Sub(q->delta, before), t.ring, &b);
    before = q->delta, again = true;
    if (!first) uni::Add(c, std::string("delta.difference.") + t.ops->name, t.ring.Sub(q->delta, prev), t.ring, &b);
    for (size_t i = 0; i < q->u.size() && i < 1; i++)
      if (Bits(t.ring) > 50) uni::Add(c, std::string("delta.minus.u.") + t.ops->name, t.ring.Sub(q->delta, q->u[i]), t.ring, &b);
    if (Bits(t.ring) >= 100) {
      auto ins = seen.emplace(q->delta, q->Str());
      if (!ins.second) throw Failure{"the same delta was generated twice: " + Dec(q->delta)};
      for (auto &e : h) {
        auto *r = static_cast<VoleStep *>(e.get());
        for (auto x : r->u) PBT_REQUIRE(c, x != q->delta, "delta is one of the sender's outputs");
      }
    }
    prev = q->delta, first = false;
  }
}
void AddVole(Ctx &c, const char *prefix, const TypeSpec &t, const std::vector<const VoleStep *> &runs, int64_t batch, Rng *b) {
  const Ring &r = t.ring;
  std::string ty = std::string(prefix) + t.ops->name;
  U u, v, w;
  for (auto *s : runs) {
    u.insert(u.end(), s->u.begin(), s->u.end());
    v.insert(v.end(), s->v.begin(), s->v.end());
    w.insert(w.end(), s->w.begin(), s->w.end());
  }
  if (u.empty()) return;
  for (int k = 0; k < 3; k++) {
    size_t i = b->Upto(u.size() - 1);
    uni::Add(c, "u." + ty, u[i], r, b);
    uni::Add(c, "v." + ty, v[i], r, b);
    uni::Add(c, "w." + ty, w[i], r, b);
    uni::Add(c, "u-v." + ty, r.Sub(u[i], v[i]), r, b);
    if (!r.gf) uni::Add(c, "u+v." + ty, r.Add(u[i], v[i]), r, b);
    if (i) {
      uni::Add(c, "u.neighbours." + ty, r.Sub(u[i], u[i - 1]), r, b);
      uni::Add(c, "v.neighbours." + ty, r.Sub(v[i], v[i - 1]), r, b);
      uni::Add(c, "w.neighbours." + ty, r.Sub(w[i], w[i - 1]), r, b);
    }
    if (static_cast<int64_t>(i) >= batch) {
      uni::Add(c, "u.expansions." + ty, r.Sub(u[i], u[i - batch]), r, b);
      uni::Add(c, "v.expansions." + ty, r.Sub(v[i], v[i - batch]), r, b);
      if (!r.gf) uni::Add(c, "v.expansions.sum." + ty, r.Add(v[i], v[i - batch]), r, b);
    }
  }
  u128 su = 0, sv = 0;
  for (size_t i = 0; i < u.size(); i++) su = r.Add(su, u[i]), sv = r.Add(sv, v[i]);
  uni::Add(c, "u.sum." + ty, su, r, b);
  uni::Add(c, "v.sum." + ty, sv, r, b);
}
void Uniform(Ctx &c) {
  double ss = 40;
  Rng b = c.Bulk();
  const Ops *ops = c.Pick(AllOps());
#ifdef VERIF_TINY
  // With so small a code only fields give uniform columns.
  ops = c.Bool() ? GetOps(sc::kGf) : GetOps(sc::kzzp);
  static const uint64_t primes[] = {1152921504606846883ull, 65537, 4294967291ull, 257};
  TypeSpec t = MakeType(ops, ops->modular ? primes[c.Choice(3)] : 0);
#else
  TypeSpec t = DrawTypeOf(c, ops, VoleBits(ss, kMaxOutput));
#endif
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.flip = c.Bool();
  History h;
  int64_t batch = c.Range(1, 60);
  int n = static_cast<int>(c.Range(1, 3));
  h.push_back(g.Precompute(c, batch));
  if (c.Bool()) static_cast<VoleStep *>(h[0].get())->explicit_delta = true, static_cast<VoleStep *>(h[0].get())->delta_in = c.Choice(1);
  for (int i = 0; i < n; i++) h.push_back(g.RunOf(c.Range(1, batch + 1)));
  c.NonTrivial();
  RunHistory(c, env, h);
  std::vector<const VoleStep *> runs;
  for (auto &p : h)
    if (!static_cast<VoleStep *>(p.get())->pre) runs.push_back(static_cast<VoleStep *>(p.get()));
  AddVole(c, "", t, runs, batch, &b);
  // With another precomputation everything is new.
  if (c.Bool()) {
    History h2;
    h2.push_back(g.Precompute(c, batch));
    h2.push_back(g.RunOf(1 + c.Choice(batch - 1)));
    RunHistory(c, env, h2);
    auto *q = static_cast<VoleStep *>(h2[1].get());
    for (size_t i = 0; i < q->u.size() && i < runs[0]->u.size() && i < 3; i++) {
      uni::Add(c, std::string("u.precomputations.") + t.ops->name, t.ring.Sub(q->u[i], runs[0]->u[i]), t.ring, &b);
      uni::Add(c, std::string("v.precomputations.") + t.ops->name, t.ring.Sub(q->v[i], runs[0]->v[i]), t.ring, &b);
    }
  }
}
#ifdef VERIF_TINY
// The noise that is added to every expansion, seen through linear algebra: one
// code, many expansions.
void Noise(Ctx &c) {
  const Ops *ops = c.Chance(2, 3) ? GetOps(sc::kzzp) : GetOps(sc::kGf);
  TypeSpec t = MakeType(ops, ops->modular ? 1152921504606846883ull : 0);
  const Ring &r = t.ring;
  Opts o = DrawOpts(c, true);
  int level = static_cast<int>(c.Choice(r.gf ? 1 : 2));
  int64_t full = VP::output_size[level] - VP::seed_size[level] - GuessBuckets(VP::num_noise_indices[level], o.ss);
  // The smallest batch that needs this level, or more.
  int64_t low = level == 0 ? 1 : VP::output_size[level - 1] - VP::seed_size[level - 1] - GuessBuckets(VP::num_noise_indices[level - 1], o.ss) + 1;
  low = std::max<int64_t>(low, full / 2);
  int64_t batch = c.Range(low, full);
  int k = VP::seed_size[level], noise = VP::num_noise_indices[level];
  int rows = 2 * k + noise + 14;
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.flip = c.Bool();
  History h;
  h.push_back(g.Precompute(c, batch));
  // Also expansions late in the life of the instances.
  int skip = c.Chance(1, 8) ? static_cast<int>(c.Range(60, 260)) : 0;
  for (int i = 0; i < skip + rows; i++) h.push_back(g.RunOf(batch));
  c.NonTrivial();
  RunHistory(c, env, h);
  h.erase(h.begin() + 1, h.begin() + 1 + skip);
  std::vector<linalg::Row> u, v, seeds;
  bool have = true;
  for (auto &p : h) {
    auto *q = static_cast<VoleStep *>(p.get());
    if (q->pre) continue;
    u.push_back(q->u), v.push_back(q->v);
    seeds.push_back(q->before.vole_u);
    have = have && q->have_before && q->have_after;
  }
  // Without noise the rank is at most k, with noise in fixed positions at most
  // k + noise.
  int limit = std::min<int>(rows, static_cast<int>(batch)) - 6;
  if (limit > k + noise) {
    int ru = linalg::Rank(r, u);
    PBT_REQUIRE(c, ru >= limit, "the sender's outputs u of " << rows << " expansions span only " << ru << " dimensions (seed size " << k << ", " << noise << " noise positions)");
    int rv = linalg::Rank(r, v);
    PBT_REQUIRE(c, rv >= limit, "the sender's outputs v of " << rows << " expansions span only " << rv << " dimensions");
    c.Count("rank");
  }
  // Decode the noise: for most expansions, column j is seed * g_j.
  if (!have) return;
  for (size_t i = 0; i < seeds.size(); i++) {
    if (static_cast<int>(seeds[i].size()) != k) {
      c.Count("other level");
      return;
    }
    auto *q = static_cast<VoleStep *>(h[i + 1].get());
    u[i].insert(u[i].end(), q->after.mpfss_u.begin(), q->after.mpfss_u.end());
    u[i].insert(u[i].end(), q->after.vole_u.begin(), q->after.vole_u.end());
  }
  size_t cols = u[0].size();
  for (auto &x : u)
    if (x.size() != cols) return;
  PBT_REQUIRE(c, static_cast<int64_t>(cols) <= VP::output_size[level],
              "an expansion to " << cols << " elements uses a seed of " << k << ", which is meant for at most " << VP::output_size[level]);
  Rng b = c.Bulk();
  std::vector<bool> done(cols, false);
  std::vector<linalg::Row> gj(cols);
  size_t left = cols;
  bool usable = false;
  int degenerate = 0;
  for (int tries = 0; tries < 200 && left; tries++) {
    std::vector<int> pick(rows);
    std::iota(pick.begin(), pick.end(), 0);
    for (int i = 0; i < rows; i++) std::swap(pick[i], pick[i + b.Upto(rows - 1 - i)]);
    std::vector<linalg::Row> sr, inv;
    for (int i = 0; i < k; i++) sr.push_back(seeds[pick[i]]);
    if (!linalg::Inverse(r, sr, &inv)) continue;
    // Each seed comes from the one before, and where the code is singular some
    // direction of the seeds occurs only once: it cannot be told from noise.
    bool spread = true;
    for (int q = 0; q < k && spread; q++) {
      int nonzero = 0;
      for (int i = k; i < rows; i++) {
        u128 e = 0;
        for (int z = 0; z < k; z++) e = r.Add(e, r.Mul(seeds[pick[i]][z], inv[z][q]));
        nonzero += e != 0;
      }
      spread = nonzero * 10 >= (rows - k) * 5;
    }
    if (!spread) {
      if (++degenerate > 20 && !usable) {
        c.Count("degenerate code");
        return;
      }
      continue;
    }
    usable = true;
    for (size_t j = 0; j < cols; j++) {
      if (done[j]) continue;
      linalg::Row gc(k, 0);
      for (int i = 0; i < k; i++)
        for (int q = 0; q < k; q++) gc[i] = r.Add(gc[i], r.Mul(inv[i][q], u[pick[q]][j]));
      int match = 0;
      for (int i = k; i < rows; i++) {
        u128 e = 0;
        for (int q = 0; q < k; q++) e = r.Add(e, r.Mul(seeds[pick[i]][q], gc[q]));
        match += e == u[pick[i]][j];
        if (i == k + 4 && match == 0) break;
      }
      if (match * 10 < (rows - k) * 7) continue;  // noise in the chosen expansions
      gj[j] = gc, done[j] = true, left--;
    }
  }
  if (left || !usable) {
    c.Count("undecoded");
    return;
  }
  c.Count("decoded");
  // The code itself: every column combines as many random rows as intended (or
  // more), with random factors.
  double support = 0, expect = k * (1 - std::pow(1 - 1.0 / k, VP::kCodeGeneratorNonzeros));
  std::map<linalg::Row, size_t> columns;
  for (size_t j = 0; j < cols; j++) {
    int n = 0;
    for (int q = 0; q < k; q++) {
      if (gj[j][q] == 0) continue;
      n++;
      uni::Add(c, std::string("code.factor.") + t.ops->name, gj[j][q], r, &b);
      uni::Add(c, "code.row." + std::to_string(k), static_cast<u128>(q), Ring{static_cast<u128>(k), false}, &b);
    }
    support += n;
    PBT_REQUIRE(c, n > 0, "output " << j << " of an expansion does not depend on the seed");
    auto ins = columns.emplace(gj[j], j);
    PBT_REQUIRE(c, ins.second, "outputs " << ins.first->second << " and " << j << " of an expansion are the same combination of seed elements");
  }
  support /= static_cast<double>(cols);
  PBT_REQUIRE(c, support > expect - 6 * std::sqrt(VP::kCodeGeneratorNonzeros / 4.0 / static_cast<double>(cols)),
              "outputs combine only " << support << " seed elements on average, " << VP::kCodeGeneratorNonzeros << " independent choices of " << k << " give " << expect);
  std::map<u128, int> values;
  std::set<std::vector<int64_t>> patterns;
  for (int i = 0; i < rows; i++) {
    std::vector<int64_t> pos;
    for (size_t j = 0; j < cols; j++) {
      u128 e = 0;
      for (int q = 0; q < k; q++) e = r.Add(e, r.Mul(seeds[i][q], gj[j][q]));
      u128 mu = r.Sub(u[i][j], e);
      if (mu == 0) continue;
      pos.push_back(static_cast<int64_t>(j));
      uni::Add(c, std::string("noise.value.") + t.ops->name, mu, r, &b);
      PBT_REQUIRE(c, values[mu]++ == 0, "the same noise value occurs twice: " << Dec(mu));
      uni::Add(c, "noise.position", static_cast<u128>(j), Ring{static_cast<u128>(cols), false}, &b);
    }
    PBT_REQUIRE(c, static_cast<int>(pos.size()) >= noise, "expansion " << i << " has noise in only " << pos.size() << " of its " << cols << " positions instead of " << noise);
    PBT_REQUIRE(c, patterns.insert(pos).second, "two expansions have the same noise positions");
    // The ends of the range and of its parts, which the bins cannot resolve.
    double share = static_cast<double>(pos.size()) / static_cast<double>(cols);
    auto hit = [&](const char *what, int64_t j) { uni::Event(c, std::string("noise at the ") + what, std::binary_search(pos.begin(), pos.end(), j), share); };
    hit("first output", 0);
    hit("second output", 1);
    hit("last output of the batch", batch - 1);
    hit("first output after the batch", batch);
    hit("last but one output", static_cast<int64_t>(cols) - 2);
    hit("last output", static_cast<int64_t>(cols) - 1);
  }
}
// Every expansion must use parameters that are rated for its size, also for
// batch sizes beyond what can be produced at once.
void Rated(Ctx &c) {
  TypeSpec t = DrawTypeOf(c, c.Pick(AllOps()), VoleBits(40, kMaxOutput));
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.flip = c.Bool(), g.max_batch = 3500;
  History h;
  int64_t b = g.DrawBatchSize(c);
  if (c.Chance(1, 4)) b = c.Bool() ? INT64_MAX - c.Range(0, 5000) : static_cast<int64_t>(c.U64() >> 1);
  if (b < 1) b = 1;
  h.push_back(g.Precompute(c, b));
  int64_t n = g.ClampBatch(b);
  h.push_back(g.RunOf(n));
  h.push_back(g.RunOf(n));
  c.NonTrivial();
  RunHistory(c, env, h);
  for (size_t i = 1; i < h.size(); i++) {
    auto *q = static_cast<VoleStep *>(h[i].get());
    if (!q->have_before || q->before.vole_u == q->after.vole_u) continue;
    for (size_t l = 0; l < VP::seed_size.size(); l++) {
      if (VP::seed_size[l] != static_cast<int>(q->before.vole_u.size())) continue;
      int64_t total = n + static_cast<int64_t>(q->after.vole_u.size() + q->after.mpfss_u.size());
      c.Count("judged");
      PBT_REQUIRE(c, total <= VP::output_size[l], "with batch size " << b << ", an expansion to " << total << " elements uses a seed of " << VP::seed_size[l]
                                                                       << ", which is meant for at most " << VP::output_size[l]);
    }
  }
}
#endif
#ifndef VERIF_TINY
// Strength of every parameter set: guessing as many noise-free outputs as there
// are seed elements succeeds with probability below 2^-50, and the seeds of the
// next set fit into an expansion with this one.
void Parameters(Ctx &c) {
  size_t l = c.Index(VP::output_size.size());
  c.NonTrivial();
  PBT_REQUIRE(c, VP::seed_size.size() == VP::output_size.size() && VP::num_noise_indices.size() == VP::output_size.size(), "the parameter lists have different lengths");
  int n = VP::output_size[l], k = VP::seed_size[l], t = VP::num_noise_indices[l];
  c.Desc() << "output size " << n << " seed size " << k << " noise positions " << t << " nonzeros " << VP::kCodeGeneratorNonzeros;
  PBT_REQUIRE(c, 0 < t && t < n && 0 < k && k < n, "parameters for " << n << " outputs are out of range: seed size " << k << ", " << t << " noise positions");
  double guess = -k * std::log2(1 - static_cast<double>(t) / n);
  PBT_REQUIRE(c, guess >= 50, "for " << n << " outputs, " << k << " noise-free ones are guessed with probability 2^-" << guess);
  PBT_REQUIRE(c, VP::kCodeGeneratorNonzeros >= 8, "each output combines only " << VP::kCodeGeneratorNonzeros << " seed elements");
  for (double ss : {0, 40, 80}) {
    if (l + 1 == VP::output_size.size()) {
      PBT_REQUIRE(c, n > k + GuessBuckets(t, ss), "expansions to " << n << " elements yield no output");
      break;
    }
    int64_t need = VP::seed_size[l + 1] + GuessBuckets(VP::num_noise_indices[l + 1], ss);
    PBT_REQUIRE(c, need <= n, "the next seeds need " << need << " elements, but only expansions to " << n << " are rated");
    PBT_REQUIRE(c, n < VP::output_size[l + 1], "parameter sets are not in ascending order");
  }
}
#endif
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, double sanitized, bool stats) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.sanitized_scale = sanitized;
  if (stats) k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
#ifdef VERIF_TINY
pbt::Register r1(Make("vole_fresh", FreshHistory, 4000, 60000, 0.1, false));
pbt::Register r2(Make("vole_deltas", Deltas, 6000, 60000, 0.1, true));
pbt::Register r3(Make("vole_uniform", Uniform, 8000, 200000, 0.1, true));
pbt::Register r4(Make("vole_noise", Noise, 250, 5000, 0.05, true));
pbt::Register r7(Make("vole_fresh_runs", FreshRuns, 40, 1000, 0.1, false));
pbt::Register r5(Make("vole_rated", Rated, 1500, 20000, 0.1, false));
#else
pbt::Register r6{{"vole_parameters", Parameters, 0, 0, 5}};
pbt::Register r1(Make("vole_real_fresh", FreshHistory, 120, 3000, 0.1, false));
pbt::Register r3(Make("vole_real_uniform", Uniform, 600, 15000, 0.1, true));
#endif
}  // namespace
