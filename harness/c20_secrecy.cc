// C20: messages reveal nothing about the other party's secrets.
#include <unordered_map>

#include "pbt.h"
#include "uniform.h"
#include "vole_steps.h"

using namespace proto;

namespace {
typedef std::vector<verif_net::Sent> Msgs;
Msgs Messages(Session &s, const Step &st, int role) {
  auto &all = s.net().sent(s.Id(role));
  return Msgs(all.begin() + st.sent_lo[role], all.begin() + st.sent_hi[role]);
}
// OT batches of this step in which `role` is the OT sender.
std::vector<verif_net::OtBatch> Batches(Session &s, const Step &st, int role) {
  std::vector<verif_net::OtBatch> r;
  for (size_t i = st.ot_lo[role]; i < st.ot_hi[role]; i++)
    if (s.net().ots()[i].sender == s.Id(role)) r.push_back(s.net().ots()[i]);
  return r;
}

// ---- with everything but one party's secret fixed ---------------------------
struct Pair {
  std::unique_ptr<Step> a, b;
  // Messages of the first-/second-named party must be the same, byte for byte.
  bool exact[2] = {false, false};
  std::string what;
};
std::string HexBytes(const std::string &s, size_t at) {
  std::string r;
  char buf[4];
  for (size_t i = at; i < s.size() && i < at + 16; i++) snprintf(buf, sizeof buf, "%02x", static_cast<unsigned char>(s[i])), r += buf;
  return r;
}
Pair DrawPair(Ctx &c, double ss) {
  Pair p;
  Rng b = c.Bulk();
  auto move = [&](std::vector<int64_t> *idx, const std::vector<int64_t> &sizes) {
    for (size_t i = 0; i < idx->size(); i++) (*idx)[i] = sizes[i] ? static_cast<int64_t>(b.Upto(sizes[i] - 1)) : (*idx)[i];
  };
  switch (c.Choice(6)) {
    case 0: {
      auto x = DrawAbo(c, ss, 300);
      auto y = std::make_unique<AboStep>(*x);
      move(&y->idx, y->sizes);
      p.what = "receiver's indices of a random OT";
      p.exact[0] = p.exact[1] = true;
      p.a = std::move(x), p.b = std::move(y);
      break;
    }
    case 1: {
      auto x = DrawSpfss(c, ss, 300);
      auto y = std::make_unique<SpfssStep>(*x);
      move(&y->idx, y->sizes);
      p.exact[1] = true;
      p.what = "punctured positions of single-point sharing";
      if (c.Bool()) {
        p.what += " and the index holder's value shares";
        y->vb = RandVec(b, y->t.ring, y->vb.size());
      }
      p.a = std::move(x), p.b = std::move(y);
      break;
    }
    case 2: {
      auto x = DrawSpfss(c, ss, 100);
      auto y = std::make_unique<SpfssStep>(*x);
      for (size_t i = 0; i < y->va.size(); i++)
        if (y->sizes[i] == 0) y->va[i] = y->t.ring.Red(b.U128());
      p.exact[0] = true;
      p.what = "value shares of empty vectors";
      p.a = std::move(x), p.b = std::move(y);
      break;
    }
    case 3: {
      auto x = DrawGilboa(c, 40);
      auto y = std::make_unique<GilboaStep>(*x);
      y->x = y->t.ring.Red(c.Chance(1, 3) ? 0 : b.U128());
      p.exact[1] = true;
      p.what = "scalar of a scalar-vector product";
      p.a = std::move(x), p.b = std::move(y);
      break;
    }
    case 4: {
      auto x = DrawGilboa(c, 40);
      auto y = std::make_unique<GilboaStep>(*x);
      y->y = RandVec(b, y->t.ring, y->y.size());
      p.exact[0] = true;
      p.what = "vector of a scalar-vector product";
      p.a = std::move(x), p.b = std::move(y);
      break;
    }
    default: {
      auto x = DrawMpfss(c, ss, 300, 30);
      auto y = std::make_unique<MpfssStep>(*x);
      uint64_t k = c.Choice(2);
      if (k == 0) {
        y->x = y->t.ring.Red(b.U128());
        p.what = "scalar of multi-point sharing";
      } else if (k == 1) {
        y->y = RandVec(b, y->t.ring, y->y.size());
        if (c.Chance(1, 3)) std::fill(y->y.begin(), y->y.end(), 0);
        p.what = "vector of multi-point sharing";
      } else {
        std::vector<int64_t> all(y->size);
        std::iota(all.begin(), all.end(), 0);
        for (size_t i = 0; i < y->idx.size(); i++) std::swap(all[i], all[i + b.Upto(all.size() - 1 - i)]), y->idx[i] = all[i];
        p.what = "indices of multi-point sharing";
      }
      p.a = std::move(x), p.b = std::move(y);
    }
  }
  return p;
}
// The same session twice, from the same sources of randomness.
void Noninterference(Ctx &c) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool(), o.measured = c.Bool(), o.numbers = DrawNumbers(c);
  o.record = true;
  int n = static_cast<int>(c.Range(1, 3));
  std::vector<Pair> ps;
  History h[2];
  for (int i = 0; i < n; i++) {
    ps.push_back(DrawPair(c, o.ss));
    c.Desc() << "changing the " << ps.back().what << "\n";
    h[0].push_back(std::move(ps.back().a)), h[1].push_back(std::move(ps.back().b));
  }
  c.NonTrivial();
  Session s0(o), s1(o);
  Env e0(&s0), e1(&s1);
  RunHistory(c, e0, h[0]);
  RunHistory(c, e1, h[1]);
  for (int i = 0; i < n; i++)
    for (int party = 0; party < 2; party++) {
      Step &a = *h[0][i], &b = *h[1][i];
      int role = party == 0 ? a.First() : a.Second();
      const char *who = party == 0 ? " (first-named party)" : " (second-named party)";
      Msgs m0 = Messages(s0, a, role), m1 = Messages(s1, b, role);
      std::string what = "changing the " + ps[i].what + " in step " + std::to_string(i) + " changes ";
      PBT_REQUIRE(c, m0.size() == m1.size(), what << "the number of messages from " << m0.size() << " to " << m1.size() << who);
      for (size_t m = 0; m < m0.size(); m++) {
        PBT_REQUIRE(c, m0[m].kind == m1[m].kind && m0[m].lane == m1[m].lane && m0[m].bytes.size() == m1[m].bytes.size(),
                    what << "the shape of message " << m << who << ": " << verif_net::KindName(m0[m].kind) << " of " << m0[m].bytes.size() << " bytes, "
                         << verif_net::KindName(m1[m].kind) << " of " << m1[m].bytes.size() << " bytes");
        if (!ps[i].exact[party] || m0[m].bytes == m1[m].bytes) continue;
        size_t at = 0;
        while (m0[m].bytes[at] == m1[m].bytes[at]) at++;
        c.Fail(what + "message " + std::to_string(m) + who + " at byte " + std::to_string(at) + ": " + HexBytes(m0[m].bytes, at) + " / " + HexBytes(m1[m].bytes, at));
      }
      auto b0 = Batches(s0, a, role), b1 = Batches(s1, b, role);
      PBT_REQUIRE(c, b0.size() == b1.size(), what << "the number of OT batches");
      for (size_t k = 0; k < b0.size(); k++)
        PBT_REQUIRE(c, b0[k].m0.size() == b1[k].m0.size() && b0[k].correlated == b1[k].correlated, what << "the size or kind of OT batch " << k);
    }
}
// A change of delta changes no shape of a vector-OLE message.
void VoleShapes(Ctx &c) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool(), o.numbers = DrawNumbers(c);
  o.record = true;
  VoleGen g;
  g.t = DrawTypeOf(c, c.Pick(AllOps()), VoleBits(40, 3000));
  c.Assume(g.t.ops->vole_create != nullptr);
  g.max_batch = 300, g.flip = c.Bool();
  History h[2];
  auto pre = g.Precompute(c, g.DrawBatchSize(c));
  pre->explicit_delta = true;
  pre->delta_in = sc::DrawElement(c, g.t.ring);
  auto run = g.DrawRun(c, 400);
  u128 other = g.t.ring.Red(c.Bulk().U128());
  for (int k = 0; k < 2; k++) {
    h[k].push_back(std::make_unique<VoleStep>(*pre));
    h[k].push_back(std::make_unique<VoleStep>(*run));
    if (k) static_cast<VoleStep *>(h[k][0].get())->delta_in = other;
  }
  c.NonTrivial();
  Session s0(o), s1(o);
  Env e0(&s0), e1(&s1);
  RunHistory(c, e0, h[0]);
  RunHistory(c, e1, h[1]);
  for (int i = 0; i < 2; i++)
    for (int role = 0; role < 2; role++) {
      Msgs m0 = Messages(s0, *h[0][i], role), m1 = Messages(s1, *h[1][i], role);
      PBT_REQUIRE(c, m0.size() == m1.size(), "changing delta changes the number of messages");
      for (size_t m = 0; m < m0.size(); m++)
        PBT_REQUIRE(c, m0[m].kind == m1[m].kind && m0[m].bytes.size() == m1[m].bytes.size(), "changing delta changes the shape of message " << m << " of role " << role);
      auto b0 = Batches(s0, *h[0][i], role), b1 = Batches(s1, *h[1][i], role);
      PBT_REQUIRE(c, b0.size() == b1.size(), "changing delta changes the number of OT batches");
      for (size_t k = 0; k < b0.size(); k++) PBT_REQUIRE(c, b0[k].m0.size() == b1[k].m0.size(), "changing delta changes the size of OT batch " << k);
    }
}

// ---- masks are fresh ---------------------------------------------------------
// No 16 bytes occur twice in what is sent or comes out of the OTs.
struct Pieces {
  struct H {
    size_t operator()(const std::pair<uint64_t, uint64_t> &p) const { return p.first * 0x9E3779B97F4A7C15ull ^ (p.second >> 3); }
  };
  std::unordered_map<std::pair<uint64_t, uint64_t>, std::pair<std::string, size_t>, H> seen;
  void Add(const std::string &bytes, const std::string &where, size_t step) {
    for (size_t i = 0; i + 16 <= bytes.size(); i += step) {
      bool have[256] = {};
      int distinct = 0;
      for (int j = 0; j < 16; j++) {
        bool &f = have[static_cast<unsigned char>(bytes[i + j])];
        distinct += !f;
        f = true;
      }
      if (distinct < 12) continue;  // headers and other structure
      std::pair<uint64_t, uint64_t> k;
      memcpy(&k.first, bytes.data() + i, 8), memcpy(&k.second, bytes.data() + i + 8, 8);
      auto ins = seen.emplace(k, std::make_pair(where, i));
      if (!ins.second)
        throw Failure{"the bytes " + HexBytes(bytes, i) + " at offset " + std::to_string(i) + " of " + where + " also occur at offset " +
                      std::to_string(ins.first->second.second) + " of " + ins.first->second.first};
    }
  }
};
std::unique_ptr<Step> DrawSome(Ctx &c, double ss, VoleGen *g) {
  switch (c.Choice(g->t.ops ? 5 : 3)) {
    case 0: return DrawAbo(c, ss, 100);
    case 1: return DrawSpfss(c, ss, 100);
    case 2: return DrawMpfss(c, ss, 200, 20);
    case 3: return DrawGilboa(c, 40);
    default:
      if (c.Chance(1, 4)) return g->Precompute(c, g->DrawBatchSize(c));
      return g->DrawRun(c, 700);
  }
}
void Freshness(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.record = true;
  Session s(o);
  Env env(&s);
  VoleGen g;
  const Ops *ops = c.Pick(AllOps());
  if (ops->vole_create) g.t = DrawTypeOf(c, ops, VoleBits(o.ss, 3000));
  else g.t.ops = nullptr;
  g.max_batch = 300, g.flip = c.Bool();
  History h;
  int n = static_cast<int>(c.Range(2, 7));
  uint64_t same = c.Choice(2);
  for (int i = 0; i < n; i++) {
    // Runs with the same inputs have to look different.
    if (i && same && h.back()->t.ops) {
      auto *p = h.back().get();
      if (auto *q = dynamic_cast<SpfssStep *>(p)) h.push_back(std::make_unique<SpfssStep>(*q));
      else if (auto *q = dynamic_cast<GilboaStep *>(p)) h.push_back(std::make_unique<GilboaStep>(*q));
      else if (auto *q = dynamic_cast<AboStep *>(p)) h.push_back(std::make_unique<AboStep>(*q));
      else h.push_back(DrawSome(c, o.ss, &g));
    } else {
      h.push_back(DrawSome(c, o.ss, &g));
    }
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Pieces pieces;
  for (size_t i = 0; i < h.size(); i++)
    for (int role = 0; role < 2; role++) {
      std::string where = "step " + std::to_string(i) + " (" + h[i]->Str() + "), role " + std::to_string(role);
      Msgs m = Messages(s, *h[i], role);
      for (size_t k = 0; k < m.size(); k++) pieces.Add(m[k].bytes, "message " + std::to_string(k) + " of " + where, 1);
      auto b = Batches(s, *h[i], role);
      for (size_t k = 0; k < b.size(); k++) {
        std::string got;
        for (size_t q = 0; q < b[k].m0.size(); q++) {
          u128 v = b[k].choices[q] ? b[k].m1[q] : b[k].m0[q];
          got.append(reinterpret_cast<const char *>(&v), 16);
        }
        pieces.Add(got, "what the OT gives in " + where, 16);
      }
    }
}

// ---- what is sent is uniform, whatever the secrets ----------------------------
const char *Class(const U &v, const Ring &r) {
  bool zero = true, max = true;
  for (auto x : v) zero = zero && x == 0, max = max && x == r.Max();
  return zero ? "0" : max ? "max" : "any";
}
// Values of one message, at some positions.
void AddValues(Ctx &c, const std::string &name, const U &v, const U *prev, const Ring &r, Rng *b) {
  if (v.empty()) return;
  size_t i = b->Upto(v.size() - 1);
  uni::Add(c, name + ".any", v[i], r, b);
  uni::Add(c, name + ".first", v[0], r, b);
  uni::Add(c, name + ".last", v.back(), r, b);
  if (v.size() > 1) {
    size_t j = i ? i - 1 : 1;
    uni::Add(c, name + ".neighbours", r.Sub(v[i], v[j]), r, b);
    if (!r.gf) uni::Add(c, name + ".neighbours.sum", r.Add(v[i], v[j]), r, b);
  }
  if (prev && prev->size() == v.size()) {
    uni::Add(c, name + ".runs", r.Sub(v[i], (*prev)[i]), r, b);
    if (!r.gf) uni::Add(c, name + ".runs.sum", r.Add(v[i], (*prev)[i]), r, b);
  }
}
U DrawClassed(Ctx &c, const Ring &r, size_t n) {
  switch (c.Choice(2)) {
    case 0: return U(n, 0);
    case 1: return U(n, r.Max());
    default: return DrawVec(c, r, n);
  }
}
void Masks(Ctx &c) {
  Opts o = DrawOpts(c, false);
  o.record = true;
  Session s(o);
  Env env(&s);
  const Ops *ops = c.Pick(AllOps());
  Rng b = c.Bulk();
  uint64_t kind = c.Choice(2);
  History h;
  int runs = static_cast<int>(c.Range(2, 3));
  size_t n = static_cast<size_t>(c.Range(1, 5));
  TypeSpec t = kind == 2 ? DrawTypeOf(c, ops) : DrawTypeOf(c, ops, o.ss + 12);
  const Ring &r = t.ring;
  int64_t size = 400 + c.Range(0, 200);
  for (int i = 0; i < runs; i++) {
    if (kind == 0) {
      auto p = std::make_unique<SpfssStep>();
      p->t = t;
      for (size_t k = 0; k < n; k++) p->sizes.push_back(1 + c.Range(0, 4)), p->idx.push_back(DrawIndex(c, p->sizes.back()));
      p->va = DrawClassed(c, r, n), p->vb = DrawClassed(c, r, n);
      h.push_back(std::move(p));
    } else if (kind == 1) {
      auto p = std::make_unique<MpfssStep>();
      p->t = t;
      p->size = size;
      p->idx = DrawIndices(c, static_cast<int64_t>(n), size);
      p->y = DrawClassed(c, r, n);
      p->x = DrawClassed(c, r, 1)[0];
      p->corr = c.Choice(UINT64_MAX);
      h.push_back(std::move(p));
    } else {
      auto p = std::make_unique<GilboaStep>();
      p->t = t;
      p->x = DrawClassed(c, r, 1)[0];
      p->y = DrawClassed(c, r, n);
      h.push_back(std::move(p));
    }
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  t.Install();
  std::map<std::string, U> prev;
  for (auto &p : h) {
    std::string ty = t.ops->name;
    for (int party = 0; party < 2; party++) {
      int role = party == 0 ? p->First() : p->Second();
      std::string base;
      if (auto *q = dynamic_cast<SpfssStep *>(p.get())) base = "spfss.share." + std::string(Class(q->va, r)) + "." + Class(q->vb, r);
      if (auto *q = dynamic_cast<MpfssStep *>(p.get())) base = "mpfss.x." + std::string(Class({q->x}, r)) + ".y." + Class(q->y, r);
      if (auto *q = dynamic_cast<GilboaStep *>(p.get())) base = "gilboa.x." + std::string(Class({q->x}, r)) + ".y." + Class(q->y, r);
      base += ".p" + std::to_string(party) + "." + ty;
      Msgs m = Messages(s, *p, role);
      size_t obj = 0;
      for (auto &msg : m) {
        U v;
        if (msg.kind != verif_net::Kind::kObject || !t.ops->decode(msg.bytes, &v)) continue;
        std::string slot = ".m" + std::to_string(obj++), key = std::to_string(party) + slot;
        auto it = prev.find(key);
        AddValues(c, base + slot, v, it == prev.end() ? nullptr : &it->second, r, &b);
        prev[key] = v;
      }
      if (kind == 2) {
        // What the value provider gets from the OTs, as scalars.
        int eb = t.ops->size_of();
        if (eb < 1 || eb > 16) continue;
        int per = 16 / eb;
        for (auto &batch : Batches(s, *p, role)) {
          U v;
          for (size_t q = 0; q < batch.m0.size(); q++) {
            u128 w = batch.choices[q] ? batch.m1[q] : batch.m0[q];
            int k = static_cast<int>(b.Upto(per - 1));
            w >>= 8 * eb * k;
            if (eb < 16) w &= (static_cast<u128>(1) << (8 * eb)) - 1;
            v.push_back(r.Red(w));
          }
          auto it = prev.find("ot");
          AddValues(c, base + ".ot", v, it == prev.end() ? nullptr : &it->second, r, &b);
          prev["ot"] = v;
        }
      }
    }
  }
}
// The same for the vector OLE (fields only: in the miniature code others have
// columns that are not uniform).
void VoleMasks(Ctx &c) {
  Opts o = DrawOpts(c, false);
  o.record = true;
  static const uint64_t primes[] = {1152921504606846883ull, 65537, 4294967291ull, 257};
  TypeSpec t = c.Bool() ? MakeType(GetOps(sc::kGf), 0) : MakeType(GetOps(sc::kzzp), primes[c.Choice(3)]);
  const Ring &r = t.ring;
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = t, g.flip = c.Bool();
  History h;
  uint64_t cls = c.Choice(2);
  int64_t batch = c.Chance(1, 3) ? c.Range(60, 200) : c.Range(1, 60);
  auto pre = g.Precompute(c, batch);
  pre->explicit_delta = cls < 2;
  pre->delta_in = cls == 0 ? 0 : r.Max();
  h.push_back(std::move(pre));
  for (int i = 0; i < 3; i++) h.push_back(g.RunOf(batch));
  c.NonTrivial();
  RunHistory(c, env, h);
  t.Install();
  Rng b = c.Bulk();
  for (int role = 0; role < 2; role++) {
    U prev;
    for (size_t i = 0; i < h.size(); i++) {
      int obj = 0;
      bool sender = role == h[i]->First();
      for (auto &msg : Messages(s, *h[i], role)) {
        U v;
        if (msg.kind != verif_net::Kind::kObject || !t.ops->decode(msg.bytes, &v)) continue;
        // The receiver's corrections are zero for empty buckets.
        if (!sender) v.erase(std::remove(v.begin(), v.end(), u128{0}), v.end());
        if (!sender && r.n && r.n < 60000) continue;
        std::string name = std::string("vole.delta.") + (cls == 0 ? "0" : cls == 1 ? "max" : "any") + (sender ? ".sender" : ".receiver") + (i ? ".run" : ".pre") + std::to_string(std::min(obj++, 3));
        name += std::string(".") + t.ops->name;
        AddValues(c, name, v, &prev, r, &b);
        prev = v;
      }
    }
  }
}
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, bool stats) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  if (stats) k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
pbt::Register r1(Make("secrecy_fixed_randomness", Noninterference, 12000, 200000, false));
pbt::Register r2(Make("secrecy_vole_shapes", VoleShapes, 1000, 20000, false));
pbt::Register r3(Make("secrecy_fresh_masks", Freshness, 5000, 80000, false));
pbt::Register r4(Make("secrecy_masks", Masks, 25000, 500000, true));
pbt::Register r5(Make("secrecy_vole_masks", VoleMasks, 3000, 60000, true));
}  // namespace
