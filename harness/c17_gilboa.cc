// C17: scalar-vector products.
#include <unordered_map>

#include "child.h"
#include "pbt.h"
#include "steps.h"
#include "uniform.h"

using namespace proto;

namespace {
void Stats(Ctx &c, const History &h) {
  Rng b = c.Bulk();
  std::unordered_map<uint64_t, std::string> seen[2];
  for (size_t k = 0; k < h.size(); k++) {
    auto *st = dynamic_cast<GilboaStep *>(h[k].get());
    if (!st || st->y.empty()) continue;
    const Ring &r = st->t.ring;
    std::string ty = st->t.ops->name;
    size_t n = st->y.size(), j = b.Upto(n - 1);
    const char *cx = st->x == 0 ? "x0" : st->x == r.Max() ? "xmax" : "x";
    const char *cy = st->y[j] == 0 ? "y0" : st->y[j] == r.Max() ? "ymax" : "y";
    std::string cls = std::string(cx) + cy + "." + ty;
    uni::Add(c, "vector." + cls, st->a[j], r, &b);
    uni::Add(c, "value." + cls, st->b[j], r, &b);
    uni::Add(c, "vector.last." + ty, st->a[n - 1], r, &b);
    uni::Add(c, "value.last." + ty, st->b[n - 1], r, &b);
    if (n > 1) uni::Add(c, "vector.difference." + ty, r.Sub(st->a[j], st->a[j ? j - 1 : 1]), r, &b);
    if (n > 1) uni::Add(c, "value.difference." + ty, r.Sub(st->b[j], st->b[j ? j - 1 : 1]), r, &b);
    if (r.n != 0 && (r.n >> 100) == 0) continue;
    for (int p = 0; p < 2; p++) {
      const U &o = p ? st->b : st->a;
      for (size_t q = 0; q < o.size(); q++) {
        uint64_t key = static_cast<uint64_t>(o[q]) ^ static_cast<uint64_t>(o[q] >> 64) * 0x9E3779B97F4A7C15ull;
        std::string where = "run " + std::to_string(k) + " position " + std::to_string(q);
        auto ins = seen[p].emplace(key, where);
        if (!ins.second) throw Failure{st->Str() + ": the output at " + where + " equals the one at " + ins.first->second};
      }
    }
  }
}
double DrawSecurity(Ctx &c) {
  static const double ss[] = {40, 0, 10, 60, 100, 200};
  return ss[c.Choice(5)];
}
bool NonTrivialStep(const GilboaStep &st) {
  for (auto v : st.y)
    if (st.x > 1 && v > 0) return true;
  return false;
}
void GilboaHistory(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.ss = DrawSecurity(c);
  Session s(o);
  Env env(&s);
  History h;
  int n = static_cast<int>(c.Range(1, 6));
  bool big = c.Chance(1, 60), nt = false;
  for (int i = 0; i < n; i++) {
    auto p = NextGilboa(c, h, big ? 700 : 40);
    nt = nt || NonTrivialStep(*p);
    h.push_back(std::move(p));
  }
  c.NonTrivial(nt);
  RunHistory(c, env, h);
  Stats(c, h);
}
// Many short runs on one pair of instances.
void GilboaRuns(Ctx &c) {
  Opts o = DrawOpts(c, true);
  o.ss = DrawSecurity(c);
  Session s(o);
  Env env(&s);
  History h;
  bool one = c.Bool();  // one type?
  for (int i = 0, n = DrawManyRuns(c); i < n; i++) {
    auto p = NextGilboa(c, h, 5);
    h.push_back(one ? OfSameType(h, std::move(p)) : std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Every length up to 40 for one type (all positions of a packed message).
constexpr int kLens = 41;
void GilboaLengths(Ctx &c) {
  int64_t len = static_cast<int64_t>(c.Choice(kLens - 1));
  Opts o = DrawOpts(c, false);
  o.ss = DrawSecurity(c);
  Session s(o);
  Env env(&s);
  History h;
  for (auto ops : AllOps()) {
    auto p = std::make_unique<GilboaStep>();
    p->t = DrawTypeOf(c, ops);
    p->x = sc::DrawElement(c, p->t.ring);
    p->y = DrawVec(c, p->t.ring, len);
    p->api[0] = static_cast<int>(c.Choice(1));
    p->api[1] = static_cast<int>(c.Choice(1));
    p->flip = c.Bool();
    p->fill = c.Choice(1000);
    h.push_back(std::move(p));
  }
  c.NonTrivial(len > 0);
  RunHistory(c, env, h);
  Stats(c, h);
}
// Every modulus up to a bound, all values of x.
constexpr int kModuli = 130;
void GilboaModuli(Ctx &c) {
  u128 m = c.Choice(kModuli - 1) + 2;
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  History h;
  for (auto ops : AllOps()) {
    if (!ops->modular) continue;
    for (int k = 0; k < 3; k++) {
      auto p = std::make_unique<GilboaStep>();
      p->t = MakeType(ops, m);
      p->x = c.UpTo128(m - 1);
      for (u128 y = 0; y < m && y < 40; y++) p->y.push_back(k == 1 ? m - 1 - y : y);
      p->fill = c.Choice(1000);
      h.push_back(std::move(p));
    }
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
void GilboaStats(Ctx &c) {
  Opts o = DrawOpts(c, false);
  o.ss = DrawSecurity(c);
  Session s(o);
  Env env(&s);
  History h;
  const Ops *ops = c.Pick(AllOps());
  int n = static_cast<int>(c.Range(1, 6));
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<GilboaStep>();
    p->t = DrawTypeOf(c, ops);
    uint64_t kx = c.Choice(2);
    p->x = kx == 0 ? 0 : kx == 1 ? p->t.ring.Max() : sc::DrawElement(c, p->t.ring);
    int64_t len = c.Range(1, 3);
    for (int64_t j = 0; j < len; j++) {
      uint64_t ky = c.Choice(2);
      p->y.push_back(ky == 0 ? 0 : ky == 1 ? p->t.ring.Max() : sc::DrawElement(c, p->t.ring));
    }
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Long vectors, around the limits of narrow length types.
void GilboaLong(Ctx &c) {
  Opts o = DrawOpts(c, true);
  static const double ss[] = {40, 0, 10};
  o.ss = ss[c.Choice(2)];
  Session s(o);
  Env env(&s);
  History h;
  const Ops *ops = c.Pick(AllOps());
  auto p = std::make_unique<GilboaStep>();
  if (ops->modular && c.Chance(3, 4)) {
    // Just below a number of whole bytes, or a divisor of such a power.
    int bytes = static_cast<int>(c.Range(1, ops->kind == sc::kzzp ? 7 : 12));
    u128 m = (static_cast<u128>(1) << (8 * bytes)) - 1 - static_cast<u128>(c.Choice(60));
    if (c.Chance(1, 4)) m >>= c.Range(1, 7);
    if (m < 2) m = 2;
    p->t = MakeType(ops, m);
  } else {
    p->t = DrawTypeOf(c, ops);
  }
  int64_t len;
  switch (c.Choice(2)) {
    case 0: len = 32768 + c.Range(-20, 20); break;
    case 1: len = 65536 + c.Range(-20, 20); break;
    default: len = c.Range(1000, pbt::Thorough() ? 140000 : 70000);
  }
  if (pbt::Sanitized()) len /= 16;
  p->x = c.Bool() ? p->t.ring.Max() : sc::DrawElement(c, p->t.ring);
  p->y = DrawVec(c, p->t.ring, 40);
  Rng g = c.Bulk();
  for (auto v : RandVec(g, p->t.ring, len - 40)) p->y.push_back(v);
  p->flip = c.Bool();
  p->api[0] = static_cast<int>(c.Choice(1));
  p->api[1] = static_cast<int>(c.Choice(1));
  p->fill = c.Choice(1000);
  h.push_back(std::move(p));
  h.push_back(DrawGilboa(c, 20));
  c.NonTrivial();
  RunHistory(c, env, h);
  Stats(c, h);
}
// Moduli above 16 bytes, mismatched lengths and negative lengths are rejected.
void GilboaRejected(Ctx &c) {
  Opts o = DrawOpts(c, false);
  Session s(o);
  Env env(&s);
  auto after = DrawGilboa(c, 20);
  int role = static_cast<int>(c.Choice(1)), kind = static_cast<int>(c.Choice(4));
  bool warm = c.Bool();
  auto before = DrawGilboa(c, 20);
  NTL::ZZ big;
  const Ops *ops = c.Pick(AllOps());
  if (kind <= 1) {
    ops = GetOps(sc::kZZp);
    c.Assume(ops != nullptr);
    // Just above 2^128, or anything larger.
    int64_t extra = c.Size(1, 600);
    big = c.Bool() ? NTL::power2_ZZ(128) + NTL::to_ZZ(static_cast<long>(extra)) : NTL::power2_ZZ(128 + static_cast<long>(extra)) + NTL::to_ZZ(static_cast<long>(c.Choice(3)));
  }
  TypeSpec t = MakeType(ops, 0);
  if (kind > 1) t = DrawTypeOf(c, ops);
  int64_t n = kind == 0 || kind == 1 ? c.Range(0, 9) : c.Range(1, 9);
  static const char *names[] = {"modulus too long (vector)", "modulus too long (value)", "output longer than y", "output shorter than y", "negative length"};
  c.Label(names[kind]);
  c.Desc() << o.Str() << " " << names[kind] << " " << ops->name << " n=" << n << " role " << role << "\n";
  c.NonTrivial();
  auto call = [&] {
    if (kind <= 1) NTL::ZZ_p::init(big);
    else t.Install();
    auto sends = s.net().NumSends(s.Id(role));
    Res r;
    U y(n, 1), out(kind == 2 ? n + 1 : kind == 3 ? n - 1 : n, 0);
    if (kind == 0 || kind == 2 || kind == 3) r = ops->gil_vec(env.Gil(role), y, out, 0);
    else if (kind == 1) r = ops->gil_val(env.Gil(role), 1, n, out, static_cast<int>(n % 2));
    else r = ops->gil_val(env.Gil(role), 1, n % 2 ? -n : INT64_MIN + n, out, 1);
    if (r.ok) throw Failure{"accepted"};
    if (!r.invalid()) throw Bad("not an invalid-argument error", r);
    if (!r.bad.empty()) throw Bad("rejected, but", r);
    if (s.net().NumSends(s.Id(role)) != sends) throw Failure{"a message was sent although the arguments are invalid"};
  };
  s.Run([&] { if (warm) before->Do(env, 0); else env.Gil(0); }, [&] { if (warm) before->Do(env, 1); else env.Gil(1); });
  s.Run(role == 0 ? std::function<void()>(call) : nullptr, role == 1 ? std::function<void()>(call) : nullptr);
  PBT_REQUIRE(c, s.net().Idle(), "messages are in the channel after a rejected call");
  s.Run([&] { after->Do(env, 0); }, [&] { after->Do(env, 1); });
  PBT_REQUIRE(c, s.net().Idle(), "messages are left in the channel");
  if (warm) before->Verify();
  after->Verify();
}
#ifndef VERIF_NO_CHILD
// Lengths that need more than 2^31 transfers: the call has to ask for the
// memory that this takes (and is not given it), and nothing else. The vectors
// are zeros that take no memory.
template <class T>
int HugeCall(Env &e, bool value, size_t n, child::Space &in, child::Space &out) {
  absl::Span<T> o(static_cast<T *>(out.p), n);
  mpc_utils::Status st = value ? e.Gil(0).RunValueProvider<T>(T(1), o) : e.Gil(0).RunVectorProvider<T>(absl::Span<const T>(static_cast<const T *>(in.p), n), o);
  return st.ok() ? child::kDone : static_cast<int>(st.code()) == 3 ? child::kRejected : child::kOther;
}
void GilboaHuge(Ctx &c) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool();
  bool value = c.Chance(3, 4);
  int type = static_cast<int>(c.Choice(5));
  static const size_t width[] = {1, 2, 4, 8, 16, 16};
  size_t stride = 16 / width[type];
  // 128 / stride transfers for every stride elements.
  int64_t ots = c.Chance(1, 2) ? (int64_t{1} << 31) + c.Range(0, 1 << 20) : (c.Range(1, 3) << 32) + c.Range(0, 1 << 12);
  int64_t blocks = ots / static_cast<int64_t>(8 * width[type]) + 1;
  size_t n = static_cast<size_t>(blocks) * stride - static_cast<size_t>(c.Choice(stride - 1));
  c.Desc() << (value ? "value" : "vector") << " provider, " << n << " elements of " << width[type] << " bytes";
  c.NonTrivial();
  child::Space in(value ? 4096 : n * width[type], true), out(n * width[type], true);
  if (!in.p || !out.p) return;
  int rc = child::kMemory;
  {
    Session s(o);
    Env e(&s);
    s.Run([&] { e.Gil(0); }, [&] { e.Gil(1); });
    s.Run([&] {
      rc = child::Run([&] {
        switch (type) {
          case 0: return HugeCall<uint8_t>(e, value, n, in, out);
          case 1: return HugeCall<uint16_t>(e, value, n, in, out);
          case 2: return HugeCall<uint32_t>(e, value, n, in, out);
          case 3: return HugeCall<uint64_t>(e, value, n, in, out);
          case 4: return HugeCall<absl::uint128>(e, value, n, in, out);
          default: return HugeCall<dv::gf128>(e, value, n, in, out);
        }
      }, 1);
    }, nullptr);
  }
  PBT_REQUIRE(c, rc == child::kMemory || rc == child::kThrew, "a run of valid size: " << child::Show(rc));
}
#endif
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough, int64_t enumerated, bool stats) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  k.enumerated = enumerated;
  if (stats) k.final_fn = [](const std::map<std::string, int64_t> &m) { return uni::Verdict(m); };
  return k;
}
pbt::Register r1(Make("gilboa_history", GilboaHistory, 15000, 300000, 0, true));
pbt::Register r2(Make("gilboa_lengths", GilboaLengths, 200, 8000, kLens, true));
pbt::Register r3(Make("gilboa_moduli", GilboaModuli, 0, 1000, kModuli, true));
pbt::Register r4(Make("gilboa_stats", GilboaStats, 20000, 400000, 0, true));
pbt::Register r8(Make("gilboa_runs", GilboaRuns, 64, 1000, 0, true));
pbt::Register r6(Make("gilboa_long", GilboaLong, 48, 1200, 0, false));
#ifndef VERIF_NO_CHILD
pbt::Register r7(Make("gilboa_huge", GilboaHuge, 100, 1500, 0, false));
#endif
pbt::Register r5(Make("gilboa_rejected", GilboaRejected, 3000, 40000, 0, false));
}  // namespace
