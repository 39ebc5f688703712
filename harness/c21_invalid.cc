// C21: invalid arguments are rejected before anything is sent, and the
// instances work afterwards.
#include <algorithm>

#include "child.h"
#include "pbt.h"
#include "vole_steps.h"

using namespace proto;

namespace {
// Clearly too large for hashing with this many bits of security.
bool ClearlyInadmissible(u128 n, double bits) {
  if (n == 0) return false;
  u128 rem = (~static_cast<u128>(0) % n + 1) % n;
  if (rem == 0) return false;
  return 128 - std::log2(static_cast<double>(rem)) < bits - 0.01;
}

// A call of one party, while the other one does nothing.
struct InvalidStep : Step {
  int who = 0;
  std::string what;
  std::function<void(Env &, int)> setup;
  std::function<Res(Env &, int)> call;
  void Setup(Env &e, int role) override {
    // Instances are created by both parties together.
    if (setup) setup(e, role);
  }
  void Party(Env &e, int role, bool) override {
    if (role != who) return;
    auto sends = e.s->net().NumSends(e.s->Id(role));
    Res r = call(e, role);
    if (r.ok) throw Failure{"accepted: " + Str()};
    if (!r.invalid()) throw Bad("not an invalid-argument error (" + Str() + ")", r);
    if (!r.bad.empty()) throw Bad("rejected, but (" + Str() + ")", r);
    if (e.s->net().NumSends(e.s->Id(role)) != sends) throw Failure{"a message was sent although the arguments are invalid: " + Str()};
  }
  void Verify() override {}
  std::string Str() const override { return "invalid call by role " + std::to_string(who) + ": " + what; }
};
typedef std::unique_ptr<InvalidStep> Inv;

int64_t BadIndex(Ctx &c, int64_t size) {
  switch (c.Choice(6)) {
    case 0: return -1;
    case 1: return size;
    case 2: return size + 1 + c.Range(0, 1000);
    case 3: return -1 - c.Range(1, 1000);
    case 4: return c.Bool() ? INT64_MAX : INT64_MIN;
    case 5: return (int64_t{1} << 32) + c.Range(0, size - 1);   // valid in the low 32 bits
    default: return -(int64_t{1} << 32) + c.Range(0, size - 1);
  }
}
size_t Mismatch(Ctx &c, size_t n) {
  switch (c.Choice(3)) {
    case 0: return n + 1;
    case 1: return n ? n - 1 : 1;
    case 2: return n ? 0 : 2;
    default: return 2 * n + 1;
  }
}
// A type that cannot be hashed into with this security, if there is one.
bool DrawInadmissible(Ctx &c, double bits, TypeSpec *t) {
  const Ops *z = GetOps(sc::kZZp), *s = GetOps(sc::kzzp);
  bool big = c.Bool();
  for (int i = 0; i < 12; i++) {
    u128 m;
    if (big) m = c.Chance(1, 4) ? ~static_cast<u128>(0) - c.Choice(200) : sc::DrawModulus(c, static_cast<u128>(1) << 80, ~static_cast<u128>(0));
    else m = sc::DrawModulus(c, static_cast<u128>(1) << 40, (static_cast<u128>(1) << 60) - 1);
    if (ClearlyInadmissible(m, bits)) {
      *t = MakeType(big ? z : s, m);
      return true;
    }
  }
  return false;
}

Inv AboInvalid(Ctx &c, double ss, const std::vector<double> &) {
  auto a = DrawAbo(c, ss, 60);
  auto p = std::make_unique<InvalidStep>();
  p->setup = [](Env &e, int role) { e.Abo(role); };
  p->t = a->t;
  p->who = a->Second();
  int kind = static_cast<int>(c.Choice(4));
  auto sizes = a->sizes, idx = a->idx;
  uint64_t fill = a->fill;
  auto has = [&] { for (auto n : sizes) if (n > 0) return true; return false; };
  if ((kind == 1 || kind == 2) && !has()) sizes.push_back(5), idx.push_back(2);
  if (kind == 0) {
    size_t k = Mismatch(c, idx.size());
    idx.resize(k, 0);
    p->what = "random OT with " + std::to_string(sizes.size()) + " outputs and " + std::to_string(k) + " indices";
  } else if (kind <= 3) {
    bool single = kind == 3;
    if (single) sizes = {c.Range(1, 60)}, idx = {0};
    size_t at = c.Choice(sizes.size() - 1);
    while (sizes[at] == 0) at = (at + 1) % sizes.size();
    idx[at] = BadIndex(c, sizes[at]);
    p->what = "random OT, entry " + std::to_string(at) + " of " + std::to_string(sizes.size()) + " has size " + std::to_string(sizes[at]) + " and index " + std::to_string(idx[at]) + (single ? " (single)" : "");
    auto t = p->t;
    p->call = [=](Env &e, int role) {
      auto o = Prefilled(sizes, t.ring, fill);
      auto want = o;
      Res r = t.ops->abo_recv(e.Abo(role), idx, o, single);
      if (o != want) r.bad += "outputs were written";
      return r;
    };
    return p;
  } else {
    int64_t total = 0;
    if (!has()) sizes = {30}, idx = {3};
    for (auto n : sizes) total += n;
    TypeSpec t;
    if (!DrawInadmissible(c, ss + std::log2(static_cast<double>(total)), &t)) return nullptr;
    p->t = t;
    p->who = a->First();
    p->what = "random OT sender with " + t.Str() + " and " + std::to_string(total) + " elements";
    p->call = [=](Env &e, int role) {
      auto o = Prefilled(sizes, t.ring, fill);
      return t.ops->abo_send(e.Abo(role), o, false);
    };
    return p;
  }
  auto t = p->t;
  p->call = [=](Env &e, int role) {
    auto o = Prefilled(sizes, t.ring, fill);
    return t.ops->abo_recv(e.Abo(role), idx, o, false);
  };
  return p;
}
Inv SpfssInvalid(Ctx &c, double ss) {
  auto a = DrawSpfss(c, ss, 60);
  auto p = std::make_unique<InvalidStep>();
  p->setup = [](Env &e, int role) { e.Spfss(role); };
  int kind = static_cast<int>(c.Choice(5));
  auto sizes = a->sizes, idx = a->idx;
  auto va = a->va, vb = a->vb;
  uint64_t fill = a->fill;
  p->t = a->t;
  p->who = kind == 0 || kind == 5 ? a->First() : a->Second();
  std::ostringstream os;
  if (kind == 0) {
    va.resize(Mismatch(c, va.size()), 1);
    os << "single-point sharing (values) with " << va.size() << " shares, " << sizes.size() << " outputs";
  } else if (kind == 1) {
    vb.resize(Mismatch(c, vb.size()), 1);
    os << "single-point sharing (indices) with " << vb.size() << " shares, " << idx.size() << " indices, " << sizes.size() << " outputs";
  } else if (kind == 2) {
    idx.resize(Mismatch(c, idx.size()), 0);
    os << "single-point sharing (indices) with " << vb.size() << " shares, " << idx.size() << " indices, " << sizes.size() << " outputs";
  } else if (kind == 3) {
    size_t n = Mismatch(c, sizes.size());
    sizes.resize(n, 3);
    os << "single-point sharing (indices) with " << vb.size() << " shares, " << idx.size() << " indices, " << sizes.size() << " outputs";
  } else if (kind == 4) {
    bool single = c.Bool();
    if (sizes.empty() || single) sizes = {c.Range(1, 60)}, idx = {0}, vb = {1};
    size_t at = c.Choice(sizes.size() - 1);
    if (sizes[at] == 0) sizes[at] = 4;
    idx[at] = BadIndex(c, sizes[at]);
    os << "single-point sharing, entry " << at << " of " << sizes.size() << " has size " << sizes[at] << " and index " << idx[at];
    if (single) {
      int api = 1 + static_cast<int>(c.Choice(1));
      os << " (single, variant " << api << ")";
      auto t = p->t;
      p->what = os.str();
      p->call = [=](Env &e, int role) {
        auto o = Prefilled(sizes, t.ring, fill);
        return t.ops->spfss_index(e.Spfss(role), vb, idx, o, api);
      };
      return p;
    }
  } else {
    int64_t total = 0;
    if (sizes.empty()) sizes = {30}, va = {1};
    for (auto &n : sizes) n += n == 0, total += n;
    TypeSpec t;
    if (!DrawInadmissible(c, ss + std::log2(static_cast<double>(total)), &t)) return nullptr;
    p->t = t;
    for (auto &x : va) x = t.ring.Red(x);
    os << "single-point sharing (values) with " << t.Str() << " and " << total << " elements";
  }
  p->what = os.str();
  auto t = p->t;
  bool value_side = kind == 0 || kind == 5;
  p->call = [=](Env &e, int role) {
    auto o = Prefilled(sizes, t.ring, fill);
    return value_side ? t.ops->spfss_value(e.Spfss(role), va, o, 0) : t.ops->spfss_index(e.Spfss(role), vb, idx, o, 0);
  };
  return p;
}
Inv MpfssInvalid(Ctx &c, double ss) {
  auto a = DrawMpfss(c, ss, 60, 12);
  auto p = std::make_unique<InvalidStep>();
  p->setup = [](Env &e, int role) { e.Mpfss(role); };
  p->t = a->t;
  auto idx = a->idx;
  U y = a->y;
  int64_t size = a->size;
  int kind = static_cast<int>(c.Choice(10));
  int64_t du = 0, dv_ = 0, dw = 0;
  int y_len = static_cast<int>(y.size());
  bool value_side = kind >= 8;
  size_t at = c.Choice(idx.size() - 1);
  std::ostringstream os;
  os << "multi-point sharing of size " << size << ", " << idx.size() << " indices: ";
  switch (kind) {
    case 0:
      if (idx.size() < 2) idx.push_back(idx[0]), y.push_back(1), size++;
      idx[at] = idx[(at + 1 + c.Choice(idx.size() - 2)) % idx.size()];
      os << "repeated index";
      break;
    case 1: case 2:
      idx[at] = BadIndex(c, size);
      os << "index " << idx[at];
      break;
    case 3: y.resize(Mismatch(c, y.size()), 1), os << "y of length " << y.size(); break;
    case 4: idx.resize(Mismatch(c, idx.size()), 0), os << idx.size() << " indices given"; break;
    case 5: size = c.Range(0, static_cast<int64_t>(idx.size()) - 1), os << "output of length " << size; break;
    case 6: y.clear(), idx.clear(), os << "empty y"; break;
    case 7:
      (c.Bool() ? du : dv_) = c.Bool() ? 1 : c.Bool() ? -1 : -1000000;
      os << "u has " << du << ", v " << dv_ << " elements too many";
      break;
    case 8: y_len = 0, os << "y_len 0"; break;
    case 9: y_len = c.Bool() ? -1 : c.Bool() ? INT32_MIN : -static_cast<int>(c.Range(1, 50)), os << "y_len " << y_len; break;
    default: dw = c.Bool() ? 1 : c.Bool() ? -1 : -1000000, os << "w has " << dw << " elements too many"; break;
  }
  p->what = os.str();
  p->who = value_side ? a->First() : a->Second();
  int count = static_cast<int>(a->idx.size());
  u128 x = a->x;
  uint64_t fill = a->fill;
  auto t = p->t;
  p->call = [=](Env &e, int role) {
    auto so = e.Mpfss(role).NumBuckets(count);
    if (!so.ok()) throw Failure{"NumBuckets failed"};
    int64_t nb = so.ValueOrDie();
    auto len = [&](int64_t d) { return static_cast<size_t>(std::max<int64_t>(0, nb + d)); };
    U o = Prefilled({size}, t.ring, fill)[0];
    U u(len(du), 1), v(len(dv_)), w(len(dw));
    return value_side ? t.ops->mpfss_value(e.Mpfss(role), x, y_len, w, o) : t.ops->mpfss_index(e.Mpfss(role), y, idx, u, v, o);
  };
  return p;
}
Inv GilboaInvalid(Ctx &c) {
  auto a = DrawGilboa(c, 20);
  auto p = std::make_unique<InvalidStep>();
  p->setup = [](Env &e, int role) { e.Gil(role); };
  p->t = a->t;
  int kind = static_cast<int>(c.Choice(3));
  U y = a->y;
  std::ostringstream os;
  os << "scalar-vector product, " << a->t.Str() << ": ";
  auto t = p->t;
  u128 x = a->x;
  if (kind == 0) {
    size_t n = Mismatch(c, y.size());
    os << "y of length " << y.size() << ", output of length " << n;
    p->who = a->First();
    p->call = [=](Env &e, int role) {
      U o(n, 0);
      return t.ops->gil_vec(e.Gil(role), y, o, 0);
    };
  } else if (kind == 1) {
    int64_t n = c.Bool() ? -c.Range(1, 1000) : c.Bool() ? INT64_MIN : -(int64_t{1} << 32) + c.Range(0, 9);
    os << "length " << n;
    p->who = a->Second();
    p->call = [=](Env &e, int role) {
      U o;
      return t.ops->gil_val(e.Gil(role), x, n, o, 1);
    };
  } else {
    int64_t extra = c.Size(1, 600);
    NTL::ZZ big = c.Bool() ? NTL::power2_ZZ(128) + NTL::to_ZZ(static_cast<long>(extra)) : NTL::power2_ZZ(128 + static_cast<long>(extra)) + NTL::to_ZZ(static_cast<long>(c.Choice(3)));
    t = p->t = MakeType(GetOps(sc::kZZp), 0);
    int64_t n = c.Range(0, 9);
    bool vec = kind == 2;
    int api = static_cast<int>(c.Choice(1));
    os << "modulus of " << NTL::NumBits(big) << " bits at the " << (vec ? "vector" : "value") << " provider, n=" << n;
    p->who = vec ? a->First() : a->Second();
    p->call = [=](Env &e, int role) {
      NTL::ZZ_p::init(big);
      U o(n, 0);
      Res r = vec ? t.ops->gil_vec(e.Gil(role), U(n, 1), o, api) : t.ops->gil_val(e.Gil(role), 1, n, o, api);
      t.Install();
      return r;
    };
  }
  p->what = os.str();
  return p;
}
int64_t NotPositive(Ctx &c, bool zero) {
  switch (c.Choice(3)) {
    case 0: return zero ? 0 : -1;
    case 1: return -c.Range(1, 5000);
    case 2: return INT64_MIN + c.Range(0, 2);
    default: return -(int64_t{1} << 32) + c.Range(0, 9);
  }
}
Inv VoleInvalid(Ctx &c, const VoleGen &g) {
  auto p = std::make_unique<InvalidStep>();
  p->t = g.t;
  int slot = g.slot;
  const Ops *ops = g.t.ops;
  p->setup = [=](Env &e, int role) { e.GetVole(role, slot, ops); };
  int kind = static_cast<int>(c.Choice(3));
  bool flip = g.flip;
  int64_t n = NotPositive(c, kind < 2);
  bool delta = c.Bool();
  u128 d = sc::DrawElement(c, g.t.ring);
  bool sender = kind % 2 == 0;
  p->who = sender == flip ? 1 : 0;
  p->what = std::string(kind < 2 ? "vector-OLE precomputation for " : "vector-OLE run of ") + std::to_string(n) + " elements, " + (sender ? "sender" : "receiver");
  p->call = [=](Env &e, int role) {
    Vole &v = e.GetVole(role, slot, ops);
    U a, b;
    u128 dd;
    if (kind == 0) return v.PreSender(n);
    if (kind == 1) return v.PreReceiver(n, delta ? &d : nullptr);
    if (kind == 2) return v.RunSender(n, &a, &b);
    return v.RunReceiver(n, &a, &dd);
  };
  return p;
}
Inv CreateInvalid(Ctx &c) {
  auto p = std::make_unique<InvalidStep>();
  p->t = DrawType(c);
  p->who = static_cast<int>(c.Choice(1));
  int cls = static_cast<int>(c.Choice(4)), kind = static_cast<int>(c.Choice(2));
  double ss = kind == 0 ? 40.0 : -1.0;
  bool null = kind != 1;
  if (kind) {
    static const double neg[] = {-1, -0.5, -1e-9, -40, -1e300};
    ss = neg[c.Choice(4)];
  }
  static const char *names[] = {"random OT", "single-point sharing", "multi-point sharing", "scalar-vector product", "vector OLE"};
  const Ops *ops = p->t.ops;
  if (cls == 4 && !ops->vole_create) cls = 3;
  std::ostringstream os;
  os << "creation of a " << names[cls] << (null ? " without a channel" : "") << " at security level " << ss;
  p->what = os.str();
  p->call = [=](Env &e, int role) {
    auto *ch = null ? nullptr : e.s->chan(role);
    Res r;
    auto from = [&](const auto &so) {
      r.ok = so.ok();
      r.code = static_cast<int>(so.status().code());
      r.msg = std::string(so.status().message());
    };
    std::unique_ptr<Vole> v;
    switch (cls) {
      case 0: from(dv::AllButOneRandomOT::Create(ch, ss)); break;
      case 1: from(dv::SPFSSKnownIndex::Create(ch, ss)); break;
      case 2: from(dv::MPFSSKnownIndices::Create(ch, ss)); break;
      case 3: from(dv::ScalarVectorGilboaProduct::Create(ch, ss)); break;
      default: r = ops->vole_create(ch, ss, &v);
    }
    return r;
  };
  return p;
}
// Histories of valid runs and invalid calls.
void Mixed(Ctx &c) {
  Opts o = DrawOpts(c, true);
  static const double levels[] = {40, 40, 20, 60, 80};
  o.ss = levels[c.Choice(4)];
  if (o.ss > 60) o.omp[0] = o.omp[1] = 1;
  Session s(o);
  Env env(&s);
  VoleGen g;
  const Ops *ops = c.Pick(AllOps());
  if (!ops->vole_create) ops = GetOps(sc::kGf);
  g.t = DrawTypeOf(c, ops, VoleBits(o.ss, 3000));
  g.ss = o.ss;
  g.max_batch = 300, g.flip = c.Bool();
  History h;
  int n = static_cast<int>(c.Range(1, 6));
  std::set<int> touched;
  for (int i = 0; i < n; i++) {
    int cls = static_cast<int>(c.Choice(5));
    Inv p;
    bool bad = i == 0 || c.Chance(3, 4);
    if (!bad) {
      touched.insert(cls);
    } else {
      switch (cls) {
        case 0: p = AboInvalid(c, o.ss, {}); break;
        case 1: p = SpfssInvalid(c, o.ss); break;
        case 2: p = MpfssInvalid(c, o.ss); break;
        case 3: p = GilboaInvalid(c); break;
        case 4: p = VoleInvalid(c, g); break;
        default: p = CreateInvalid(c);
      }
      if (!p) continue;
      touched.insert(cls);
      h.push_back(std::move(p));
      if (c.Bool()) continue;
    }
    switch (cls) {
      case 0: h.push_back(DrawAbo(c, o.ss, 60)); break;
      case 1: h.push_back(DrawSpfss(c, o.ss, 60)); break;
      case 2: h.push_back(DrawMpfss(c, o.ss, 60, 12)); break;
      case 3: h.push_back(DrawGilboa(c, 20)); break;
      case 4: h.push_back(c.Chance(1, 3) ? g.Precompute(c, g.DrawBatchSize(c)) : g.DrawRun(c, 400)); break;
      default: break;
    }
  }
  // Whatever was called with invalid arguments works.
  if (touched.count(0)) h.push_back(DrawAbo(c, o.ss, 60));
  if (touched.count(1)) h.push_back(DrawSpfss(c, o.ss, 60));
  if (touched.count(2)) h.push_back(DrawMpfss(c, o.ss, 60, 12));
  if (touched.count(3)) h.push_back(DrawGilboa(c, 20));
  if (touched.count(4)) h.push_back(g.DrawRun(c, 400));
  c.NonTrivial();
  RunHistory(c, env, h);
  VerifyDeltas(h);
}
// Moduli that the vector OLE cannot work with: both parties learn that, and
// the instances still work for what is possible.
struct VoleRejectStep : Step {
  int slot = 0;
  bool pre = true;
  int64_t n = 0;
  bool explicit_delta = false;
  u128 delta = 0;
  Res res[2];
  void Setup(Env &e, int role) override { e.GetVole(role, slot, t.ops); }
  void Party(Env &e, int role, bool first) override {
    Vole &v = e.GetVole(role, slot, t.ops);
    U a, b;
    u128 d;
    if (pre) res[role] = first ? v.PreSender(n) : v.PreReceiver(n, explicit_delta ? &delta : nullptr);
    else res[role] = first ? v.RunSender(n, &a, &b) : v.RunReceiver(n, &a, &d);
  }
  void Verify() override {
    for (int r = 0; r < 2; r++) {
      STEP_REQUIRE(!res[r].ok, "role " << r << " does not reject the modulus");
      STEP_REQUIRE(res[r].invalid(), "role " << r << ": status " << res[r].code << " instead of invalid argument: " << res[r].msg);
    }
  }
  std::string Str() const override {
    return std::string(pre ? "impossible precomputation" : "impossible run") + " of the vector OLE, " + t.Str() + " n=" + std::to_string(n);
  }
};
void VoleModuli(Ctx &c) {
  Opts o = DrawOpts(c, false);
  // Large enough for the smallest parameters only: some security level between.
  const Ops *ops = GetOps(sc::kzzp);
  u128 m = 0;
  double avail = 0;
  for (int i = 0;; i++) {
    c.Assume(i < 20);
    m = sc::DrawModulus(c, static_cast<u128>(1) << 50, (static_cast<u128>(1) << 60) - 1);
    u128 rem = (~static_cast<u128>(0) % m + 1) % m;
    if (rem == 0) continue;
    avail = 128 - std::log2(static_cast<double>(rem));
    if (avail < 78) break;
  }
  double base = std::log2(3.0) + std::log2(static_cast<double>(VP::kCodeGeneratorNonzeros));
  // Possible for batch sizes up to 60, impossible for the largest.
  o.ss = avail - base - std::log2(200.0) - 0.1 - 0.1 * static_cast<double>(c.Choice(7));
  c.Assume(o.ss > 0);
  Session s(o);
  Env env(&s);
  VoleGen g;
  g.t = MakeType(ops, m);
  g.ss = o.ss;
  g.flip = c.Bool();
  g.max_batch = 60;
  double bits = o.ss + base + std::log2(700.0);
  c.Assume(ClearlyInadmissible(m, bits));
  History h;
  int n = static_cast<int>(c.Range(1, 5));
  auto possible = [&] {
    if (c.Chance(1, 3)) h.push_back(g.Precompute(c, c.Range(1, 60)));
    else if (!g.pre) h.push_back(g.RunOf(c.Range(1, 60)));
    else h.push_back(g.DrawRun(c, 200));
  };
  for (int i = 0; i < n; i++) {
    if (c.Chance(1, 3)) {
      possible();
      continue;
    }
    auto p = std::make_unique<VoleRejectStep>();
    p->t = g.t, p->flip = g.flip;
    p->pre = g.pre || c.Bool();
    p->n = c.Range(700, VP::output_size.back() + 1000);
    if (p->pre && c.Chance(1, 10)) p->n = INT64_MAX;
    p->explicit_delta = p->pre && c.Bool();
    p->delta = sc::DrawElement(c, g.t.ring);
    h.push_back(std::move(p));
    // The next run starts over.
    g.pre = false;
  }
  possible();
  c.NonTrivial();
  RunHistory(c, env, h);
  // Outputs of runs are those of a working code: hardly any zeros.
  for (auto &p : h) {
    auto *q = dynamic_cast<VoleStep *>(p.get());
    if (!q || q->pre || q->n == 0) continue;
    int64_t zeros = 0;
    for (auto x : q->u) zeros += x == 0;
    PBT_REQUIRE(c, zeros <= 1, zeros << " of " << q->n << " elements of u are zero after a rejected call");
  }
}
// Security levels for which larger sizes would need hashes of more than 128
// bits: those sizes are rejected, every time, and others go on working.
double HashBits(double ss, int64_t size, int64_t n) {
  auto h = dv::CuckooHasher::Create(0, 3, ss + 1);
  auto nb = h.ValueOrDie()->GetOptimalNumberOfBuckets(n);
  return ss + 1 + std::log2(static_cast<double>(size)) + std::log2(3.0) + std::log2(static_cast<double>(nb.ValueOrDie()));
}
void HighSecurity(Ctx &c) {
  Opts o = DrawOpts(c, false);
  o.ss = 95 + static_cast<double>(c.Choice(290)) / 10;
  Session s(o);
  Env env(&s);
  auto exact = [&] {
    static const sc::Kind k[] = {sc::kU8, sc::kU16, sc::kU32, sc::kU64, sc::kU128, sc::kGf};
    return MakeType(GetOps(k[c.Choice(5)]), 0);
  };
  std::vector<std::pair<int64_t, int>> good, bad;  // sizes and numbers of indices
  for (int i = 0; i < 12; i++) {
    int n = static_cast<int>(c.Size(1, i % 2 ? 3 : 40));
    int64_t size = n + c.Size(0, 4000);
    if (i > 7) size = n + (int64_t{1} << c.Choice(17));
    double bits = HashBits(o.ss, size, n);
    if (bits < 127.99) good.push_back({size, n});
    else if (bits > 128.01) bad.push_back({size, n});
  }
  c.Assume(!bad.empty());
  History h;
  int steps = static_cast<int>(c.Range(2, 7));
  for (int i = 0; i < steps; i++) {
    if (i > 0 && !good.empty() && c.Chance(1, 3)) {
      auto p = std::make_unique<MpfssStep>();
      auto g = c.Pick(good);
      p->t = exact();
      p->size = g.first, p->idx = DrawIndices(c, g.second, g.first);
      p->x = sc::DrawElement(c, p->t.ring), p->y = DrawVec(c, p->t.ring, g.second);
      p->corr = c.Choice(UINT64_MAX), p->fill = c.Choice(1000000);
      p->flip = c.Chance(1, 4);
      for (auto &q : p->pre)
        if (c.Chance(1, 3)) q.push_back(c.Pick(good));
      h.push_back(std::move(p));
      continue;
    }
    auto p = std::make_unique<InvalidStep>();
    p->setup = [](Env &e, int role) { e.Mpfss(role); };
    p->t = exact();
    p->who = static_cast<int>(c.Choice(1));
    auto b = c.Pick(bad);
    int kind = static_cast<int>(c.Choice(3));
    auto t = p->t;
    if (kind == 0 && c.Chance(1, 4)) b.second = -static_cast<int>(c.Range(1, 1000));
    static const char *names[] = {"precomputation", "precomputation", "value provider", "index provider"};
    p->what = std::string("multi-point sharing ") + names[kind] + " of size " + std::to_string(b.first) + " with " + std::to_string(b.second) + " indices at security level " + std::to_string(o.ss);
    uint64_t fill = c.Choice(1000000);
    std::vector<int64_t> idx;
    if (kind == 3) idx = DrawIndices(c, b.second, b.first);
    p->call = [=](Env &e, int role) {
      Res r;
      auto &m = e.Mpfss(role);
      if (kind < 2) {
        auto st = m.UpdateBuckets(b.first, b.second);
        r.ok = st.ok(), r.code = static_cast<int>(st.code()), r.msg = std::string(st.message());
        return r;
      }
      auto so = m.NumBuckets(b.second);
      if (!so.ok()) throw Failure{"NumBuckets failed"};
      size_t nb = so.ValueOrDie();
      U out = Prefilled({b.first}, t.ring, fill)[0];
      if (kind == 2) return t.ops->mpfss_value(m, 1, b.second, U(nb, 0), out);
      return t.ops->mpfss_index(m, U(b.second, 1), idx, U(nb, 0), U(nb, 0), out);
    };
    if (c.Chance(1, 3)) {
      // The same call once more.
      auto q = std::make_unique<InvalidStep>();
      q->setup = p->setup, q->t = p->t, q->who = p->who, q->what = p->what + " (again)", q->call = p->call;
      h.push_back(std::move(q));
    }
    h.push_back(std::move(p));
  }
  c.NonTrivial();
  RunHistory(c, env, h);
}
// Batches of more than 2^31 elements: what decides is the total, also when a
// type too small for it wraps around. The outputs are never touched when the
// modulus is rejected, so address space suffices for them; a batch that is
// accepted cannot be run and counts as accepted once it asks for more memory
// than its process may have.
#ifndef VERIF_NO_CHILD
void Totals(Ctx &c) {
  typedef NTL::zz_p T;
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool();
  bool reject = c.Chance(3, 4);
  // The entries.
  std::vector<int64_t> sizes;
  int kind = static_cast<int>(c.Choice(3));
  int64_t total = 0, want = 0;
  if (kind == 0) want = (c.Range(1, 16) << 32) + c.Range(1, 5);          // wraps to almost nothing
  else if (kind == 1) want = (int64_t{1} << 31) + c.Range(0, 1 << 30);   // wraps to something negative
  else if (kind == 2) want = (int64_t{1} << 32) - c.Range(1, 3);
  else want = c.Range(int64_t{1} << 31, int64_t{1} << 36);
  int parts = static_cast<int>(c.Range(1, 6));
  for (int i = 0; i + 1 < parts; i++) {
    int64_t left = want - total;
    int64_t n = c.Bool() ? c.Range(0, 100) : left / (parts - i);
    sizes.push_back(n), total += n;
  }
  sizes.push_back(want - total), total = want;
  if (c.Bool()) std::reverse(sizes.begin(), sizes.end());
  // The security that a modulus gives, and the one that is asked for.
  double ltot = std::log2(static_cast<double>(total));
  u128 m = 0;
  double bits = 0;
  for (int i = 0; i < 20; i++) {
    m = reject ? sc::DrawModulus(c, static_cast<u128>(1) << 50, (static_cast<u128>(1) << 60) - 1) : sc::DrawModulus(c, 3, static_cast<u128>(1) << 40);
    u128 rem = (~static_cast<u128>(0) % m + 1) % m;
    bits = rem ? 128 - std::log2(static_cast<double>(rem)) : 1000;
    if (bits < 110) break;
  }
  if (bits >= 110) return;
  // Rejected, although half the elements or fewer would be accepted.
  if (reject) o.ss = bits - ltot + 0.02 + (c.Bool() ? 0 : static_cast<double>(c.Choice(1000)) / 1000 * (ltot - 5));
  else o.ss = std::max(0.0, bits - ltot - 0.02 - (c.Bool() ? 0 : static_cast<double>(c.Choice(30))));
  if (reject ? bits > o.ss + ltot : !(bits > o.ss + ltot)) return;
  int api = static_cast<int>(c.Choice(1));
  c.Desc() << (api ? "single-point sharing" : "random OT") << " sender, " << total << " elements in " << parts << " vectors, modulus " << Dec(m) << ", security " << o.ss << ", " << (reject ? "to be rejected" : "to be accepted") << ", entries";
  for (auto n : sizes) c.Desc() << " " << n;
  c.NonTrivial();
  child::Space mem(sizeof(T) * static_cast<size_t>(*std::max_element(sizes.begin(), sizes.end())), false);
  if (!mem.p) return;
  int rc = 0;
  {
    Session s(o);
    Env e(&s);
    s.Run([&] { api ? (void)e.Spfss(0) : (void)e.Abo(0); }, [&] { api ? (void)e.Spfss(1) : (void)e.Abo(1); });
    s.Run([&] {
      rc = child::Run([&] {
        NTL::zz_p::init(static_cast<long>(m));
        std::vector<absl::Span<T>> out;
        for (auto n : sizes) out.emplace_back(static_cast<T *>(mem.p), static_cast<size_t>(n));
        auto sends = s.net().NumSends(s.Id(0));
        mpc_utils::Status st = mpc_utils::OkStatus();
        if (api) {
          std::vector<T> shares(sizes.size(), T(1));
          st = e.Spfss(0).RunValueProviderBatched<T>(shares, absl::MakeSpan(out));
        } else {
          st = e.Abo(0).RunSenderBatched<T>(absl::MakeSpan(out));
        }
        if (s.net().NumSends(s.Id(0)) != sends) return static_cast<int>(child::kSent);
        if (st.ok()) return static_cast<int>(child::kDone);
        return static_cast<int>(static_cast<int>(st.code()) == 3 ? child::kRejected : child::kOther);
      });
    }, nullptr);
  }
  PBT_REQUIRE(c, rc != child::kSent, "messages were sent");
  PBT_REQUIRE(c, rc != child::kOther, "rejected, but not as an invalid argument");
  PBT_REQUIRE(c, rc != child::kDone, "a batch of this size cannot have been completed");
  PBT_REQUIRE(c, rc != child::kThrew && rc != child::kLength, child::Show(rc));
  PBT_REQUIRE(c, rc == child::kRejected || rc == child::kMemory || rc < 0, child::Show(rc));
  if (reject) PBT_REQUIRE(c, rc == child::kRejected, "the modulus cannot give the requested security for " << total << " elements, but was accepted (" << child::Show(rc) << ")");
  else PBT_REQUIRE(c, rc != child::kRejected, "a modulus that gives the requested security for " << total << " elements was rejected");
}
// Correlation vectors of multi-point sharing whose length is right in its low
// 32 bits only.
template <class T>
int WideMpfss(Env &e, Session &s, bool value, int which, int64_t size, const std::vector<int64_t> &idx, size_t nb, size_t wrong, void *mem) {
  auto &m = e.Mpfss(0);
  std::vector<T> out(size, T(1)), right(nb, T(1)), y(idx.size(), T(1));
  absl::Span<const T> wide(static_cast<const T *>(mem), wrong), ok(right);
  auto sends = s.net().NumSends(s.Id(0));
  mpc_utils::Status st = value ? m.RunValueProviderVectorOLE<T>(T(1), static_cast<int>(idx.size()), wide, absl::MakeSpan(out))
                               : m.RunIndexProviderVectorOLE<T>(y, idx, which & 1 ? wide : ok, which & 2 ? wide : ok, absl::MakeSpan(out));
  if (s.net().NumSends(s.Id(0)) != sends) return child::kSent;
  if (st.ok()) return child::kDone;
  return static_cast<int>(st.code()) == 3 ? child::kRejected : child::kOther;
}
void Wide(Ctx &c) {
  Opts o;
  o.tape[0] = c.Choice(UINT64_MAX), o.tape[1] = c.Choice(UINT64_MAX);
  o.swap = c.Bool();
  int64_t n = c.Range(1, 12), size = n + c.Range(0, 100);
  int64_t extra = c.Range(1, 3) << 32;
  bool value = c.Bool();
  int which = static_cast<int>(c.Range(1, 3)), type = static_cast<int>(c.Choice(2));
  auto idx = DrawIndices(c, static_cast<int>(n), size);
  c.Desc() << "multi-point sharing (" << (value ? "values" : "indices") << ") of " << size << " elements, " << n << " indices, correlation " << which << " longer by " << extra << " elements, type " << type;
  c.NonTrivial();
  child::Space mem((static_cast<size_t>(extra) + 4096) * 16, false);
  if (!mem.p) return;
  int rc = child::kRejected;
  {
    Session s(o);
    Env e(&s);
    s.Run([&] { e.Mpfss(0); }, [&] { e.Mpfss(1); });
    s.Run([&] {
      auto so = e.Mpfss(0).NumBuckets(static_cast<int>(n));
      if (!so.ok()) throw Failure{"NumBuckets failed"};
      size_t nb = so.ValueOrDie(), wrong = nb + static_cast<size_t>(extra);
      rc = child::Run([&] {
        switch (type) {
          case 0: return WideMpfss<uint8_t>(e, s, value, which, size, idx, nb, wrong, mem.p);
          case 1: return WideMpfss<uint64_t>(e, s, value, which, size, idx, nb, wrong, mem.p);
          default: return WideMpfss<dv::gf128>(e, s, value, which, size, idx, nb, wrong, mem.p);
        }
      });
    }, nullptr);
  }
  PBT_REQUIRE(c, rc == child::kRejected, "a correlation of the wrong length was not rejected: " << child::Show(rc));
}
#endif
pbt::Check Make(const char *name, void (*fn)(Ctx &), int64_t quick, int64_t thorough) {
  pbt::Check k;
  k.name = name;
  k.fn = fn;
  k.quick = quick;
  k.thorough = thorough;
  return k;
}
pbt::Register r1(Make("invalid_mixed", Mixed, 12000, 250000));
#ifndef VERIF_NO_CHILD
pbt::Register r4(Make("invalid_totals", Totals, 300, 4000));
pbt::Register r5(Make("invalid_wide", Wide, 200, 3000));
#endif
pbt::Register r3(Make("invalid_sizes", HighSecurity, 3000, 60000));
pbt::Register r2(Make("invalid_vole_moduli", VoleModuli, 1500, 30000));
}  // namespace
