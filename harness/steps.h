// One protocol run as a step of a history, with the oracle for its result.
#ifndef VERIF_STEPS_H_
#define VERIF_STEPS_H_
#include "proto.h"

namespace proto {

struct Step {
  TypeSpec t;
  bool flip = false;  // the first-named role is played by role 1
  size_t sent_lo[2] = {0, 0}, sent_hi[2] = {0, 0}, ot_lo[2] = {0, 0}, ot_hi[2] = {0, 0};
  // What each role put into the network during this step.
  size_t bytes[2] = {0, 0}, sends[2] = {0, 0}, ots[2] = {0, 0};
  virtual ~Step() {}
  void Do(Env &e, int role) {
    t.Install();
    auto &net = e.s->net();
    int id = e.s->Id(role);
    Setup(e, role);
    sent_lo[role] = net.SentCount(id), ot_lo[role] = net.OtCount();
    size_t b = net.NumBytes(id), n = net.NumSends(id), o = net.NumOts(id);
    Party(e, role, (role == 1) == flip);
    bytes[role] = net.NumBytes(id) - b, sends[role] = net.NumSends(id) - n, ots[role] = net.NumOts(id) - o;
    sent_hi[role] = net.SentCount(id), ot_hi[role] = net.OtCount();
    if (t.ops->modular && t.ops->installed() != t.modulus) throw Failure{Str() + ": the caller's modulus was changed"};
    if (omp_get_max_threads() != e.s->opt.omp[role]) throw Failure{Str() + ": the caller's number of threads was changed"};
  }
  int First() const { return flip ? 1 : 0; }   // role playing the first-named party
  int Second() const { return flip ? 0 : 1; }
  virtual void Setup(Env &, int) {}
  virtual void Party(Env &, int role, bool first) = 0;
  virtual void Verify() = 0;
  virtual Step *Core() { return this; }  // without wrappers
  virtual int64_t Elements() const { return 0; }  // of output
  virtual std::string Str() const = 0;
};
#define STEP_REQUIRE(cond, ...)                                \
  do {                                                         \
    if (!(cond)) {                                             \
      std::ostringstream step_os_;                             \
      step_os_ << Str() << ": " << __VA_ARGS__;                \
      throw Failure{step_os_.str()};                           \
    }                                                          \
  } while (0)

#define STEP_REQUIRE_OF(step, cond, ...)                       \
  do {                                                         \
    if (!(cond)) {                                             \
      std::ostringstream step_os_;                             \
      step_os_ << (step).Str() << ": " << __VA_ARGS__;         \
      throw Failure{step_os_.str()};                           \
    }                                                          \
  } while (0)

inline std::vector<U> Prefilled(const std::vector<int64_t> &sizes, const Ring &r, uint64_t seed) {
  Rng b(seed);
  std::vector<U> o;
  for (auto n : sizes) o.push_back(seed % 3 == 0 ? U(n, r.Red(seed)) : RandVec(b, r, n));
  return o;
}

// ---- (N-1)-out-of-N random OT ----------------------------------------------
struct AboStep : Step {
  std::vector<int64_t> sizes, idx;
  bool single = false;
  uint64_t fill = 0;
  std::vector<U> s, r;
  void Setup(Env &e, int role) override { e.Abo(role); }
  void Party(Env &e, int role, bool first) override {
    auto &o = first ? s : r;
    o = Prefilled(sizes, t.ring, fill + role);
    if (first) Ok("RunSender", t.ops->abo_send(e.Abo(role), o, single));
    else Ok("RunReceiver", t.ops->abo_recv(e.Abo(role), idx, o, single));
  }
  void Verify() override {
    for (size_t i = 0; i < sizes.size(); i++)
      for (int64_t j = 0; j < sizes[i]; j++) {
        STEP_REQUIRE(t.ring.n == 0 || s[i][j] < t.ring.n, "sender output " << i << " has a non-canonical element " << Dec(s[i][j]));
        if (j != idx[i])
          STEP_REQUIRE(s[i][j] == r[i][j], "entry " << i << " of size " << sizes[i] << ", receiver index " << idx[i] << ": position " << j
                                                    << " is " << Dec(s[i][j]) << " at the sender, " << Dec(r[i][j]) << " at the receiver");
      }
  }
  int64_t Elements() const override {
    int64_t n = 0;
    for (auto k : sizes) n += k;
    return n;
  }
  std::string Str() const override {
    std::ostringstream os;
    os << "random OT " << t.Str() << (flip ? " flipped" : "") << (single ? " single" : "") << " sizes/indices";
    for (size_t i = 0; i < sizes.size(); i++) os << " " << sizes[i] << "/" << idx[i];
    return os.str();
  }
};
inline int64_t DrawLen(Ctx &c, int64_t hi) {
  if (hi < 4) return c.Range(1, hi);
  switch (c.Choice(3)) {
    case 0: return c.Range(1, std::min<int64_t>(hi, 9));
    case 1: {  // around powers of two
      int64_t v = (int64_t{1} << c.Range(1, 62 - __builtin_clzll(hi))) + c.Range(-1, 1);
      return v < 1 ? 1 : v > hi ? hi : v;
    }
    case 2: return c.Range(1, std::min<int64_t>(hi, 64));
    default: return c.Size(1, hi);
  }
}
inline int64_t DrawIndex(Ctx &c, int64_t n) {
  if (n <= 0) return c.Choice(5);
  switch (c.Choice(3)) {
    case 0: return 0;
    case 1: return n - 1;
    default: return c.Range(0, n - 1);
  }
}
inline void DrawBatch(Ctx &c, int max_entries, int64_t max_len, bool allow_empty, std::vector<int64_t> *sizes, std::vector<int64_t> *idx) {
  int n = static_cast<int>(c.Chance(1, 3) ? 1 : c.Range(0, max_entries));
  for (int i = 0; i < n; i++) {
    int64_t len = allow_empty && c.Chance(1, 6) ? 0 : DrawLen(c, max_len);
    sizes->push_back(len);
    idx->push_back(DrawIndex(c, len));
  }
}
// Many short vectors.
inline void DrawManyEntries(Ctx &c, std::vector<int64_t> *sizes, std::vector<int64_t> *idx) {
  int n = static_cast<int>(c.Chance(1, 3) ? c.Range(60, 140) : c.Size(8, pbt::Thorough() ? 2500 : 700));
  int64_t max = c.Range(1, 20);
  Rng r = c.Bulk();
  for (int i = 0; i < n; i++) {
    int64_t len = i < 10 ? c.Range(0, max) : static_cast<int64_t>(r.Upto(max));
    sizes->push_back(len);
    idx->push_back(len ? static_cast<int64_t>(r.Upto(len - 1)) : 0);
  }
}
inline std::unique_ptr<AboStep> DrawAbo(Ctx &c, double ss, int64_t max_len) {
  auto p = std::make_unique<AboStep>();
  DrawBatch(c, 7, max_len, true, &p->sizes, &p->idx);
  int64_t total = 1;
  for (auto n : p->sizes) total += n;
  p->t = DrawType(c, ss + std::log2(static_cast<double>(total)));
  p->single = p->sizes.size() == 1 && c.Bool();
  p->flip = c.Chance(1, 4);
  p->fill = c.Choice(1000000);
  return p;
}

// ---- single-point function secret sharing ------------------------------------
struct SpfssStep : Step {
  std::vector<int64_t> sizes, idx;
  int api = 0;
  uint64_t fill = 0;
  U va, vb;  // shares of the value / index provider
  std::vector<U> a, b;
  void Setup(Env &e, int role) override { e.Spfss(role); }
  void Party(Env &e, int role, bool first) override {
    auto &o = first ? a : b;
    o = Prefilled(sizes, t.ring, fill + role);
    if (first) Ok("RunValueProvider", t.ops->spfss_value(e.Spfss(role), va, o, api));
    else Ok("RunIndexProvider", t.ops->spfss_index(e.Spfss(role), vb, idx, o, api));
  }
  void Verify() override {
    for (size_t i = 0; i < sizes.size(); i++)
      for (int64_t j = 0; j < sizes[i]; j++) {
        u128 want = j == idx[i] ? t.ring.Add(va[i], vb[i]) : 0;
        STEP_REQUIRE(t.ring.n == 0 || (a[i][j] < t.ring.n && b[i][j] < t.ring.n), "non-canonical output");
        STEP_REQUIRE(t.ring.Add(a[i][j], b[i][j]) == want,
                     "entry " << i << " of size " << sizes[i] << ", index " << idx[i] << ", value shares " << Dec(va[i]) << " + " << Dec(vb[i]) << ": outputs at position "
                              << j << " add up to " << Dec(t.ring.Add(a[i][j], b[i][j])) << ", expected " << Dec(want));
      }
  }
  int64_t Elements() const override {
    int64_t n = 0;
    for (auto k : sizes) n += k;
    return n;
  }
  std::string Str() const override {
    std::ostringstream os;
    os << "SPFSS " << t.Str() << (flip ? " flipped" : "") << " api " << api << " sizes/indices";
    for (size_t i = 0; i < sizes.size(); i++) os << " " << sizes[i] << "/" << idx[i];
    os << " shares " << Show(va) << " " << Show(vb);
    return os.str();
  }
};
inline std::unique_ptr<SpfssStep> DrawSpfss(Ctx &c, double ss, int64_t max_len) {
  auto p = std::make_unique<SpfssStep>();
  DrawBatch(c, 7, max_len, true, &p->sizes, &p->idx);
  int64_t total = 1;
  for (auto n : p->sizes) total += n;
  p->t = DrawType(c, ss + std::log2(static_cast<double>(total)));
  if (p->sizes.size() == 1) p->api = static_cast<int>(c.Choice(2));
  p->va = DrawVec(c, p->t.ring, p->sizes.size());
  p->vb = DrawVec(c, p->t.ring, p->sizes.size());
  p->flip = c.Chance(1, 4);
  p->fill = c.Choice(1000000);
  return p;
}

// ---- multi-point function secret sharing --------------------------------------
struct MpfssStep : Step {
  int64_t size = 1;
  std::vector<int64_t> idx;
  u128 x = 0;
  U y;
  uint64_t corr = 0, fill = 0;  // seeds of the correlation and of the prior buffer contents
  int corr_mode = 0;            // 0 random, 1 u=0, 2 v=0, 3 u=-y pattern unknown: small
  // Optional precomputations before the run.
  std::vector<std::pair<int64_t, int>> pre[2];
  int nb[2] = {-1, -1};
  U a, b, u, v, w;
  void Setup(Env &e, int role) override {
    e.Mpfss(role);
    for (auto &q : pre[role]) {
      auto st = e.Mpfss(role).UpdateBuckets(q.first, q.second);
      if (!st.ok()) throw Failure{Str() + ": UpdateBuckets(" + std::to_string(q.first) + "," + std::to_string(q.second) + ") failed: " + std::string(st.message())};
    }
  }
  void Party(Env &e, int role, bool first) override {
    auto so = e.Mpfss(role).NumBuckets(static_cast<int>(y.size()));
    if (!so.ok()) throw Failure{Str() + ": NumBuckets failed"};
    nb[role] = so.ValueOrDie();
    if (nb[role] < 0 || nb[role] > 100000000) throw Failure{Str() + ": absurd number of buckets"};
    Rng g(corr);
    U lu = RandVec(g, t.ring, nb[role]), lv = RandVec(g, t.ring, nb[role]), lw(nb[role]);
    if (corr_mode == 1) std::fill(lu.begin(), lu.end(), 0);
    if (corr_mode == 2) std::fill(lv.begin(), lv.end(), 0);
    for (size_t i = 0; i < lu.size(); i++) lw[i] = t.ring.Add(t.ring.Mul(lu[i], x), lv[i]);
    auto &o = first ? a : b;
    o = Prefilled({size}, t.ring, fill + role)[0];
    if (first) {
      Ok("RunValueProviderVectorOLE", t.ops->mpfss_value(e.Mpfss(role), x, static_cast<int>(y.size()), lw, o));
      w = lw;
    } else {
      Ok("RunIndexProviderVectorOLE", t.ops->mpfss_index(e.Mpfss(role), y, idx, lu, lv, o));
      u = lu, v = lv;
    }
  }
  void Verify() override {
    STEP_REQUIRE(nb[0] == nb[1], "NumBuckets is " << nb[0] << " at one party and " << nb[1] << " at the other");
    U want(size, 0);
    for (size_t i = 0; i < idx.size(); i++) want[idx[i]] = t.ring.Mul(x, y[i]);
    for (int64_t j = 0; j < size; j++) {
      STEP_REQUIRE(t.ring.n == 0 || (a[j] < t.ring.n && b[j] < t.ring.n), "non-canonical output");
      STEP_REQUIRE(t.ring.Add(a[j], b[j]) == want[j],
                   "position " << j << " adds up to " << Dec(t.ring.Add(a[j], b[j])) << ", expected " << Dec(want[j]));
    }
  }
  int64_t Elements() const override {
    return size;
  }
  std::string Str() const override {
    std::ostringstream os;
    os << "MPFSS " << t.Str() << (flip ? " flipped" : "") << " size " << size << " x=" << Dec(x) << " indices [";
    for (size_t i = 0; i < idx.size() && i < 8; i++) os << (i ? "," : "") << idx[i];
    os << "](" << idx.size() << ") y " << Show(y, 4);
    return os.str();
  }
};
// n distinct positions below size, in any order.
inline std::vector<int64_t> DrawIndices(Ctx &c, int64_t n, int64_t size) {
  std::vector<int64_t> v;
  Rng b = c.Bulk();
  uint64_t mode = c.Choice(4);
  if (mode == 0) {
    for (int64_t i = 0; i < n; i++) v.push_back(i);
  } else if (mode == 1) {
    for (int64_t i = 0; i < n; i++) v.push_back(size - 1 - i);
  } else if (mode == 2) {
    int64_t stride = std::max<int64_t>(1, size / n);
    for (int64_t i = 0; i < n; i++) v.push_back(i * stride);
  } else {
    std::set<int64_t> s;
    if (n * 2 > size) {
      std::vector<int64_t> all(size);
      std::iota(all.begin(), all.end(), 0);
      for (int64_t i = 0; i < n; i++) std::swap(all[i], all[i + b.Upto(size - 1 - i)]);
      v.assign(all.begin(), all.begin() + n);
      return v;
    }
    while (static_cast<int64_t>(s.size()) < n) {
      int64_t k = static_cast<int64_t>(b.Upto(size - 1));
      if (s.insert(k).second) v.push_back(k);
    }
    return v;
  }
  if (c.Bool())
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[b.Upto(i - 1)]);
  return v;
}
inline std::unique_ptr<MpfssStep> DrawMpfss(Ctx &c, double ss, int64_t max_len, int64_t max_idx) {
  auto p = std::make_unique<MpfssStep>();
  int64_t n = DrawLen(c, max_idx);
  p->size = c.Chance(1, 4) ? n : std::max(n, DrawLen(c, max_len));
  p->idx = DrawIndices(c, n, p->size);
  p->t = DrawType(c, ss + 1 + std::log2(3.0 * static_cast<double>(p->size) + 10));
  p->y = DrawVec(c, p->t.ring, n);
  p->x = sc::DrawElement(c, p->t.ring);
  p->corr = c.Choice(UINT64_MAX);
  p->corr_mode = c.Chance(1, 6) ? static_cast<int>(c.Range(1, 2)) : 0;
  p->flip = c.Chance(1, 4);
  p->fill = c.Choice(1000000);
  for (int r = 0; r < 2; r++) {
    if (!c.Chance(1, 4)) continue;
    if (c.Bool()) p->pre[r].push_back({c.Range(0, max_len), static_cast<int>(c.Range(1, max_idx))});
    if (c.Bool()) p->pre[r].push_back({p->size, static_cast<int>(n)});
  }
  return p;
}

// ---- scalar-vector product ------------------------------------------------------
struct GilboaStep : Step {
  u128 x = 0;
  U y;
  int api[2] = {0, 0};
  uint64_t fill = 0;
  U a, b;  // vector / value provider
  void Setup(Env &e, int role) override { e.Gil(role); }
  void Party(Env &e, int role, bool first) override {
    auto &o = first ? a : b;
    o = Prefilled({static_cast<int64_t>(y.size())}, t.ring, fill + role)[0];
    if (first) Ok("RunVectorProvider", t.ops->gil_vec(e.Gil(role), y, o, api[0]));
    else Ok("RunValueProvider", t.ops->gil_val(e.Gil(role), x, static_cast<int64_t>(y.size()), o, api[1]));
  }
  void Verify() override {
    STEP_REQUIRE(a.size() == y.size() && b.size() == y.size(), "outputs have lengths " << a.size() << " and " << b.size() << " instead of " << y.size());
    for (size_t i = 0; i < y.size(); i++) {
      STEP_REQUIRE(t.ring.n == 0 || (a[i] < t.ring.n && b[i] < t.ring.n), "non-canonical output");
      STEP_REQUIRE(t.ring.Add(a[i], b[i]) == t.ring.Mul(x, y[i]), "x=" << Dec(x) << " y[" << i << "]=" << Dec(y[i]) << ": shares add up to "
                                                                      << Dec(t.ring.Add(a[i], b[i])) << ", expected " << Dec(t.ring.Mul(x, y[i])));
    }
  }
  int64_t Elements() const override {
    return static_cast<int64_t>(y.size());
  }
  std::string Str() const override {
    std::ostringstream os;
    os << "scalar-vector product " << t.Str() << (flip ? " flipped" : "") << " api " << api[0] << api[1] << " x=" << Dec(x) << " y " << Show(y);
    return os.str();
  }
};
inline std::unique_ptr<GilboaStep> DrawGilboa(Ctx &c, int64_t max_len) {
  auto p = std::make_unique<GilboaStep>();
  p->t = DrawType(c);
  int64_t n = c.Chance(1, 10) ? 0 : c.Chance(1, 4) ? c.Range(1, max_len) : c.Range(1, std::min<int64_t>(20, max_len));
  p->x = sc::DrawElement(c, p->t.ring);
  p->y = DrawVec(c, p->t.ring, n);
  p->api[0] = static_cast<int>(c.Choice(1));
  p->api[1] = static_cast<int>(c.Choice(1));
  p->flip = c.Chance(1, 4);
  p->fill = c.Choice(1000000);
  return p;
}

// ---- steps that vary an earlier one in one respect -------------------------------
// State that a protocol object keeps between runs under an incomplete key is
// only seen by a run that agrees with an earlier one in everything else.
inline u128 VaryElement(Ctx &c, const Ring &r, u128 x) {
  int bits = 1;
  while (bits < 128 && (r.Max() >> bits)) bits++;
  if (bits > 64 && c.Chance(2, 3)) return r.Red(c.Relative(x));
  switch (c.Choice(3)) {
    case 0: return r.Red(x ^ static_cast<u128>(1) << c.Choice(bits - 1));
    case 1: return r.Add(x, r.Red(1));
    case 2: return r.Add(x, r.Max());
    default: return r.Red(c.UpTo128(r.Max()));
  }
}
inline void VaryVec(Ctx &c, const Ring &r, U *v) {
  if (v->empty()) return;
  size_t i = c.Chance(1, 3) ? v->size() - 1 : c.Choice(v->size() - 1), j = c.Choice(v->size() - 1);
  if (c.Chance(1, 5)) std::swap((*v)[i], (*v)[j]);
  else (*v)[i] = VaryElement(c, r, (*v)[i]);
}
inline TypeSpec VaryType(Ctx &c, const TypeSpec &t, double admissible = -1) {
  if (!t.ops->modular) return t;
  u128 m = c.Relative(t.modulus);
  if (t.ops->kind == sc::kzzp) m &= (static_cast<u128>(1) << 60) - 1;
  if (m == 1 || (m == 0 && t.ops->kind == sc::kzzp)) return t;
  if (admissible >= 0 && !Admissible(m, admissible)) return t;
  return MakeType(t.ops, m);
}
// One entry's index or length, the order, or the number of entries; keeps the
// sum of the lengths at times.  False if the number of entries changed.
inline bool VaryBatch(Ctx &c, int64_t max_len, std::vector<int64_t> *sizes, std::vector<int64_t> *idx) {
  size_t n = sizes->size();
  if (n == 0) return true;
  size_t i = c.Choice(n - 1), j = c.Choice(n - 1);
  auto &si = (*sizes)[i], &sj = (*sizes)[j];
  switch (c.Choice(6)) {
    case 0:
    case 1: (*idx)[i] = DrawIndex(c, si); break;
    case 2:
      if (si > 0) (*idx)[i] = ((*idx)[i] + (c.Bool() ? 1 : si - 1)) % si;
      break;
    case 3:  // one entry longer, perhaps another one shorter
      if (si < max_len) {
        si++;
        if (i != j && sj > 1 && c.Bool()) sj--;
      }
      break;
    case 4: std::swap(si, sj), std::swap((*idx)[i], (*idx)[j]); break;
    case 5:
      if (n < 2) break;
      sizes->erase(sizes->begin() + i), idx->erase(idx->begin() + i);
      return false;
    default: {
      int64_t len = si;
      sizes->push_back(len), idx->push_back(DrawIndex(c, len));
      return false;
    }
  }
  for (size_t k = 0; k < n; k++)
    if ((*idx)[k] >= (*sizes)[k]) (*idx)[k] = std::max<int64_t>(0, (*sizes)[k] - 1);
  return true;
}
inline double Bits(double ss, const std::vector<int64_t> &sizes) {
  int64_t total = 1;
  for (auto n : sizes) total += n;
  return ss + std::log2(static_cast<double>(total));
}
// The bounds on the moduli are those of the bigger batch.
inline void KeepAdmissible(Ctx &c, TypeSpec *t, double admissible) {
  if (t->ops->modular && !Admissible(t->modulus, admissible)) *t = DrawTypeOf(c, t->ops, admissible);
}
inline void ReduceVec(const Ring &r, U *v) {
  for (auto &x : *v) x = r.Red(x);
}
inline std::unique_ptr<AboStep> VaryAbo(Ctx &c, const AboStep &prev, double ss, int64_t max_len) {
  auto p = std::make_unique<AboStep>(prev);
  if (c.Chance(1, 6)) p->flip = !p->flip;
  else if (c.Chance(1, 6)) p->t = VaryType(c, p->t, Bits(ss, p->sizes));
  else VaryBatch(c, max_len, &p->sizes, &p->idx);
  KeepAdmissible(c, &p->t, Bits(ss, p->sizes));
  p->single = p->single && p->sizes.size() == 1;
  return p;
}
inline std::unique_ptr<SpfssStep> VarySpfss(Ctx &c, const SpfssStep &prev, double ss, int64_t max_len) {
  auto p = std::make_unique<SpfssStep>(prev);
  switch (c.Choice(5)) {
    case 0: p->flip = !p->flip; break;
    case 1: p->t = VaryType(c, p->t, Bits(ss, p->sizes)); break;
    case 2: VaryVec(c, p->t.ring, &p->va); break;
    case 3: VaryVec(c, p->t.ring, &p->vb); break;
    default: VaryBatch(c, max_len, &p->sizes, &p->idx);
  }
  KeepAdmissible(c, &p->t, Bits(ss, p->sizes));
  p->va.resize(p->sizes.size(), p->t.ring.Red(1)), p->vb.resize(p->sizes.size(), 0);
  ReduceVec(p->t.ring, &p->va), ReduceVec(p->t.ring, &p->vb);
  if (p->sizes.size() != 1) p->api = 0;
  return p;
}
inline std::unique_ptr<MpfssStep> VaryMpfss(Ctx &c, const MpfssStep &prev, double ss) {
  auto p = std::make_unique<MpfssStep>(prev);
  size_t n = p->idx.size(), i = c.Choice(n - 1), j = c.Choice(n - 1);
  auto free_position = [&](int64_t start) -> int64_t {
    std::set<int64_t> used(p->idx.begin(), p->idx.end());
    for (int64_t k = 0; k < p->size; k++)
      if (!used.count((start + k) % p->size)) return (start + k) % p->size;
    return -1;
  };
  switch (c.Choice(9)) {
    case 0: p->flip = !p->flip; break;
    case 1: p->t = VaryType(c, p->t, ss + 1 + std::log2(3.0 * static_cast<double>(p->size) + 10)); break;
    case 2: VaryVec(c, p->t.ring, &p->y); break;
    case 3: p->x = VaryElement(c, p->t.ring, p->x); break;
    case 4: std::swap(p->idx[i], p->idx[j]); break;
    case 5:  // one index moves
    case 6: {
      int64_t k = free_position(c.Bool() ? p->idx[i] : c.Range(0, p->size - 1));
      if (k >= 0) p->idx[i] = k;
      break;
    }
    case 7: {  // the output one longer or one shorter
      if (c.Bool()) p->size++;
      else if (*std::max_element(p->idx.begin(), p->idx.end()) < p->size - 1) p->size--;
      break;
    }
    case 8:
      if (n > 1) p->idx.erase(p->idx.begin() + i), p->y.erase(p->y.begin() + i);
      break;
    default: {
      int64_t k = free_position(c.Range(0, p->size - 1));
      if (k >= 0) p->idx.push_back(k), p->y.push_back(p->t.ring.Red(1));
    }
  }
  KeepAdmissible(c, &p->t, ss + 1 + std::log2(3.0 * static_cast<double>(p->size) + 10));
  ReduceVec(p->t.ring, &p->y), p->x = p->t.ring.Red(p->x);
  if (c.Bool()) p->corr = c.Choice(UINT64_MAX);
  if (c.Bool()) p->pre[0].clear(), p->pre[1].clear();
  return p;
}
inline std::unique_ptr<GilboaStep> VaryGilboa(Ctx &c, const GilboaStep &prev) {
  auto p = std::make_unique<GilboaStep>(prev);
  switch (c.Choice(5)) {
    case 0: p->flip = !p->flip; break;
    case 1: p->t = VaryType(c, p->t); break;
    case 2: VaryVec(c, p->t.ring, &p->y); break;
    case 3: p->x = VaryElement(c, p->t.ring, p->x); break;
    case 4:
      if (!p->y.empty() && c.Bool()) p->y.pop_back();
      else p->y.push_back(p->t.ring.Red(p->y.empty() ? 1 : p->y.back()));
      break;
    default: {  // same vector but for the order
      if (!p->y.empty()) std::rotate(p->y.begin(), p->y.begin() + c.Choice(p->y.size() - 1), p->y.end());
    }
  }
  ReduceVec(p->t.ring, &p->y), p->x = p->t.ring.Red(p->x);
  return p;
}

typedef std::vector<std::unique_ptr<Step>> History;
// An earlier step of this kind to vary, or none.
template <class S>
const S *Earlier(Ctx &c, const History &h, size_t max_elements = 4000) {
  std::vector<const S *> found;
  for (auto &p : h)
    if (auto *s = dynamic_cast<const S *>(p->Core())) found.push_back(s);
  if (found.empty() || !c.Chance(1, 3)) return nullptr;
  auto *s = c.Bool() ? found.back() : c.Pick(found);
  return s->Elements() <= static_cast<int64_t>(max_elements) ? s : nullptr;
}
inline std::unique_ptr<AboStep> NextAbo(Ctx &c, const History &h, double ss, int64_t max_len) {
  if (auto *e = Earlier<AboStep>(c, h)) return VaryAbo(c, *e, ss, max_len);
  return DrawAbo(c, ss, max_len);
}
inline std::unique_ptr<SpfssStep> NextSpfss(Ctx &c, const History &h, double ss, int64_t max_len) {
  if (auto *e = Earlier<SpfssStep>(c, h)) return VarySpfss(c, *e, ss, max_len);
  return DrawSpfss(c, ss, max_len);
}
inline std::unique_ptr<MpfssStep> NextMpfss(Ctx &c, const History &h, double ss, int64_t max_len, int64_t max_idx) {
  if (auto *e = Earlier<MpfssStep>(c, h)) return VaryMpfss(c, *e, ss);
  return DrawMpfss(c, ss, max_len, max_idx);
}
inline std::unique_ptr<GilboaStep> NextGilboa(Ctx &c, const History &h, int64_t max_len) {
  if (auto *e = Earlier<GilboaStep>(c, h)) return VaryGilboa(c, *e);
  return DrawGilboa(c, max_len);
}
// The step, or where its type is not the first step's, the first step once more.
template <class S>
std::unique_ptr<S> OfSameType(const History &h, std::unique_ptr<S> p) {
  for (auto &q : h)
    if (auto *s = dynamic_cast<const S *>(q->Core())) {
      if (s->t.ops == p->t.ops && s->t.modulus == p->t.modulus) return p;
      return std::make_unique<S>(*s);
    }
  return p;
}
// How many runs a pair of instances sees in its life: enough for 8-bit counters
// to wrap around.
inline int DrawManyRuns(Ctx &c) { return static_cast<int>(c.Chance(1, 3) ? c.Range(40, 130) : c.Range(257, 1100)); }
inline void RunHistory(Ctx &c, Env &env, History &h) {
  Session &s = *env.s;
  c.Desc() << s.opt.Str() << "\n";
  for (auto &st : h) c.Desc() << "  " << st->Str() << "\n";
  s.Run([&] { for (auto &st : h) st->Do(env, 0); }, [&] { for (auto &st : h) st->Do(env, 1); });
  PBT_REQUIRE(c, s.net().Idle(), "messages are left in the channel after all runs");
  for (auto &st : h) st->Verify();
}
}  // namespace proto
#endif
