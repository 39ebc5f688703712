// Compiled once per scalar type with -DVERIF_SCALAR=<kind> and the protocols
// wanted: VERIF_ABO, VERIF_SPFSS, VERIF_MPFSS, VERIF_GILBOA, VERIF_VOLE.
#include <bits/stdc++.h>
#include <omp.h>

#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <thread>

#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "boost/serialization/vector.hpp"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "proto_ops.h"
#ifdef VERIF_VOLE
#define private public
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef private
#endif

#if VERIF_SCALAR == 0
typedef uint8_t TheScalar;
#define VERIF_KIND sc::kU8
#elif VERIF_SCALAR == 1
typedef uint16_t TheScalar;
#define VERIF_KIND sc::kU16
#elif VERIF_SCALAR == 2
typedef uint32_t TheScalar;
#define VERIF_KIND sc::kU32
#elif VERIF_SCALAR == 3
typedef uint64_t TheScalar;
#define VERIF_KIND sc::kU64
#elif VERIF_SCALAR == 4
typedef absl::uint128 TheScalar;
#define VERIF_KIND sc::kU128
#elif VERIF_SCALAR == 5
typedef distributed_vector_ole::gf128 TheScalar;
#define VERIF_KIND sc::kGf
#elif VERIF_SCALAR == 6
typedef NTL::ZZ_p TheScalar;
#define VERIF_KIND sc::kZZp
#elif VERIF_SCALAR == 7
typedef NTL::zz_p TheScalar;
#define VERIF_KIND sc::kzzp
#endif

namespace proto {
namespace {
using mpc_utils::Status;
using mpc_utils::StatusOr;
typedef TheScalar T;
typedef sc::Tr<T> Tr;

Res FromStatus(const Status &s) {
  Res r;
  r.ok = s.ok();
  r.code = static_cast<int>(s.code());
  r.msg = std::string(s.message());
  return r;
}

// A buffer with guard elements on both sides (exact under the sanitizers, which
// watch the borders themselves).
class Buf {
 public:
#ifdef VERIF_SANITIZED
  static constexpr int kG = 0;
#else
  static constexpr int kG = 3;
#endif
  explicit Buf(const U &v) : n_(v.size()), d_(n_ + 2 * kG) {
    for (int i = 0; i < kG; i++) d_[i] = d_[kG + n_ + i] = Guard(i);
    for (size_t i = 0; i < n_; i++) d_[kG + i] = Tr::FromInt(v[i]);
  }
  absl::Span<T> span() { return absl::Span<T>(d_.data() + kG, n_); }
  absl::Span<const T> cspan() { return absl::Span<const T>(d_.data() + kG, n_); }
  void Out(U *v) const {
    for (size_t i = 0; i < n_; i++) (*v)[i] = Tr::ToInt(d_[kG + i]);
  }
  bool Intact() const {
    for (int i = 0; i < kG; i++)
      if (Tr::ToInt(d_[i]) != Tr::ToInt(Guard(i)) || Tr::ToInt(d_[kG + n_ + i]) != Tr::ToInt(Guard(i))) return false;
    return true;
  }
  bool Same(const U &v) const {
    for (size_t i = 0; i < n_; i++)
      if (Tr::ToInt(d_[kG + i]) != v[i]) return false;
    return true;
  }

 private:
  static T Guard(int i) { return Tr::FromInt(static_cast<u128>(i % 2)); }
  size_t n_;
  std::vector<T> d_;
};
U Ints(const std::vector<T> &v) {
  U r;
  for (auto &x : v) r.push_back(Tr::ToInt(x));
  return r;
}
struct Outs {
  std::vector<Buf> b;
  std::vector<absl::Span<T>> spans;
  explicit Outs(const std::vector<U> &o) {
    b.reserve(o.size());
    for (auto &x : o) b.emplace_back(x);
    for (auto &x : b) spans.push_back(x.span());
  }
  void Done(std::vector<U> *o, Res *r) {
    for (size_t i = 0; i < b.size(); i++) {
      b[i].Out(&(*o)[i]);
      if (!b[i].Intact()) r->bad += "elements around output " + std::to_string(i) + " were overwritten; ";
    }
  }
};

#ifdef VERIF_ABO
Res AboSend(dv::AllButOneRandomOT &p, std::vector<U> &outs, bool single) {
  Outs o(outs);
  Res r = FromStatus(single ? p.RunSender<T>(o.spans[0]) : p.RunSenderBatched<T>(absl::MakeSpan(o.spans)));
  o.Done(&outs, &r);
  return r;
}
Res AboRecv(dv::AllButOneRandomOT &p, const std::vector<int64_t> &idx, std::vector<U> &outs, bool single) {
  Outs o(outs);
  Res r = FromStatus(single ? p.RunReceiver<T>(idx[0], o.spans[0])
                            : p.RunReceiverBatched<T>(absl::MakeConstSpan(idx), absl::MakeSpan(o.spans)));
  o.Done(&outs, &r);
  return r;
}
#endif
#ifdef VERIF_SPFSS
Res SpfssValue(dv::SPFSSKnownIndex &p, const U &shares, std::vector<U> &outs, int api) {
  if (api == 2) {
    auto s = p.RunValueProvider<T>(Tr::FromInt(shares[0]), static_cast<int64_t>(outs[0].size()));
    Res r = FromStatus(s.status());
    if (s.ok()) {
      size_t n = outs[0].size();
      outs[0] = Ints(s.ValueOrDie());
      if (outs[0].size() != n) r.bad = "result of wrong length";
    }
    return r;
  }
  Buf in(shares);
  Outs o(outs);
  Res r = FromStatus(api == 1 ? p.RunValueProvider<T>(Tr::FromInt(shares[0]), o.spans[0])
                              : p.RunValueProviderBatched<T>(in.cspan(), absl::MakeSpan(o.spans)));
  o.Done(&outs, &r);
  if (!in.Intact() || !in.Same(shares)) r.bad += "inputs were overwritten";
  return r;
}
Res SpfssIndex(dv::SPFSSKnownIndex &p, const U &shares, const std::vector<int64_t> &idx, std::vector<U> &outs, int api) {
  if (api == 2) {
    auto s = p.RunIndexProvider<T>(Tr::FromInt(shares[0]), idx[0], static_cast<int64_t>(outs[0].size()));
    Res r = FromStatus(s.status());
    if (s.ok()) {
      size_t n = outs[0].size();
      outs[0] = Ints(s.ValueOrDie());
      if (outs[0].size() != n) r.bad = "result of wrong length";
    }
    return r;
  }
  Buf in(shares);
  Outs o(outs);
  Res r = FromStatus(api == 1 ? p.RunIndexProvider<T>(Tr::FromInt(shares[0]), idx[0], o.spans[0])
                              : p.RunIndexProviderBatched<T>(in.cspan(), absl::MakeConstSpan(idx), absl::MakeSpan(o.spans)));
  o.Done(&outs, &r);
  if (!in.Intact() || !in.Same(shares)) r.bad += "inputs were overwritten";
  return r;
}
#endif
#ifdef VERIF_MPFSS
Res MpfssValue(dv::MPFSSKnownIndices &p, u128 x, int y_len, const U &w, U &out) {
  Buf bw(w), o(out);
  Res r = FromStatus(p.RunValueProviderVectorOLE<T>(Tr::FromInt(x), y_len, bw.cspan(), o.span()));
  o.Out(&out);
  if (!o.Intact()) r.bad += "elements around the output were overwritten; ";
  if (!bw.Intact() || !bw.Same(w)) r.bad += "inputs were overwritten";
  return r;
}
Res MpfssIndex(dv::MPFSSKnownIndices &p, const U &y, const std::vector<int64_t> &idx, const U &u, const U &v, U &out) {
  Buf by(y), bu(u), bv(v), o(out);
  Res r = FromStatus(p.RunIndexProviderVectorOLE<T>(by.cspan(), absl::MakeConstSpan(idx), bu.cspan(), bv.cspan(), o.span()));
  o.Out(&out);
  if (!o.Intact()) r.bad += "elements around the output were overwritten; ";
  if (!by.Intact() || !bu.Intact() || !bv.Intact() || !by.Same(y) || !bu.Same(u) || !bv.Same(v)) r.bad += "inputs were overwritten";
  return r;
}
#endif
#ifdef VERIF_GILBOA
Res GilVec(dv::ScalarVectorGilboaProduct &p, const U &y, U &out, int api) {
  Buf by(y);
  Res r;
  if (api == 1) {
    auto s = p.RunVectorProvider<T>(by.cspan());
    r = FromStatus(s.status());
    if (s.ok()) out = Ints(s.ValueOrDie());
  } else {
    Buf o(out);
    r = FromStatus(p.RunVectorProvider<T>(by.cspan(), o.span()));
    o.Out(&out);
    if (!o.Intact()) r.bad += "elements around the output were overwritten; ";
  }
  if (!by.Intact() || !by.Same(y)) r.bad += "inputs were overwritten";
  return r;
}
Res GilVal(dv::ScalarVectorGilboaProduct &p, u128 x, int64_t n, U &out, int api) {
  if (api == 1) {
    auto s = p.RunValueProvider<T>(Tr::FromInt(x), n);
    Res r = FromStatus(s.status());
    if (s.ok()) out = Ints(s.ValueOrDie());
    return r;
  }
  Buf o(out);
  Res r = FromStatus(p.RunValueProvider<T>(Tr::FromInt(x), o.span()));
  o.Out(&out);
  if (!o.Intact()) r.bad += "elements around the output were overwritten; ";
  return r;
}
#endif
#ifdef VERIF_VOLE
template <class V>
U VecInts(const V &v) {
  U r;
  for (int64_t i = 0; i < static_cast<int64_t>(v.size()); i++) r.push_back(Tr::ToInt(v.data()[i]));
  return r;
}
template <class P>
auto SenderSeeds(const P &p, VoleSeeds *o, int) -> decltype(p.sender_vole_seed_.u, p.sender_mpfss_seed_.u, bool()) {
  o->vole_u = VecInts(p.sender_vole_seed_.u), o->vole_v = VecInts(p.sender_vole_seed_.v);
  o->mpfss_u = VecInts(p.sender_mpfss_seed_.u), o->mpfss_v = VecInts(p.sender_mpfss_seed_.v);
  return true;
}
template <class P>
bool SenderSeeds(const P &, VoleSeeds *, long) {
  return false;
}
struct VoleImpl : Vole {
  std::unique_ptr<dv::DistributedVectorOLE<T>> p;
  Res PreSender(int64_t b) override { return FromStatus(p->PrecomputeSender(b)); }
  Res PreReceiver(int64_t b, const u128 *delta) override {
    return FromStatus(delta ? p->PrecomputeReceiver(b, Tr::FromInt(*delta)) : p->PrecomputeReceiver(b));
  }
  Res RunSender(int64_t n, U *u, U *v) override {
    auto s = p->RunSender(n);
    Res r = FromStatus(s.status());
    if (s.ok()) *u = VecInts(s.ValueOrDie().u), *v = VecInts(s.ValueOrDie().v);
    return r;
  }
  Res RunReceiver(int64_t n, U *w, u128 *delta) override {
    auto s = p->RunReceiver(n);
    Res r = FromStatus(s.status());
    if (s.ok()) *w = VecInts(s.ValueOrDie().w), *delta = Tr::ToInt(s.ValueOrDie().delta);
    return r;
  }
  bool Seeds(VoleSeeds *o) override { return SenderSeeds(*p, o, 0); }
};
Res VoleCreate(mpc_utils::comm_channel *c, double ss, std::unique_ptr<Vole> *out) {
  auto s = dv::DistributedVectorOLE<T>::Create(c, ss);
  Res r = FromStatus(s.status());
  if (s.ok()) {
    auto v = std::make_unique<VoleImpl>();
    v->p = std::move(s.ValueOrDie());
    *out = std::move(v);
  }
  return r;
}
#endif
template <class V>
bool TryDecode(const std::string &bytes, U *out) {
  try {
    std::istringstream is(bytes, std::ios::binary);
    boost::archive::binary_iarchive ar(is, boost::archive::no_header | boost::archive::no_tracking);
    V v;
    ar >> v;
    if (is.peek() != std::istringstream::traits_type::eof()) return false;
    out->clear();
    for (int64_t i = 0; i < static_cast<int64_t>(v.size()); i++) out->push_back(Tr::ToInt(v.data()[i]));
    return true;
  } catch (...) {
    return false;
  }
}
bool Decode(const std::string &bytes, U *out) {
  if (bytes.size() < 8) return false;
  uint64_t a = 0, b = 0;
  memcpy(&a, bytes.data(), 8);
  if (bytes.size() >= 16) memcpy(&b, bytes.data() + 8, 8);
  if (bytes.size() >= 16 && a == 1 && b <= bytes.size() && TryDecode<Eigen::Matrix<T, 1, Eigen::Dynamic>>(bytes, out)) return true;
  if (a <= bytes.size()) return TryDecode<std::vector<T>>(bytes, out);
  return false;
}
u128 Installed() {
#if VERIF_SCALAR == 6
  return sc::FromZZ(NTL::ZZ_p::modulus());
#elif VERIF_SCALAR == 7
  return static_cast<u128>(NTL::zz_p::modulus());
#else
  return 0;
#endif
}
int SizeOf() { return dv::ScalarHelper<T>::SizeOf(); }

Ops Make() {
  Ops o;
  o.kind = VERIF_KIND;
  o.name = Tr::Name();
  o.modular = Tr::kModular;
  o.install = &Tr::Install;
  o.installed = &Installed;
  o.decode = &Decode;
  o.size_of = &SizeOf;
#ifdef VERIF_ABO
  o.abo_send = &AboSend;
  o.abo_recv = &AboRecv;
#endif
#ifdef VERIF_SPFSS
  o.spfss_value = &SpfssValue;
  o.spfss_index = &SpfssIndex;
#endif
#ifdef VERIF_MPFSS
  o.mpfss_value = &MpfssValue;
  o.mpfss_index = &MpfssIndex;
#endif
#ifdef VERIF_GILBOA
  o.gil_vec = &GilVec;
  o.gil_val = &GilVal;
#endif
#ifdef VERIF_VOLE
  o.vole_create = &VoleCreate;
#endif
  return o;
}
const Ops kOps = Make();
struct Reg {
  Reg() { AllOps().push_back(&kOps); }
} reg;
}  // namespace
}  // namespace proto
