#ifndef VERIF_MPC_UTILS_BS_NTL_HPP_
#define VERIF_MPC_UTILS_BS_NTL_HPP_
#include <cstdint>
#include <vector>
#include "NTL/ZZ.h"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "NTL/vector.h"
#include "boost/serialization/split_free.hpp"
#include "boost/serialization/vector.hpp"
namespace boost { namespace serialization {
template <class Archive>
void save(Archive &ar, const NTL::ZZ &x, unsigned) {
  int64_t sign = NTL::sign(x);
  std::vector<unsigned char> bytes(NTL::NumBytes(x));
  NTL::BytesFromZZ(bytes.data(), x, bytes.size());
  ar << sign << bytes;
}
template <class Archive>
void load(Archive &ar, NTL::ZZ &x, unsigned) {
  int64_t sign;
  std::vector<unsigned char> bytes;
  ar >> sign >> bytes;
  NTL::ZZFromBytes(x, bytes.data(), bytes.size());
  if (sign < 0) NTL::negate(x, x);
}
template <class Archive>
void serialize(Archive &ar, NTL::ZZ &x, unsigned v) { split_free(ar, x, v); }

// The length depends on the modulus only.
template <class Archive>
void save(Archive &ar, const NTL::ZZ_p &x, unsigned) {
  std::vector<unsigned char> bytes(NTL::NumBytes(NTL::ZZ_p::modulus()));
  NTL::BytesFromZZ(bytes.data(), NTL::rep(x), bytes.size());
  ar << bytes;
}
template <class Archive>
void load(Archive &ar, NTL::ZZ_p &x, unsigned) {
  std::vector<unsigned char> bytes;
  ar >> bytes;
  x = NTL::conv<NTL::ZZ_p>(NTL::ZZFromBytes(bytes.data(), bytes.size()));
}
template <class Archive>
void serialize(Archive &ar, NTL::ZZ_p &x, unsigned v) { split_free(ar, x, v); }

template <class Archive>
void save(Archive &ar, const NTL::zz_p &x, unsigned) {
  int64_t r = NTL::rep(x);
  ar << r;
}
template <class Archive>
void load(Archive &ar, NTL::zz_p &x, unsigned) {
  int64_t r;
  ar >> r;
  x = NTL::conv<NTL::zz_p>(static_cast<long>(r));
}
template <class Archive>
void serialize(Archive &ar, NTL::zz_p &x, unsigned v) { split_free(ar, x, v); }

template <class Archive, typename T>
void save(Archive &ar, const NTL::Vec<T> &x, unsigned) {
  int64_t n = x.length();
  ar << n;
  for (int64_t i = 0; i < n; i++) ar << x[i];
}
template <class Archive, typename T>
void load(Archive &ar, NTL::Vec<T> &x, unsigned) {
  int64_t n;
  ar >> n;
  x.SetLength(n);
  for (int64_t i = 0; i < n; i++) ar >> x[i];
}
template <class Archive, typename T>
void serialize(Archive &ar, NTL::Vec<T> &x, unsigned v) { split_free(ar, x, v); }
}}  // namespace boost::serialization
#endif
