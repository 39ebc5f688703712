#ifndef VERIF_MPC_UTILS_BS_ABSEIL_HPP_
#define VERIF_MPC_UTILS_BS_ABSEIL_HPP_
#include <cstdint>
#include "absl/numeric/int128.h"
#include "boost/serialization/split_free.hpp"
namespace boost { namespace serialization {
template <class Archive>
void save(Archive &ar, const absl::uint128 &x, unsigned) {
  uint64_t lo = absl::Uint128Low64(x), hi = absl::Uint128High64(x);
  ar << lo << hi;
}
template <class Archive>
void load(Archive &ar, absl::uint128 &x, unsigned) {
  uint64_t lo, hi;
  ar >> lo >> hi;
  x = absl::MakeUint128(hi, lo);
}
template <class Archive>
void serialize(Archive &ar, absl::uint128 &x, unsigned v) {
  split_free(ar, x, v);
}
}}  // namespace boost::serialization
#endif
