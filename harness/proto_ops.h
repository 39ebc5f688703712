// Type-erased access to the protocols: one table of functions per scalar type,
// all values as canonical 128-bit integers.
#ifndef VERIF_PROTO_OPS_H_
#define VERIF_PROTO_OPS_H_
#include <memory>
#include <string>
#include <vector>

#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#include "distributed_vector_ole/spfss_known_index.h"
#include "scalars.h"

namespace proto {
using pbt::u128;
using U = std::vector<u128>;
namespace dv = distributed_vector_ole;

struct Res {
  bool ok = false;
  int code = 0;
  std::string msg;
  std::string bad;  // something went wrong besides the status (guards, sizes)
  bool invalid() const { return code == 3; }
};

struct VoleSeeds {
  U vole_u, vole_v, mpfss_u, mpfss_v;
};
struct Vole {
  virtual ~Vole() {}
  virtual Res PreSender(int64_t batch) = 0;
  virtual Res PreReceiver(int64_t batch, const u128 *delta) = 0;
  virtual Res RunSender(int64_t n, U *u, U *v) = 0;
  virtual Res RunReceiver(int64_t n, U *w, u128 *delta) = 0;
  // The sender's internal seeds, if the implementation still has members of
  // these names.
  virtual bool Seeds(VoleSeeds *out) = 0;
};

struct Ops {
  sc::Kind kind;
  const char *name;
  bool modular = false;
  void (*install)(u128 modulus) = nullptr;
  // What is currently installed on this thread (0 for 2^128 or none).
  u128 (*installed)() = nullptr;
  // The sizes and prior contents of the output buffers are those of `outs`.
  Res (*abo_send)(dv::AllButOneRandomOT &, std::vector<U> &outs, bool single) = nullptr;
  Res (*abo_recv)(dv::AllButOneRandomOT &, const std::vector<int64_t> &idx, std::vector<U> &outs, bool single) = nullptr;
  // api: 0 batched, 1 single, 2 single returning a vector
  Res (*spfss_value)(dv::SPFSSKnownIndex &, const U &shares, std::vector<U> &outs, int api) = nullptr;
  Res (*spfss_index)(dv::SPFSSKnownIndex &, const U &shares, const std::vector<int64_t> &idx, std::vector<U> &outs, int api) = nullptr;
  Res (*mpfss_value)(dv::MPFSSKnownIndices &, u128 x, int y_len, const U &w, U &out) = nullptr;
  Res (*mpfss_index)(dv::MPFSSKnownIndices &, const U &y, const std::vector<int64_t> &idx, const U &u, const U &v, U &out) = nullptr;
  // api: 0 span, 1 returning a vector
  Res (*gil_vec)(dv::ScalarVectorGilboaProduct &, const U &y, U &out, int api) = nullptr;
  Res (*gil_val)(dv::ScalarVectorGilboaProduct &, u128 x, int64_t n, U &out, int api) = nullptr;
  Res (*vole_create)(mpc_utils::comm_channel *, double ss, std::unique_ptr<Vole> *) = nullptr;
  // Decodes a serialised vector of scalars (std::vector or row vector).
  bool (*decode)(const std::string &bytes, U *out) = nullptr;
  // Modular types and the field: distance of converted 128-bit integers etc.
  int (*size_of)() = nullptr;
};
// Tables that were linked in.
std::vector<const Ops *> &AllOps();
const Ops *GetOps(sc::Kind k);
}  // namespace proto
#endif
