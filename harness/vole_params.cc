// Access to the parameter sets through the header that declares them.
#include <bits/stdc++.h>
#include <omp.h>


#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "boost/serialization/vector.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "distributed_vector_ole/distributed_vector_ole.h"
#include "vole_params.h"

namespace proto {
typedef distributed_vector_ole::VOLEParameters P;
int64_t VoleParam(int which, int64_t i) {
  auto get = [i](const auto &l) { return static_cast<int64_t>(i < 0 ? static_cast<int64_t>(l.size()) : static_cast<int64_t>(l[i])); };
  return which == 0 ? get(P::output_size) : which == 1 ? get(P::seed_size) : get(P::num_noise_indices);
}
int64_t VoleNonzeros() { return static_cast<int64_t>(P::kCodeGeneratorNonzeros); }
}  // namespace proto
