// With VERIF_TINY the harness brings its own, small table (it is linked first).
// Left out when the header does not want one.
#include <bits/stdc++.h>
#include <omp.h>


#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "boost/serialization/vector.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "distributed_vector_ole/distributed_vector_ole.h"

namespace distributed_vector_ole {
decltype(VOLEParameters::output_size) VOLEParameters::output_size = {128, 256, 512, 1400, 3000};
decltype(VOLEParameters::seed_size) VOLEParameters::seed_size = {7, 15, 40, 90, 200};
decltype(VOLEParameters::num_noise_indices) VOLEParameters::num_noise_indices = {4, 8, 12, 20, 32};
}  // namespace distributed_vector_ole
