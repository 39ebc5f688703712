// The number of nonzeros that goes with the small table.
#include <bits/stdc++.h>
#include <omp.h>


#include "Eigen/Dense"
#include "Eigen/Sparse"
#include "absl/container/flat_hash_set.h"
#include "boost/serialization/vector.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/eigen.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
#include "distributed_vector_ole/distributed_vector_ole.h"

#ifndef VERIF_NONZEROS
#define VERIF_NONZEROS 4
#endif
namespace distributed_vector_ole {
decltype(VOLEParameters::kCodeGeneratorNonzeros) VOLEParameters::kCodeGeneratorNonzeros = VERIF_NONZEROS;
}  // namespace distributed_vector_ole
