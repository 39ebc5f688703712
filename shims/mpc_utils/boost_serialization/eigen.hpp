#ifndef VERIF_MPC_UTILS_BS_EIGEN_HPP_
#define VERIF_MPC_UTILS_BS_EIGEN_HPP_
#include "Eigen/Dense"
#include "boost/serialization/split_free.hpp"
#include "mpc_utils/boost_serialization/abseil.hpp"
#include "mpc_utils/boost_serialization/ntl.hpp"
namespace boost { namespace serialization {
template <class Archive, typename S, int R, int C, int O, int MR, int MC>
void save(Archive &ar, const Eigen::Matrix<S, R, C, O, MR, MC> &m, unsigned) {
  int64_t rows = m.rows(), cols = m.cols();
  ar << rows << cols;
  for (int64_t i = 0; i < rows * cols; i++) ar << m.data()[i];
}
template <class Archive, typename S, int R, int C, int O, int MR, int MC>
void load(Archive &ar, Eigen::Matrix<S, R, C, O, MR, MC> &m, unsigned) {
  int64_t rows, cols;
  ar >> rows >> cols;
  m.resize(rows, cols);
  for (int64_t i = 0; i < rows * cols; i++) ar >> m.data()[i];
}
template <class Archive, typename S, int R, int C, int O, int MR, int MC>
void serialize(Archive &ar, Eigen::Matrix<S, R, C, O, MR, MC> &m, unsigned v) {
  split_free(ar, m, v);
}
}}  // namespace boost::serialization
#endif
