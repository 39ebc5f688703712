#ifndef VERIF_MPC_UTILS_STATUS_MATCHERS_H_
#define VERIF_MPC_UTILS_STATUS_MATCHERS_H_
#include "gtest/gtest.h"
#include "mpc_utils/status_macros.h"
#include "mpc_utils/statusor.h"
#define VERIF_ASSERT_OK_AND_ASSIGN_(tmp, lhs, ...)             \
  auto tmp = (__VA_ARGS__);                                    \
  ASSERT_TRUE(tmp.ok()) << tmp.status();                       \
  lhs = std::move(tmp).ValueOrDie();
#define ASSERT_OK_AND_ASSIGN(lhs, ...) \
  VERIF_ASSERT_OK_AND_ASSIGN_(VERIF_SM_CONCAT_(verif_sor_, __COUNTER__), lhs, __VA_ARGS__)
namespace mpc_utils { namespace testing_internal {
inline const Status& ToStatus(const Status& s) { return s; }
template <typename T> Status ToStatus(const StatusOr<T>& s) { return s.status(); }
}}
#define ASSERT_OK(...) ASSERT_TRUE((__VA_ARGS__).ok())
#define EXPECT_OK(...) EXPECT_TRUE((__VA_ARGS__).ok())
#endif
