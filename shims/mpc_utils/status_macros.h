#ifndef VERIF_MPC_UTILS_STATUS_MACROS_H_
#define VERIF_MPC_UTILS_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define VERIF_SM_CONCAT_INNER_(a, b) a##b
#define VERIF_SM_CONCAT_(a, b) VERIF_SM_CONCAT_INNER_(a, b)
#define RETURN_IF_ERROR(...)                          \
  do {                                                \
    ::mpc_utils::Status verif_status_ = (__VA_ARGS__); \
    if (!verif_status_.ok()) return verif_status_;    \
  } while (false)
#define VERIF_ASSIGN_OR_RETURN_(tmp, lhs, ...) \
  auto tmp = (__VA_ARGS__);                    \
  if (!tmp.ok()) return tmp.status();          \
  lhs = std::move(tmp).ValueOrDie();
#define ASSIGN_OR_RETURN(lhs, ...) \
  VERIF_ASSIGN_OR_RETURN_(VERIF_SM_CONCAT_(verif_sor_, __COUNTER__), lhs, __VA_ARGS__)
#endif
