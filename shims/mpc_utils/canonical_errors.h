#ifndef VERIF_MPC_UTILS_CANONICAL_ERRORS_H_
#define VERIF_MPC_UTILS_CANONICAL_ERRORS_H_
#include "mpc_utils/status.h"
namespace mpc_utils {
#define VERIF_CANONICAL_(Name)                              \
  inline Status Name##Error(absl::string_view message) {    \
    return Status(StatusCode::k##Name, message);            \
  }                                                         \
  inline bool Is##Name(const Status &status) {              \
    return status.code() == StatusCode::k##Name;            \
  }
VERIF_CANONICAL_(Cancelled)
VERIF_CANONICAL_(Unknown)
VERIF_CANONICAL_(InvalidArgument)
VERIF_CANONICAL_(DeadlineExceeded)
VERIF_CANONICAL_(NotFound)
VERIF_CANONICAL_(AlreadyExists)
VERIF_CANONICAL_(PermissionDenied)
VERIF_CANONICAL_(ResourceExhausted)
VERIF_CANONICAL_(FailedPrecondition)
VERIF_CANONICAL_(Aborted)
VERIF_CANONICAL_(OutOfRange)
VERIF_CANONICAL_(Unimplemented)
VERIF_CANONICAL_(Internal)
VERIF_CANONICAL_(Unavailable)
VERIF_CANONICAL_(DataLoss)
VERIF_CANONICAL_(Unauthenticated)
#undef VERIF_CANONICAL_
}  // namespace mpc_utils
#endif
