// Stand-in for mpc_utils/status.h (the dependency is not installed here).
#ifndef VERIF_MPC_UTILS_STATUS_H_
#define VERIF_MPC_UTILS_STATUS_H_
#include <memory>
#include <ostream>
#include <string>
#include <utility>

#include "absl/strings/string_view.h"

namespace mpc_utils {

enum class StatusCode : int {
  kOk = 0,
  kCancelled = 1,
  kUnknown = 2,
  kInvalidArgument = 3,
  kDeadlineExceeded = 4,
  kNotFound = 5,
  kAlreadyExists = 6,
  kPermissionDenied = 7,
  kResourceExhausted = 8,
  kFailedPrecondition = 9,
  kAborted = 10,
  kOutOfRange = 11,
  kUnimplemented = 12,
  kInternal = 13,
  kUnavailable = 14,
  kDataLoss = 15,
  kUnauthenticated = 16,
};

inline std::string StatusCodeToString(StatusCode c) {
  switch (c) {
    case StatusCode::kOk: return "OK";
    case StatusCode::kCancelled: return "CANCELLED";
    case StatusCode::kUnknown: return "UNKNOWN";
    case StatusCode::kInvalidArgument: return "INVALID_ARGUMENT";
    case StatusCode::kDeadlineExceeded: return "DEADLINE_EXCEEDED";
    case StatusCode::kNotFound: return "NOT_FOUND";
    case StatusCode::kAlreadyExists: return "ALREADY_EXISTS";
    case StatusCode::kPermissionDenied: return "PERMISSION_DENIED";
    case StatusCode::kResourceExhausted: return "RESOURCE_EXHAUSTED";
    case StatusCode::kFailedPrecondition: return "FAILED_PRECONDITION";
    case StatusCode::kAborted: return "ABORTED";
    case StatusCode::kOutOfRange: return "OUT_OF_RANGE";
    case StatusCode::kUnimplemented: return "UNIMPLEMENTED";
    case StatusCode::kInternal: return "INTERNAL";
    case StatusCode::kUnavailable: return "UNAVAILABLE";
    case StatusCode::kDataLoss: return "DATA_LOSS";
    case StatusCode::kUnauthenticated: return "UNAUTHENTICATED";
  }
  return "UNKNOWN";
}
inline std::ostream &operator<<(std::ostream &os, StatusCode c) {
  return os << StatusCodeToString(c);
}

class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, absl::string_view message)
      : code_(code),
        message_(code == StatusCode::kOk
                     ? std::string()
                     : std::string(message.data(), message.size())) {}
  static Status OK() { return Status(); }
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int error_code() const { return static_cast<int>(code_); }
  const std::string &message() const { return message_; }
  const std::string &error_message() const { return message_; }
  std::string ToString() const {
    return ok() ? "OK" : StatusCodeToString(code_) + ": " + message_;
  }
  void Update(const Status &s) {
    if (ok()) *this = s;
  }
  void IgnoreError() const {}
  friend bool operator==(const Status &a, const Status &b) {
    return a.code_ == b.code_ && a.message_ == b.message_;
  }
  friend bool operator!=(const Status &a, const Status &b) { return !(a == b); }
  friend std::ostream &operator<<(std::ostream &os, const Status &s) {
    return os << s.ToString();
  }

 private:
  StatusCode code_;
  std::string message_;
};

inline Status OkStatus() { return Status(); }

}  // namespace mpc_utils
#endif
