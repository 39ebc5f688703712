#ifndef VERIF_MPC_UTILS_STATUSOR_H_
#define VERIF_MPC_UTILS_STATUSOR_H_
#include <stdexcept>
#include <type_traits>
#include <utility>

#include "absl/types/optional.h"
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/status.h"
namespace mpc_utils {

template <typename T>
class StatusOr {
  template <typename U>
  friend class StatusOr;

 public:
  using element_type = T;
  using value_type = T;
  StatusOr() : status_(UnknownError("Uninitialized StatusOr")) {}
  StatusOr(const StatusOr &) = default;
  StatusOr(StatusOr &&) = default;
  StatusOr &operator=(const StatusOr &) = default;
  StatusOr &operator=(StatusOr &&) = default;
  StatusOr(const Status &status) : status_(status) { CheckNotOk(); }
  StatusOr(Status &&status) : status_(std::move(status)) { CheckNotOk(); }
  template <typename U = T,
            typename std::enable_if<
                std::is_convertible<U &&, T>::value &&
                    !std::is_same<typename std::decay<U>::type,
                                  StatusOr>::value &&
                    !std::is_same<typename std::decay<U>::type, Status>::value,
                int>::type = 0>
  StatusOr(U &&value) : value_(std::forward<U>(value)) {}
  template <typename U, typename std::enable_if<
                            !std::is_same<U, T>::value &&
                                std::is_convertible<const U &, T>::value,
                            int>::type = 0>
  StatusOr(const StatusOr<U> &other) : status_(other.status_) {
    if (other.value_) value_.emplace(*other.value_);
  }
  template <typename U,
            typename std::enable_if<!std::is_same<U, T>::value &&
                                        std::is_convertible<U &&, T>::value,
                                    int>::type = 0>
  StatusOr(StatusOr<U> &&other) : status_(other.status_) {
    if (other.value_) value_.emplace(std::move(*other.value_));
  }

  bool ok() const { return value_.has_value(); }
  explicit operator bool() const { return ok(); }
  const Status &status() const & { return status_; }
  Status status() && { return status_; }

  const T &ValueOrDie() const & { Check(); return *value_; }
  T &ValueOrDie() & { Check(); return *value_; }
  T &&ValueOrDie() && { Check(); return std::move(*value_); }
  const T &value() const & { Check(); return *value_; }
  T &value() & { Check(); return *value_; }
  T &&value() && { Check(); return std::move(*value_); }
  const T &operator*() const & { Check(); return *value_; }
  T &operator*() & { Check(); return *value_; }
  T &&operator*() && { Check(); return std::move(*value_); }
  const T *operator->() const { Check(); return &*value_; }
  T *operator->() { Check(); return &*value_; }

 private:
  void Check() const {
    if (!value_) throw std::runtime_error("ValueOrDie: " + status_.ToString());
  }
  void CheckNotOk() {
    if (status_.ok())
      status_ = InternalError("Status::OK is not a valid argument to StatusOr");
  }
  Status status_;
  absl::optional<T> value_;
};

}  // namespace mpc_utils
#endif
