#ifndef VERIF_MPC_UTILS_BENCHMARKER_HPP_
#define VERIF_MPC_UTILS_BENCHMARKER_HPP_
#include <string>
namespace mpc_utils {
class Benchmarker {
 public:
  template <typename F>
  static void BenchmarkFunction(const std::string &, Benchmarker *, F f) { f(); }
  template <typename F>
  void AddSecondsSinceStart(const std::string &, F) {}
  void AddAmount(const std::string &, double) {}
};
}  // namespace mpc_utils
using benchmarker = mpc_utils::Benchmarker;
#endif
