#ifndef VERIF_MPC_UTILS_TESTING_HELPER_HPP_
#define VERIF_MPC_UTILS_TESTING_HELPER_HPP_
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils { namespace testing {
class CommChannelTestHelper {
 public:
  explicit CommChannelTestHelper(bool measure_communication = false)
      : net_(std::make_shared<verif_net::Net>()),
        c0_(net_, 0, measure_communication),
        c1_(net_, 1, measure_communication) {}
  comm_channel *GetChannel(int i) { return i == 0 ? &c0_ : &c1_; }
  verif_net::Net &net() { return *net_; }

 private:
  std::shared_ptr<verif_net::Net> net_;
  comm_channel c0_, c1_;
};
}}  // namespace mpc_utils::testing
#endif
