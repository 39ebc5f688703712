#ifndef VERIF_MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#define VERIF_MPC_UTILS_COMM_CHANNEL_EMP_ADAPTER_HPP_
#include "mpc_utils/canonical_errors.h"
#include "mpc_utils/comm_channel.hpp"
namespace mpc_utils {
class CommChannelEMPAdapter {
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(
      comm_channel *channel, bool direct_connection = false, int sleep_ms = 10) {
    if (!channel) return InvalidArgumentError("`channel` must not be NULL");
    int lane = 0;
    if (direct_connection) {
      // Both parties have to open the connection.
      lane = channel->verif_new_lane();
      auto &net = channel->verif_net_ref();
      net.Send(channel->verif_side(), lane, verif_net::Kind::kSync, "");
      net.Flush(channel->verif_side(), lane);
      net.Recv(channel->verif_side(), lane, verif_net::Kind::kSync);
    }
    return absl::WrapUnique(new CommChannelEMPAdapter(channel, lane));
  }
  void send_data(const void *data, int64_t n) {
    net_->Send(id_, lane_, verif_net::Kind::kRaw,
               std::string(static_cast<const char *>(data), n));
  }
  void recv_data(void *data, int64_t n) { net_->RecvRaw(id_, lane_, data, n); }
  void flush() { net_->Flush(id_, lane_); }
  void sync() {
    net_->Send(id_, lane_, verif_net::Kind::kSync, "");
    net_->Flush(id_, lane_);
    net_->Recv(id_, lane_, verif_net::Kind::kSync);
  }
  template <typename B>
  void send_block(const B *data, int n) { send_data(data, n * sizeof(B)); }
  template <typename B>
  void recv_block(B *data, int n) { recv_data(data, n * sizeof(B)); }

  // Stand-in internals, used by the ideal OT functionality.
  verif_net::Net &verif_net_ref() { return *net_; }
  int verif_id() const { return id_; }
  int verif_lane() const { return lane_; }

 private:
  CommChannelEMPAdapter(comm_channel *c, int lane)
      : net_(c->verif_net_ptr()), id_(c->verif_side()), lane_(lane) {}
  std::shared_ptr<verif_net::Net> net_;
  int id_, lane_;
};
}  // namespace mpc_utils
#endif
