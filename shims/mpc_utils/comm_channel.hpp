#ifndef VERIF_MPC_UTILS_COMM_CHANNEL_HPP_
#define VERIF_MPC_UTILS_COMM_CHANNEL_HPP_
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>

#include "absl/memory/memory.h"
#include "boost/archive/binary_iarchive.hpp"
#include "boost/archive/binary_oarchive.hpp"
#include "boost/serialization/string.hpp"
#include "boost/serialization/utility.hpp"
#include "boost/serialization/vector.hpp"
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#include "verif_net.h"

namespace mpc_utils {

class comm_channel {
 public:
  // `id` is the side of the network, 0 or 1. The party numbers default to it.
  comm_channel(std::shared_ptr<verif_net::Net> net, int id, bool measured,
               int number = -1, int peer_number = -1)
      : net_(std::move(net)), id_(id), measured_(measured),
        number_(number < 0 ? id : number),
        peer_number_(number < 0 ? 1 - id : peer_number) {}
  comm_channel(const comm_channel &) = delete;
  comm_channel(comm_channel &&) = default;

  template <typename T>
  void send(const T &obj) {
    std::ostringstream os(std::ios::binary);
    {
      boost::archive::binary_oarchive ar(
          os, boost::archive::no_header | boost::archive::no_tracking);
      ar << obj;
    }
    net_->Send(id_, 0, verif_net::Kind::kObject, os.str());
  }
  template <typename T>
  void recv(T &obj) {
    std::istringstream is(net_->Recv(id_, 0, verif_net::Kind::kObject),
                          std::ios::binary);
    boost::archive::binary_iarchive ar(
        is, boost::archive::no_header | boost::archive::no_tracking);
    ar >> obj;
    if (is.peek() != std::istringstream::traits_type::eof())
      throw verif_net::ProtocolError("trailing bytes in a received message");
  }
  template <typename T, typename U>
  void send_recv(const T &a, U &b) {
    send(a);
    flush();
    recv(b);
  }
  void send_data(const void *data, size_t n) {
    net_->Send(id_, 0, verif_net::Kind::kRaw,
               std::string(static_cast<const char *>(data), n));
  }
  void recv_data(void *data, size_t n) { net_->RecvRaw(id_, 0, data, n); }
  void flush() { net_->Flush(id_, 0); }
  void sync() {
    net_->Send(id_, 0, verif_net::Kind::kSync, "");
    net_->Flush(id_, 0);
    net_->Recv(id_, 0, verif_net::Kind::kSync);
  }
  int get_id() const { return number_; }
  int get_peer_id() const { return peer_number_; }
  bool is_measured() const { return measured_; }
  int64_t get_num_bytes_sent() const { return net_->NumBytes(id_); }
  int64_t get_num_bytes_received() const { return net_->NumBytes(1 - id_); }
  int64_t get_num_sent() const { return net_->NumMessages(id_); }

  // Stand-in internals.
  int verif_side() const { return id_; }
  verif_net::Net &verif_net_ref() { return *net_; }
  std::shared_ptr<verif_net::Net> verif_net_ptr() { return net_; }
  int verif_new_lane() { return ++num_lanes_; }

 private:
  std::shared_ptr<verif_net::Net> net_;
  int id_;
  bool measured_;
  int number_, peer_number_;
  int num_lanes_ = 0;
};

}  // namespace mpc_utils

using mpc_utils::comm_channel;
#endif
