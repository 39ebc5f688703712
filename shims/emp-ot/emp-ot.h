// Stand-in for emp-ot: the OT extension is replaced by the ideal functionality,
// run over the stand-in network.
#ifndef VERIF_EMP_OT_H_
#define VERIF_EMP_OT_H_
#include <emmintrin.h>
#include <smmintrin.h>
#include <wmmintrin.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>

#include "verif_net.h"

using std::string;
using std::unique_ptr;
using std::vector;

namespace emp {

using std::string;
using std::vector;

typedef __m128i block;

inline block makeBlock(uint64_t high, uint64_t low) {
  return _mm_set_epi64x(static_cast<long long>(high),
                        static_cast<long long>(low));
}
inline block zero_block() { return _mm_setzero_si128(); }
inline block all_one_block() { return _mm_set1_epi8(-1); }
inline block xorBlocks(block a, block b) { return _mm_xor_si128(a, b); }
inline bool cmpBlock(const block *a, const block *b, int n) {
  return std::memcmp(a, b, n * sizeof(block)) == 0;
}
inline void initialize_relic() {}

template <typename IO>
class SHOTExtension {
 public:
  IO *io;
  explicit SHOTExtension(IO *io, bool = false) : io(io) {}

  void send(const block *data0, const block *data1, int length) {
    Transfer(false, length, [&](int i) { return std::make_pair(data0[i], data1[i]); });
  }
  void recv(block *data, const bool *b, int length) { Receive(false, data, b, length); }

  template <typename F>
  void send_cot_ft(block *data0, const F &f, int length) {
    Transfer(true, length, [&](int i) {
      data0[i] = Rand();
      return std::make_pair(data0[i], static_cast<block>(f(data0[i], static_cast<uint64_t>(i))));
    });
  }
  void send_cot(block *data0, block delta, int length) {
    Transfer(true, length, [&](int i) {
      data0[i] = Rand();
      return std::make_pair(data0[i], _mm_xor_si128(data0[i], delta));
    });
  }
  void send_rot(block *data0, block *data1, int length) {
    Transfer(true, length, [&](int i) {
      data0[i] = Rand();
      data1[i] = Rand();
      return std::make_pair(data0[i], data1[i]);
    });
  }
  void recv_cot(block *data, const bool *b, int length) { Receive(true, data, b, length); }
  void recv_rot(block *data, const bool *b, int length) { Receive(true, data, b, length); }

 private:
  static unsigned __int128 ToInt(block b) {
    unsigned __int128 r;
    std::memcpy(&r, &b, 16);
    return r;
  }
  block Rand() {
    unsigned __int128 r = io->verif_net_ref().OtRandom();
    block b;
    std::memcpy(&b, &r, 16);
    return b;
  }
  template <typename F>
  void Transfer(bool correlated, int length, F messages) {
    auto &net = io->verif_net_ref();
    int p = io->verif_id(), lane = io->verif_lane();
    // The OT extension starts with a message from the receiver.
    string req = net.Recv(p, lane, verif_net::Kind::kOtRequest);
    if (req.size() < 1 || req[0] != (correlated ? 'c' : 'o'))
      throw verif_net::ProtocolError("OT sender and receiver use different OT flavours");
    if (static_cast<int>(req.size()) - 1 != length)
      throw verif_net::ProtocolError(
          "OT sender offers " + std::to_string(length) + " message pairs but the receiver made " +
          std::to_string(req.size() - 1) + " choices");
    verif_net::OtBatch log;
    log.correlated = correlated;
    log.sender = p;
    std::string reply(static_cast<size_t>(length) * 16, '\0');
    for (int i = 0; i < length; i++) {
      auto m = messages(i);
      bool c = req[i + 1] != 0;
      std::memcpy(&reply[static_cast<size_t>(i) * 16], c ? &m.second : &m.first, 16);
      log.m0.push_back(ToInt(m.first));
      log.m1.push_back(ToInt(m.second));
      log.choices.push_back(c);
    }
    net.RecordOt(std::move(log));
    net.Send(p, lane, verif_net::Kind::kOtReply, std::move(reply));
    net.Flush(p, lane);
  }
  void Receive(bool correlated, block *data, const bool *b, int length) {
    auto &net = io->verif_net_ref();
    int p = io->verif_id(), lane = io->verif_lane();
    std::string req(1, correlated ? 'c' : 'o');
    for (int i = 0; i < length; i++) req.push_back(b[i] ? 1 : 0);
    net.Send(p, lane, verif_net::Kind::kOtRequest, std::move(req));
    net.Flush(p, lane);
    string reply = net.Recv(p, lane, verif_net::Kind::kOtReply);
    if (static_cast<int>(reply.size()) != length * 16)
      throw verif_net::ProtocolError("unexpected OT reply size");
    if (length > 0) std::memcpy(static_cast<void *>(data), reply.data(), reply.size());
  }
};

template <typename IO>
using MOTExtension = SHOTExtension<IO>;
template <typename IO>
using IKNP = SHOTExtension<IO>;

}  // namespace emp
#endif
