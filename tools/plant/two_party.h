// Two parties on two threads over the in-memory network beside this file.
#ifndef TWO_PARTY_H_
#define TWO_PARTY_H_
#include <omp.h>
#include <cstdio>
#include <functional>
#include <thread>
#include "mpc_utils/comm_channel.hpp"
struct Pair {
  std::shared_ptr<verif_net::Net> net = std::make_shared<verif_net::Net>();
  std::unique_ptr<mpc_utils::comm_channel> ch[2];
  explicit Pair(bool measured = false) {
    net->set_record(true);
    for (int i = 0; i < 2; i++) ch[i].reset(new mpc_utils::comm_channel(net, i, measured));
  }
  // Runs both closures at the same time; false if one of them failed.
  bool Run(std::function<void()> a, std::function<void()> b) {
    std::function<void()> f[2] = {a, b};
    bool ok[2] = {true, true};
    net->Begin(0), net->Begin(1);
    auto body = [&](int i) {
      try {
        f[i]();
      } catch (const std::exception &e) {
        printf("party %d: %s\n", i, e.what());
        ok[i] = false;
        net->Abort("peer failed");
      }
      net->Finish(i);
    };
    std::thread t(body, 1);
    body(0);
    t.join();
    return ok[0] && ok[1];
  }
};
inline int Bad(const char *what) {
  printf("WRONG: %s\n", what);
  return 1;
}
#endif
