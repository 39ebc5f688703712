// In-memory two-party network used by the stand-ins for mpc_utils and emp-ot.
//
// * messages become visible to the peer on flush() (or when the sender itself
//   starts to wait for a message), as with a buffered socket;
// * a wait that can never be satisfied (peer finished, or both parties wait)
//   is reported as ProtocolError instead of hanging;
// * everything a party sends is recorded, and the ideal OT functionality
//   records what each side put in and got out.
#ifndef VERIF_NET_H_
#define VERIF_NET_H_
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace verif_net {

struct ProtocolError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

enum class Kind : uint8_t { kObject, kRaw, kSync, kOtRequest, kOtReply };

inline const char *KindName(Kind k) {
  switch (k) {
    case Kind::kObject: return "object";
    case Kind::kRaw: return "raw";
    case Kind::kSync: return "sync";
    case Kind::kOtRequest: return "ot-request";
    case Kind::kOtReply: return "ot-reply";
  }
  return "?";
}

struct Frame {
  Kind kind;
  std::string bytes;
  size_t pos = 0;
};

// What a party put on the wire outside the OT functionality.
struct Sent {
  int lane;
  Kind kind;
  std::string bytes;
};

// One OT batch, as seen by the trusted functionality.
struct OtBatch {
  bool correlated = false;
  int sender = 0;
  std::vector<unsigned __int128> m0, m1;
  std::vector<bool> choices;
};

class Net {
 public:
  Net() {
    for (int p = 0; p < 2; p++) finished_[p] = false, waiting_[p] = -1;
  }

  // Party life cycle (for deadlock detection only).
  void Begin(int p) {
    std::lock_guard<std::mutex> l(m_);
    finished_[p] = false;
    waiting_[p] = -1;
  }
  void Finish(int p) {
    std::lock_guard<std::mutex> l(m_);
    finished_[p] = true;
    CheckDead();
    cv_.notify_all();
  }
  // Called by a party that failed: wakes the peer with an error.
  void Abort(const std::string &why) {
    std::lock_guard<std::mutex> l(m_);
    if (!dead_) dead_ = true, why_ = why;
    cv_.notify_all();
  }
  bool dead() {
    std::lock_guard<std::mutex> l(m_);
    return dead_;
  }

  void Send(int p, int lane, Kind kind, std::string bytes) {
    std::lock_guard<std::mutex> l(m_);
    if (record_ && kind != Kind::kOtReply && kind != Kind::kOtRequest)
      sent_[p].push_back({lane, kind, bytes});
    num_bytes_[p] += bytes.size();
    num_sends_[p]++;
    if (kind == Kind::kOtReply) num_ots_[p] += bytes.size() / 16;
    pending_[p][lane].push_back({kind, std::move(bytes), 0});
  }
  void Flush(int p, int lane) {
    std::lock_guard<std::mutex> l(m_);
    FlushLocked(p, lane);
  }
  std::string Recv(int p, int lane, Kind kind) {
    std::unique_lock<std::mutex> l(m_);
    FlushLocked(p, lane);
    Wait(l, p, lane);
    Frame &f = in_[p][lane].front();
    if (f.kind != kind)
      throw ProtocolError(std::string("party ") + std::to_string(p) +
                          " expects a " + KindName(kind) + " message on lane " +
                          std::to_string(lane) + " but the next one is a " +
                          KindName(f.kind) + " message");
    std::string r = std::move(f.bytes);
    in_[p][lane].pop_front();
    return r;
  }
  void RecvRaw(int p, int lane, void *out, size_t n) {
    std::unique_lock<std::mutex> l(m_);
    FlushLocked(p, lane);
    char *o = static_cast<char *>(out);
    while (n > 0) {
      Wait(l, p, lane);
      Frame &f = in_[p][lane].front();
      if (f.kind != Kind::kRaw)
        throw ProtocolError(std::string("party ") + std::to_string(p) +
                            " expects raw bytes but the next message is a " +
                            KindName(f.kind) + " message");
      size_t k = std::min(n, f.bytes.size() - f.pos);
      std::memcpy(o, f.bytes.data() + f.pos, k);
      f.pos += k;
      o += k;
      n -= k;
      if (f.pos == f.bytes.size()) in_[p][lane].pop_front();
    }
  }

  // Number of messages sent by p so far (any lane, OT included).
  size_t NumMessages(int p) {
    std::lock_guard<std::mutex> l(m_);
    return num_msgs_[p];
  }
  size_t NumBytes(int p) {
    std::lock_guard<std::mutex> l(m_);
    return num_bytes_[p];
  }
  bool Idle() {
    std::lock_guard<std::mutex> l(m_);
    for (int p = 0; p < 2; p++) {
      for (auto &e : in_[p])
        if (!e.second.empty()) return false;
      for (auto &e : pending_[p])
        if (!e.second.empty()) return false;
    }
    return true;
  }

  void set_record(bool r) { record_ = r; }
  size_t SentCount(int p) {
    std::lock_guard<std::mutex> l(m_);
    return sent_[p].size();
  }
  size_t OtCount() {
    std::lock_guard<std::mutex> l(m_);
    return ots_.size();
  }
  // Messages put into the network by p, flushed or not.
  // Transfers in which p was the OT sender.
  size_t NumOts(int p) {
    std::lock_guard<std::mutex> l(m_);
    return num_ots_[p];
  }
  size_t NumSends(int p) {
    std::lock_guard<std::mutex> l(m_);
    return num_sends_[p];
  }
  const std::vector<Sent> &sent(int p) const { return sent_[p]; }
  void ClearRecord() {
    std::lock_guard<std::mutex> l(m_);
    sent_[0].clear();
    sent_[1].clear();
    ots_.clear();
  }
  void RecordOt(OtBatch b) {
    std::lock_guard<std::mutex> l(m_);
    if (record_) ots_.push_back(std::move(b));
  }
  const std::vector<OtBatch> &ots() const { return ots_; }

  // Source of the OT functionality's own randomness (correlated OT).
  std::function<unsigned __int128()> ot_random;
  unsigned __int128 OtRandom() {
    if (ot_random) return ot_random();
    auto next = [this] {
      uint64_t z = (rng_ += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    };
    unsigned __int128 hi = next();
    return hi << 64 | next();
  }
  // Called before every blocking receive and after every send with the party
  // id; lets a harness perturb the schedule.
  std::function<void(int)> yield_hook;

 private:
  void FlushLocked(int p, int lane) {
    auto &q = pending_[p][lane];
    if (q.empty()) return;
    num_msgs_[p] += q.size();
    auto &dst = in_[1 - p][lane];
    for (auto &f : q)
      if (!f.bytes.empty() || f.kind != Kind::kRaw) dst.push_back(std::move(f));
    q.clear();
    cv_.notify_all();
  }
  bool Satisfied(int p) { return !in_[p][waiting_[p]].empty(); }
  void CheckDead() {
    if (dead_) return;
    for (int p = 0; p < 2; p++) {
      if (waiting_[p] < 0 || Satisfied(p)) continue;
      if (finished_[1 - p]) {
        dead_ = true;
        why_ = "party " + std::to_string(p) +
               " waits for a message, but its peer has finished";
      } else if (waiting_[1 - p] >= 0 && !Satisfied(1 - p)) {
        dead_ = true;
        why_ = "deadlock: both parties wait for a message";
      }
    }
    if (dead_) cv_.notify_all();
  }
  void Wait(std::unique_lock<std::mutex> &l, int p, int lane) {
    if (yield_hook) {
      l.unlock();
      yield_hook(p);
      l.lock();
    }
    waiting_[p] = lane;
    CheckDead();
    cv_.wait(l, [&] { return dead_ || Satisfied(p); });
    bool sat = Satisfied(p);
    waiting_[p] = -1;
    if (!sat) throw ProtocolError(why_);
  }

  std::mutex m_;
  std::condition_variable cv_;
  bool finished_[2];
  int waiting_[2];
  bool dead_ = false;
  bool record_ = false;
  std::string why_;
  std::map<int, std::deque<Frame>> in_[2], pending_[2];
  std::vector<Sent> sent_[2];
  std::vector<OtBatch> ots_;
  size_t num_msgs_[2] = {0, 0};
  size_t num_bytes_[2] = {0, 0};
  size_t num_sends_[2] = {0, 0};
  size_t num_ots_[2] = {0, 0};
  uint64_t rng_ = 0x1234567;
};

}  // namespace verif_net
#endif
