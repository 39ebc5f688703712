#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt {

uint64_t HashString(const std::string &s, uint64_t h) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 32;
  h *= 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 29);
}

static std::vector<uint64_t> g_constants;
static bool g_thorough = false;
const std::vector<uint64_t> &SourceConstants() { return g_constants; }
void SetSourceConstants(std::vector<uint64_t> v) { g_constants = std::move(v); }
bool Thorough() { return g_thorough; }
bool Sanitized() {
#ifdef VERIF_SANITIZED
  return true;
#else
  return false;
#endif
}

std::string Dec(u128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v) s.insert(s.begin(), '0' + static_cast<int>(v % 10)), v /= 10;
  return s;
}
std::string Hex(u128 v) {
  char b[40];
  uint64_t hi = v >> 64, lo = v;
  if (hi)
    snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)hi, (unsigned long long)lo);
  else
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)lo);
  return b;
}

uint64_t Ctx::Choice(uint64_t max) {
  uint64_t v;
  if (forced_ >= 0 && rec_.empty()) {
    v = static_cast<uint64_t>(forced_);
    if (v > max) v = max;
  } else if (fuzz_ || fuzz_end_) {
    int bytes = 1;
    while (bytes < 8 && (max >> (8 * bytes)) != 0) bytes++;
    v = 0;
    for (int i = 0; i < bytes && fuzz_ < fuzz_end_; i++) v |= static_cast<uint64_t>(*fuzz_++) << (8 * i);
    if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
  } else if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    pos_++;
    if (v > max) v = max;
  } else {
    v = rng_.Upto(max);
  }
  rec_.push_back(v);
  if (mirror && rec_.size() < mirror_cap) {
    mirror[rec_.size()] = v;
    mirror[0] = rec_.size();
  }
  return v;
}

int64_t Ctx::Size(int64_t lo, int64_t hi) {
  if (lo >= hi) return lo;
  uint64_t span = static_cast<uint64_t>(hi - lo);
  switch (Choice(7)) {
    default: {
      // small: geometric-ish, uniform in [0, min(span, 2^k)]
      uint64_t m = std::min<uint64_t>(span, (1ull << Choice(6)) - 1);
      return lo + static_cast<int64_t>(Choice(m));
    }
    case 3:
    case 4: {
      // log-uniform
      int bits = 64 - __builtin_clzll(span);
      uint64_t m = std::min<uint64_t>(span, (2ull << Choice(bits - 1)) - 1);
      return lo + static_cast<int64_t>(Choice(m));
    }
    case 5: {
      // power of two +- 1
      int bits = 64 - __builtin_clzll(static_cast<uint64_t>(std::max<int64_t>(1, hi)));
      int64_t v = static_cast<int64_t>(1ull << Choice(bits - 1)) + Range(0, 2) - 1;
      return std::max(lo, std::min(hi, v));
    }
    case 6: {
      const auto &c = SourceConstants();
      if (!c.empty() && Choice(1)) {
        // constants from the sources, restricted to the range if possible
        std::vector<uint64_t> ok;
        for (uint64_t x : c)
          if (x + 1 >= static_cast<uint64_t>(lo) && x <= static_cast<uint64_t>(hi) + 1) ok.push_back(x);
        if (!ok.empty()) {
          int64_t v = static_cast<int64_t>(ok[Choice(ok.size() - 1)]) + Range(0, 2) - 1;
          return std::max(lo, std::min(hi, v));
        }
      }
      // ends of the range
      uint64_t d = Choice(std::min<uint64_t>(span, 3));
      return Bool() ? lo + static_cast<int64_t>(d) : hi - static_cast<int64_t>(d);
    }
    case 7:
      return lo + static_cast<int64_t>(Choice(span));
  }
}

uint64_t Ctx::U64() {
  switch (Choice(7)) {
    case 0: return Choice(3);
    case 1: return Choice(UINT64_MAX);
    case 2: return 1ull << Choice(63);
    case 3: return (1ull << Choice(63)) - 1 + Choice(2);
    case 4: return UINT64_MAX - Choice(3);
    case 5: {
      uint64_t k = Choice(63);
      return UINT64_MAX << k;
    }
    case 6: {
      const auto &c = SourceConstants();
      return c.empty() ? Choice(UINT64_MAX) : c[Choice(c.size() - 1)] + Choice(2) - 1;
    }
    default: {
      // sparse
      uint64_t v = 0;
      for (uint64_t i = 0, n = Choice(4); i < n; i++) v |= 1ull << Choice(63);
      return v;
    }
  }
}

u128 Ctx::Bits128() {
  switch (Choice(8)) {
    case 0: return U64();
    case 1:
    case 2: {
      u128 h = Choice(UINT64_MAX);
      return h << 64 | Choice(UINT64_MAX);
    }
    case 3: return static_cast<u128>(1) << Choice(127);
    case 4: return (static_cast<u128>(1) << Choice(127)) - 1 + Choice(2);
    case 5: return ~static_cast<u128>(0) - Choice(3);
    case 6: return ~static_cast<u128>(0) << Choice(127);
    case 7: {
      u128 h = U64();
      return h << 64 | U64();
    }
    default: {
      u128 v = 0;
      for (uint64_t i = 0, n = Choice(5); i < n; i++) v |= static_cast<u128>(1) << Choice(127);
      return v;
    }
  }
}

u128 Ctx::Relative(u128 base) {
  const u128 low = ~0ull;
  switch (Choice(8)) {
    case 0: return base;
    case 1:
    case 2: return base ^ static_cast<u128>(1) << Choice(127);
    case 3: return base ^ static_cast<u128>(1 + Choice(254)) << 8 * Choice(15);
    case 4: return (base & low) | static_cast<u128>(Choice(UINT64_MAX)) << 64;
    case 5: return (base & ~low) | Choice(UINT64_MAX);
    case 6: return base + (Bool() ? 1 : ~static_cast<u128>(0));
    case 7: return base << 64 | base >> 64;
    default: {
      // all but one 32-bit word
      u128 keep = static_cast<u128>(0xffffffffu) << 32 * Choice(3);
      u128 h = Choice(UINT64_MAX);
      return ((h << 64 | Choice(UINT64_MAX)) & keep) | (base & ~keep);
    }
  }
}

u128 Ctx::UpTo128(u128 max) {
  if (max == 0) return 0;
  switch (Choice(6)) {
    case 0: return Choice(max > 3 ? 3 : static_cast<uint64_t>(max));
    case 1: return max - Choice(max > 3 ? 3 : static_cast<uint64_t>(max));
    case 2: {
      u128 v = Bits128();
      return v > max ? v % max : v;
    }
    case 3: {
      // around the middle
      u128 v = max / 2 + Choice(2);
      return v > max ? max : v;
    }
    default: {
      u128 h = Choice(UINT64_MAX);
      u128 v = h << 64 | Choice(UINT64_MAX);
      return max == ~static_cast<u128>(0) ? v : v % (max + 1);
    }
  }
}

std::vector<Check> &Registry() {
  static std::vector<Check> r;
  return r;
}

// ---------------------------------------------------------------------------
namespace {

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// CPU seconds of a process (all threads); only used for our own children.
double CpuOf(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c) != 0) return -1;
  timespec t;
  if (clock_gettime(c, &t) != 0) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string JsonEscape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}
std::string J(const std::string &s) { return "\"" + JsonEscape(s) + "\""; }
std::string Trunc(const std::string &s, size_t n) {
  return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " chars)";
}

constexpr uint64_t kMirrorCap = 1 << 18;

constexpr uint64_t kLogCap = 1 << 18;

struct WorkerSlot {
  // Cases executed by this worker process so far (check << 48 | index).
  std::atomic<uint64_t> log_n;
  uint64_t log[kLogCap];
  std::atomic<int64_t> check, index;  // current case, -1 if none
  std::atomic<int64_t> started;       // increments per case
  std::atomic<int64_t> evals;
  uint64_t mirror[kMirrorCap];
};

struct Shared {
  std::atomic<int64_t> next_block;
  std::atomic<int> failed[256];
  std::atomic<int> stop;
  WorkerSlot slots[64];
};

enum class Status { kPass, kFail, kCrash, kTimeout, kDiscard };
const char *StatusName(Status s) {
  switch (s) {
    case Status::kPass: return "pass";
    case Status::kFail: return "fail";
    case Status::kCrash: return "crash";
    case Status::kTimeout: return "nontermination";
    case Status::kDiscard: return "discard";
  }
  return "?";
}

struct Outcome {
  Status status = Status::kPass;
  std::string msg, desc;
  std::vector<uint64_t> choices;
};

struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  int workers = 8;
  double budget = 1e9;
  double scale = 1;
  double cpu_limit = 40;    // CPU seconds per case
  double stuck_limit = 90;  // wall seconds per case without CPU use
  std::string out, replay, only, tmp, constants_file;
  std::vector<std::string> skip_choices;
} opt;

// --only takes a comma-separated list of parts of names.
bool Selected(const std::string &name) {
  if (opt.only.empty()) return true;
  std::istringstream is(opt.only);
  std::string part;
  while (std::getline(is, part, ','))
    if (name.find(part) != std::string::npos) return true;
  return false;
}

uint64_t CaseSeed(const Check &c, int64_t idx) {
  uint64_t h = HashString(c.name, 1469598103934665603ull ^ (opt.seed * 0x9E3779B97F4A7C15ull));
  h ^= static_cast<uint64_t>(idx) * 0xD1B54A32D192ED03ull;
  h ^= h >> 31;
  return h * 0x9E3779B97F4A7C15ull + 1;
}

Outcome Execute(const Check &c, Ctx &ctx) {
  Outcome o;
  try {
    c.fn(ctx);
    o.status = Status::kPass;
  } catch (const Failure &f) {
    o.status = Status::kFail;
    o.msg = f.msg;
  } catch (const Discard &) {
    o.status = Status::kDiscard;
  } catch (const std::exception &e) {
    o.status = Status::kFail;
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  o.desc = ctx.desc();
  o.choices = ctx.record();
  return o;
}

// Waits for pid; kills it when the CPU or stuck limit is exceeded.
// Returns wait status; *timed_out set when killed.
int WaitLimited(pid_t pid, bool *timed_out, double cpu_limit, double stuck_limit) {
  *timed_out = false;
  int st;
  double start = Now(), last_cpu = 0, last_progress = start;
  useconds_t nap = 200;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    double cpu = CpuOf(pid), now = Now();
    if (cpu > last_cpu + 0.05) last_cpu = cpu, last_progress = now;
    if (cpu > cpu_limit || now - last_progress > stuck_limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      *timed_out = true;
      return st;
    }
    usleep(nap);
    if (nap < 20000) nap = nap * 5 / 4;
  }
}

std::string CrashText(int st, const std::string &errfile) {
  std::string text;
  if (WIFSIGNALED(st))
    text = std::string("crashed: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  else
    text = "exited with status " + std::to_string(WEXITSTATUS(st));
  std::ifstream f(errfile);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string e = ss.str();
  if (!e.empty()) text += "; stderr: " + Trunc(e, 1500);
  return text;
}

WorkerSlot *g_iso_slot = nullptr;

// A case to execute before the case under test, in the same process: either by
// index (with the seed of this run) or by recorded choices.
struct CaseRef {
  int check = 0;
  int64_t index = -1;
  std::vector<uint64_t> choices;
};
int64_t EnumCount(const Check &c) {
  return opt.thorough && c.enumerated_thorough >= 0 ? c.enumerated_thorough : c.enumerated;
}
void ExecutePrefix(const std::vector<CaseRef> &prefix, std::vector<std::vector<uint64_t>> *recorded) {
  for (auto &r : prefix) {
    const Check &c = Registry()[r.check];
    int64_t ne = EnumCount(c);
    Ctx ctx = r.index >= 0 ? Ctx(CaseSeed(c, r.index), false, {}, r.index < ne ? r.index : -1) : Ctx(0, true, r.choices, -1);
    Execute(c, ctx);
    if (recorded) recorded->push_back(ctx.record());
  }
}

// Runs one case in a forked child, after the given prefix of cases.
Outcome RunIsolated(const Check &c, uint64_t seed, bool replay, const std::vector<uint64_t> &choices,
                    int64_t forced, double cpu_limit, double stuck_limit,
                    const std::vector<CaseRef> *prefix = nullptr) {
  Outcome o;
  WorkerSlot *slot = g_iso_slot;
  slot->mirror[0] = 0;
  std::string errfile = opt.tmp + "/iso.err", resfile = opt.tmp + "/iso.res";
  unlink(resfile.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) dup2(fd, 2), dup2(fd, 1), close(fd);
    if (prefix) ExecutePrefix(*prefix, nullptr);
    Ctx ctx(seed, replay, choices, forced);
    ctx.mirror = slot->mirror;
    ctx.mirror_cap = kMirrorCap;
    Outcome r = Execute(c, ctx);
    std::ofstream f(resfile, std::ios::binary);
    auto put = [&](const std::string &s) {
      uint64_t n = s.size();
      f.write(reinterpret_cast<char *>(&n), 8);
      f.write(s.data(), n);
    };
    int s = static_cast<int>(r.status);
    f.write(reinterpret_cast<char *>(&s), sizeof s);
    put(r.msg);
    put(r.desc);
    uint64_t n = r.choices.size();
    f.write(reinterpret_cast<char *>(&n), 8);
    f.write(reinterpret_cast<char *>(r.choices.data()), n * 8);
    f.close();
    _exit(0);
  }
  bool timed_out;
  int st = WaitLimited(pid, &timed_out, cpu_limit, stuck_limit);
  if (timed_out || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    o.status = timed_out ? Status::kTimeout : Status::kCrash;
    o.msg = timed_out ? "the case did not finish (CPU or progress limit exceeded)" : CrashText(st, errfile);
    uint64_t n = std::min<uint64_t>(slot->mirror[0], kMirrorCap - 1);
    o.choices.assign(slot->mirror + 1, slot->mirror + 1 + n);
    return o;
  }
  std::ifstream f(resfile, std::ios::binary);
  auto get = [&]() {
    uint64_t n = 0;
    f.read(reinterpret_cast<char *>(&n), 8);
    std::string s(n, 0);
    f.read(&s[0], n);
    return s;
  };
  int s = 0;
  f.read(reinterpret_cast<char *>(&s), sizeof s);
  o.status = static_cast<Status>(s);
  o.msg = get();
  o.desc = get();
  uint64_t n = 0;
  f.read(reinterpret_cast<char *>(&n), 8);
  o.choices.resize(n);
  f.read(reinterpret_cast<char *>(o.choices.data()), n * 8);
  return o;
}

bool Bad(const Outcome &o) {
  return o.status == Status::kFail || o.status == Status::kCrash || o.status == Status::kTimeout;
}

// Shortlex order on choice sequences.
bool Simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

Outcome Shrink(const Check &c, Outcome best, double wall) {
  double deadline = Now() + wall;
  int tries = 0;
  std::set<std::vector<uint64_t>> seen;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (Now() > deadline || tries > 3000) return false;
    if (!Simpler(cand, best.choices)) return false;
    if (!seen.insert(cand).second) return false;
    tries++;
    Outcome o = RunIsolated(c, 0, true, cand, -1, 10, 20);
    // nontermination is only accepted as a shrink of nontermination
    if (!Bad(o) || (o.status == Status::kTimeout && best.status != Status::kTimeout)) return false;
    if (!Simpler(o.choices, best.choices)) {
      if (o.choices.size() > cand.size()) o.choices = cand;
      if (!Simpler(o.choices, best.choices)) return false;
    }
    best = o;
    return true;
  };
  if (best.status == Status::kTimeout) deadline = Now() + std::min(wall, 60.0);
  bool progress = true;
  while (progress && Now() < deadline && tries <= 3000) {
    progress = false;
    // Delete chunks.
    for (size_t len : {64, 16, 8, 4, 2, 1}) {
      for (size_t i = 0; i + len <= best.choices.size();) {
        std::vector<uint64_t> cand = best.choices;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (attempt(cand))
          progress = true;
        else
          i += len == 1 ? 1 : std::max<size_t>(1, len / 2);
        if (Now() > deadline) break;
      }
    }
    // Zero chunks.
    for (size_t len : {16, 4, 1}) {
      for (size_t i = 0; i + len <= best.choices.size(); i += len) {
        std::vector<uint64_t> cand = best.choices;
        bool any = false;
        for (size_t k = i; k < i + len; k++) any |= cand[k] != 0, cand[k] = 0;
        if (any && attempt(cand)) progress = true;
        if (Now() > deadline) break;
      }
    }
    // Minimise single values by binary search.
    for (size_t i = 0; i < best.choices.size(); i++) {
      if (best.choices[i] == 0) continue;
      uint64_t lo = 0, hi = best.choices[i];
      while (lo < hi && Now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> cand = best.choices;
        if (i >= cand.size()) break;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          hi = mid;
        } else {
          lo = mid + 1;
        }
        if (i >= best.choices.size()) break;
      }
      if (i < best.choices.size() && best.choices[i] > 0) {
        std::vector<uint64_t> cand = best.choices;
        cand[i]--;
        if (attempt(cand)) progress = true;
      }
    }
  }
  return best;
}

struct Block {
  int check;
  int64_t begin, end;
};

struct FailureRecord {
  int check;
  int64_t index;
  Outcome o;
  std::vector<CaseRef> prefix;  // what the worker had executed before
};

std::vector<CaseRef> LogPrefix(const WorkerSlot &s, uint64_t n) {
  std::vector<CaseRef> r;
  if (n == 0) return r;
  n--;  // the case itself
  uint64_t b = n > kLogCap - 1 ? n - (kLogCap - 1) : 0;
  for (uint64_t i = b; i < n; i++) {
    uint64_t v = s.log[i % kLogCap];
    r.push_back({static_cast<int>(v >> 48), static_cast<int64_t>(v & ((1ull << 48) - 1)), {}});
  }
  return r;
}

}  // namespace

static int64_t RandomCount(const Check &c) {
  double n = static_cast<double>(opt.thorough ? c.thorough : c.quick) * opt.scale;
  if (Sanitized()) n *= c.sanitized_scale;
  return n <= 0 ? 0 : std::max<int64_t>(1, static_cast<int64_t>(n));
}

static std::string ReadFile(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

static std::string ChoicesJson(const std::vector<uint64_t> &c) {
  std::string s = "[";
  for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + std::to_string(c[i]);
  return s + "]";
}

// Replay file: {"prefix":[{"check":..,"choices":[..]},..],"check":"...",
// "choices": [..], ...}; minimal parser that reads check/choices pairs in order.
// The last pair is the case itself.
static bool ParseReplay(const std::string &text, std::vector<std::pair<std::string, std::vector<uint64_t>>> *out) {
  size_t pos = 0;
  while (true) {
    auto k = text.find("\"check\"", pos);
    if (k == std::string::npos) break;
    k = text.find('"', text.find(':', k));
    auto e = text.find('"', k + 1);
    std::string check = text.substr(k + 1, e - k - 1);
    k = text.find("\"choices\"", e);
    if (k == std::string::npos) break;
    k = text.find('[', k);
    e = text.find(']', k);
    std::vector<uint64_t> choices;
    std::stringstream ss(text.substr(k + 1, e - k - 1));
    std::string tok;
    while (std::getline(ss, tok, ',')) {
      auto d = tok.find_first_of("0123456789");
      if (d != std::string::npos) choices.push_back(strtoull(tok.c_str() + d, nullptr, 10));
    }
    out->push_back({check, choices});
    pos = e;
  }
  return !out->empty();
}

static void WorkerMain(Shared *sh, int w, const std::vector<Block> &blocks, double deadline) {
  auto &checks = Registry();
  WorkerSlot &slot = sh->slots[w];
  std::string base = opt.tmp + "/w" + std::to_string(w) + "." + std::to_string(getpid());
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, int64_t> counts;   // "check\tlabel"
  std::vector<std::string> samples(checks.size() * 3);
  std::vector<int> nsamples(checks.size(), 0);
  std::vector<int64_t> evals(checks.size(), 0), discards(checks.size(), 0), nontriv(checks.size(), 0);
  auto dump = [&] {
    std::ofstream f(base + ".stats");
    for (size_t i = 0; i < checks.size(); i++)
      f << "E\t" << i << "\t" << evals[i] << "\t" << discards[i] << "\t" << nontriv[i] << "\n";
    for (auto &e : counts) f << "C\t" << e.first << "\t" << e.second << "\n";
    for (size_t i = 0; i < samples.size(); i++)
      if (!samples[i].empty()) f << "S\t" << i / 3 << "\t" << samples[i] << "\n";
    for (uint64_t h : hashes) f << "H\t" << h << "\n";
  };
  while (!sh->stop.load()) {
    int64_t b = sh->next_block.fetch_add(1);
    if (b >= static_cast<int64_t>(blocks.size())) break;
    const Block &blk = blocks[b];
    const Check &c = checks[blk.check];
    for (int64_t idx = blk.begin; idx < blk.end; idx++) {
      if (sh->failed[blk.check].load() || sh->stop.load()) break;
      if (Now() > deadline) {
        sh->stop.store(1);
        break;
      }
      slot.check.store(blk.check);
      slot.index.store(idx);
      slot.log[slot.log_n.load() % kLogCap] = static_cast<uint64_t>(blk.check) << 48 | static_cast<uint64_t>(idx);
      slot.log_n.fetch_add(1);
      slot.started.fetch_add(1);
      int64_t ne = EnumCount(c);
      Ctx ctx(CaseSeed(c, idx), false, {}, idx < ne ? idx : -1);
      ctx.mirror = slot.mirror;
      ctx.mirror_cap = kMirrorCap;
      slot.mirror[0] = 0;
      Outcome o = Execute(c, ctx);
      slot.index.store(-1);
      slot.evals.fetch_add(1);
      if (o.status == Status::kDiscard) {
        discards[blk.check]++;
        continue;
      }
      evals[blk.check]++;
      for (auto &l : ctx.labels()) counts[std::to_string(blk.check) + "\tL" + l]++;
      for (auto &l : ctx.counts()) counts[std::to_string(blk.check) + "\tN" + l.first] += l.second;
      if (ctx.nontrivial()) {
        nontriv[blk.check]++;
        uint64_t h = HashString(c.name);
        for (uint64_t v : o.choices) h = (h ^ v) * 0x9E3779B97F4A7C15ull, h ^= h >> 32;
        if (hashes.size() < 4000000) hashes.insert(h);
        int &ns = nsamples[blk.check];
        if (ns < 3 && !o.desc.empty() && (ns == 0 || (evals[blk.check] & (evals[blk.check] - 1)) == 0))
          samples[blk.check * 3 + ns++] = JsonEscape(Trunc(o.desc, 700));
      }
      if (Bad(o)) {
        sh->failed[blk.check].store(1);
        std::ofstream f(base + ".fail." + std::to_string(blk.check) + "." + std::to_string(idx), std::ios::binary);
        f << idx << "\n" << ChoicesJson(o.choices) << "\n" << o.msg;
        f.close();
        std::ofstream l(base + ".log." + std::to_string(blk.check), std::ios::binary);
        for (auto &r : LogPrefix(slot, slot.log_n.load())) l << r.check << " " << r.index << "\n";
        break;
      }
    }
  }
  dump();
}

int Main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") opt.thorough = val() == "thorough";
    else if (a == "--workers") opt.workers = atoi(val().c_str());
    else if (a == "--budget") opt.budget = atof(val().c_str());
    else if (a == "--scale") opt.scale = atof(val().c_str());
    else if (a == "--out") opt.out = val();
    else if (a == "--replay") opt.replay = val();
    else if (a == "--only") opt.only = val();
    else if (a == "--tmp") opt.tmp = val();
    else if (a == "--constants") opt.constants_file = val();
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  g_thorough = opt.thorough;
  if (!opt.constants_file.empty()) {
    std::ifstream f(opt.constants_file);
    uint64_t v;
    while (f >> v) g_constants.push_back(v);
  }
  auto &checks = Registry();
  std::sort(checks.begin(), checks.end(), [](const Check &a, const Check &b) { return a.name < b.name; });
  if (list) {
    for (auto &c : checks) printf("%s quick=%ld thorough=%ld enum=%ld\n", c.name.c_str(), (long)c.quick, (long)c.thorough, (long)c.enumerated);
    return 0;
  }
  char tmpl[] = "/tmp/pbtXXXXXX";
  bool own_tmp = false;
  if (opt.tmp.empty()) {
    if (!mkdtemp(tmpl)) return 2;
    opt.tmp = tmpl;
    own_tmp = true;
  } else {
    mkdir(opt.tmp.c_str(), 0700);
  }
  void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mem == MAP_FAILED) return 2;
  Shared *sh = new (mem) Shared();
  g_iso_slot = &sh->slots[63];

  auto cleanup = [&] {
    if (own_tmp) {
      std::string cmd = "rm -rf '" + opt.tmp + "'";
      if (system(cmd.c_str()) != 0) {}
    }
  };

  if (!opt.replay.empty()) {
    std::vector<std::pair<std::string, std::vector<uint64_t>>> cases;
    if (!ParseReplay(ReadFile(opt.replay), &cases)) {
      fprintf(stderr, "cannot parse replay file\n");
      return 2;
    }
    std::vector<CaseRef> seq;
    for (auto &cs : cases) {
      CaseRef r;
      r.check = -1;
      for (size_t i = 0; i < checks.size(); i++)
        if (checks[i].name == cs.first) r.check = static_cast<int>(i);
      if (r.check < 0) {
        fprintf(stderr, "no check named %s\n", cs.first.c_str());
        cleanup();
        return 2;
      }
      r.choices = cs.second;
      seq.push_back(r);
    }
    CaseRef last = seq.back();
    seq.pop_back();
    const Check &c = checks[last.check];
    Outcome o = RunIsolated(c, 0, true, last.choices, -1, opt.cpu_limit * c.slow * (seq.empty() ? 1 : 10), opt.stuck_limit, &seq);
    printf("REPLAY check=%s status=%s\n%s\n%s\n", c.name.c_str(), StatusName(o.status), o.msg.c_str(), o.desc.c_str());
    cleanup();
    return Bad(o) ? 1 : 0;
  }

  // Work list, interleaved over the checks.
  std::vector<std::pair<double, Block>> keyed;
  int64_t total = 0;
  for (size_t i = 0; i < checks.size(); i++) {
    if (!Selected(checks[i].name)) continue;
    int64_t ne = EnumCount(checks[i]), n = ne + RandomCount(checks[i]);
    if (opt.scale <= 0) n = 0;
    total += n;
    int64_t bs = std::max<int64_t>(1, std::min<int64_t>(64, n / (opt.workers * 8)));
    for (int64_t b = 0; b < n; b += bs)
      keyed.push_back({static_cast<double>(b) / n, {static_cast<int>(i), b, std::min(n, b + bs)}});
  }
  std::stable_sort(keyed.begin(), keyed.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
  std::vector<Block> blocks;
  for (auto &k : keyed) blocks.push_back(k.second);

  double start = Now(), deadline = start + opt.budget;
  int nw = std::max(1, std::min(opt.workers, 48));
  std::vector<FailureRecord> failures;
  std::vector<pid_t> pids(nw, -1);
  struct Watch {
    int64_t started = -1;
    double cpu0 = 0, last_cpu = 0, last_progress = 0;
  };
  std::vector<Watch> watch(nw);
  auto spawn = [&](int w) {
    sh->slots[w].check = -1;
    sh->slots[w].index = -1;
    sh->slots[w].log_n = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      std::string err = opt.tmp + "/w" + std::to_string(w) + ".err";
      int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (fd >= 0) dup2(fd, 2), close(fd);
      int nul = open("/dev/null", O_WRONLY);
      if (nul >= 0) dup2(nul, 1), close(nul);
      WorkerMain(sh, w, blocks, deadline);
      _exit(0);
    }
    pids[w] = pid;
    watch[w] = Watch();
  };
  for (int w = 0; w < nw; w++) spawn(w);
  int alive = nw;
  int64_t lost = 0, hung = 0;
  double first_failure = -1;
  while (alive > 0) {
    // After a failure the remaining checks get another minute.
    if (first_failure < 0) {
      for (size_t i = 0; i < checks.size() && first_failure < 0; i++)
        if (sh->failed[i].load()) first_failure = Now();
    } else if (Now() - first_failure > (opt.thorough ? 600 : 60)) {
      sh->stop.store(1);
    }
    for (int w = 0; w < nw; w++) {
      if (pids[w] < 0) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool died = false, timed_out = false;
      if (r == pids[w]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          pids[w] = -1;
          alive--;
          continue;
        }
        died = true;
      } else {
        WorkerSlot &s = sh->slots[w];
        int64_t started = s.started.load();
        double cpu = CpuOf(pids[w]), now = Now();
        Watch &wt = watch[w];
        if (started != wt.started || s.index.load() < 0) {
          wt.started = started;
          wt.cpu0 = wt.last_cpu = cpu;
          wt.last_progress = now;
        } else if (cpu > wt.last_cpu + 0.05) {
          wt.last_cpu = cpu;
          wt.last_progress = now;
        }
        double lim = Sanitized() ? 4 * opt.cpu_limit : opt.cpu_limit;
        if (s.check.load() >= 0) lim *= checks[s.check.load()].slow;
        if (opt.thorough) lim *= 5;
        if (cpu - wt.cpu0 > lim || now - wt.last_progress > opt.stuck_limit) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          died = timed_out = true;
          // Most of what is left would not end either.
          if (++hung >= 3) sh->stop.store(1);
        }
      }
      if (died) {
        WorkerSlot &s = sh->slots[w];
        int64_t ci = s.check.load(), idx = s.index.load();
        pids[w] = -1;
        alive--;
        if (ci >= 0 && idx >= 0) {
          FailureRecord fr;
          fr.check = static_cast<int>(ci);
          fr.index = idx;
          fr.o.status = timed_out ? Status::kTimeout : Status::kCrash;
          fr.o.msg = timed_out ? "the case did not finish (CPU or progress limit exceeded)"
                               : CrashText(st, opt.tmp + "/w" + std::to_string(w) + ".err");
          uint64_t n = std::min<uint64_t>(s.mirror[0], kMirrorCap - 1);
          fr.o.choices.assign(s.mirror + 1, s.mirror + 1 + n);
          sh->failed[ci].store(1);
          fr.prefix = LogPrefix(s, s.log_n.load());
          failures.push_back(fr);
        } else {
          lost++;
          fprintf(stderr, "worker %d died outside a case: %s\n", w, CrashText(st, opt.tmp + "/w" + std::to_string(w) + ".err").c_str());
        }
        if (lost < 10) {
          spawn(w);
          alive++;
        }
      }
    }
    usleep(2000);
  }
  bool budget_hit = sh->stop.load() != 0;
  double explore_s = Now() - start;

  // Merge statistics.
  std::vector<int64_t> evals(checks.size(), 0), discards(checks.size(), 0), nontriv(checks.size(), 0);
  std::map<std::string, int64_t> counts;
  std::vector<std::vector<std::string>> samples(checks.size());
  std::unordered_set<uint64_t> hashes;
  {
    std::string cmd = "ls '" + opt.tmp + "'";
    FILE *p = popen(cmd.c_str(), "r");
    char line[512];
    std::vector<std::string> names;
    while (fgets(line, sizeof line, p)) {
      std::string s(line);
      while (!s.empty() && s.back() == '\n') s.pop_back();
      names.push_back(s);
    }
    pclose(p);
    for (auto &n : names) {
      if (n.size() > 6 && n.substr(n.size() - 6) == ".stats") {
        std::ifstream f(opt.tmp + "/" + n);
        std::string l;
        while (std::getline(f, l)) {
          std::stringstream ss(l);
          std::string k, a, b, c2;
          std::getline(ss, k, '\t');
          if (k == "E") {
            size_t i;
            int64_t e, d, t;
            ss >> i >> e >> d >> t;
            evals[i] += e;
            discards[i] += d;
            nontriv[i] += t;
          } else if (k == "C") {
            std::getline(ss, a, '\t');
            std::getline(ss, b, '\t');
            int64_t v;
            ss >> v;
            counts[a + "\t" + b] += v;
          } else if (k == "S") {
            std::getline(ss, a, '\t');
            std::getline(ss, b);
            samples[atoi(a.c_str())].push_back(b);
          } else if (k == "H") {
            uint64_t v;
            ss >> v;
            hashes.insert(v);
          }
        }
      } else if (n.find(".fail.") != std::string::npos) {
        auto p1 = n.rfind('.');
        auto p2 = n.rfind('.', p1 - 1);
        FailureRecord fr;
        fr.check = atoi(n.substr(p2 + 1, p1 - p2 - 1).c_str());
        fr.index = atoll(n.substr(p1 + 1).c_str());
        std::string t = ReadFile(opt.tmp + "/" + n);
        auto e1 = t.find('\n');
        auto e2 = t.find('\n', e1 + 1);
        std::string cj = "{\"check\":\"x\",\"choices\":" + t.substr(e1 + 1, e2 - e1 - 1) + "}";
        std::vector<std::pair<std::string, std::vector<uint64_t>>> pc;
        if (ParseReplay(cj, &pc)) fr.o.choices = pc[0].second;
        fr.o.msg = t.substr(e2 + 1);
        fr.o.status = Status::kFail;
        std::ifstream lf(opt.tmp + "/" + n.substr(0, n.find(".fail.")) + ".log." + std::to_string(fr.check));
        CaseRef cr;
        while (lf >> cr.check >> cr.index) fr.prefix.push_back(cr);
        failures.push_back(fr);
      }
    }
  }

  // One failure per check (lowest index), shrunk and replayed.
  std::map<int, FailureRecord> first;
  for (auto &f : failures)
    if (!first.count(f.check) || f.index < first[f.check].index) first[f.check] = f;
  std::string fj;
  int nfail = 0;
  double shrink_left = opt.thorough ? 240 : 90;
  // Cases that do not end come last, and are skipped when others have failed:
  // every run of one of them takes the full limit.
  std::vector<std::pair<int, FailureRecord>> ordered;
  for (int pass = 0; pass < 2; pass++)
    for (auto &e : first)
      if ((e.second.o.status == Status::kTimeout) == (pass == 1)) ordered.push_back(e);
  double post0 = Now();
  int confirmed = 0;
  for (auto &e : ordered) {
    if (confirmed && (e.second.o.status == Status::kTimeout || Now() - post0 > (opt.thorough ? 900 : 150))) break;
    const Check &c = checks[e.first];
    FailureRecord &fr = e.second;
    double t0 = Now();
    // Confirm in isolation.
    int reproduced = 0, runs = 0;
    Outcome conf;
    int max_runs = fr.o.status == Status::kTimeout ? 2 : 30;
    double cl = (Sanitized() ? 4 : 1) * opt.cpu_limit * c.slow;
    bool slow = false;  // too slow to be run again and again
    for (; runs < max_runs && reproduced < 1 && !(runs && slow); runs++) {
      double r0 = Now();
      Outcome o = RunIsolated(c, 0, true, fr.o.choices, -1, cl, opt.stuck_limit);
      if (Bad(o)) {
        reproduced++;
        conf = o;
      }
      slow = Now() - r0 > 20 && o.status != Status::kTimeout;
    }
    if (!reproduced && (fr.o.status == Status::kCrash || fr.o.status == Status::kTimeout)) {
      // Crash before the mirror was complete or state carried over from
      // earlier cases: re-run by seed.
      int64_t ne = EnumCount(c);
      for (int k = 0; k < (fr.o.status == Status::kTimeout ? 1 : 10) && !reproduced; k++) {
        Outcome o = RunIsolated(c, CaseSeed(c, fr.index), false, {}, fr.index < ne ? fr.index : -1, cl, opt.stuck_limit);
        if (Bad(o)) reproduced++, conf = o;
      }
    }
    // State carried over from earlier cases of the same process: replay them
    // too, and keep as few of them as possible.
    std::vector<CaseRef> seq;
    if (!reproduced && fr.o.status != Status::kTimeout && !fr.prefix.empty()) {
      double seq_deadline = Now() + (opt.thorough ? 400 : 150);
      auto fails = [&](const std::vector<CaseRef> &p) {
        Outcome o = RunIsolated(c, 0, true, fr.o.choices, -1, 10 * cl, opt.stuck_limit, &p);
        if (Bad(o) && o.status != Status::kTimeout) {
          conf = o;
          return true;
        }
        return false;
      };
      std::vector<CaseRef> cur = fr.prefix;
      bool ok = false;
      // Suffixes of growing length.
      for (size_t len = 1; !ok && Now() < seq_deadline; len *= 4) {
        size_t l = std::min(len, fr.prefix.size());
        cur.assign(fr.prefix.end() - l, fr.prefix.end());
        ok = fails(cur);
        if (l == fr.prefix.size()) break;
      }
      if (ok) {
        reproduced = 1;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); Now() < seq_deadline; len = len / 2) {
          for (size_t i = 0; i < cur.size() && Now() < seq_deadline;) {
            std::vector<CaseRef> cand = cur;
            cand.erase(cand.begin() + i, cand.begin() + std::min(cand.size(), i + len));
            if (fails(cand)) cur = cand;
            else i += len;
          }
          if (len == 1) break;
        }
        fails(cur);
        seq = cur;
        std::vector<std::vector<uint64_t>> rec;
        {
          // Record the choices of the kept cases (in a child, through a file).
          std::string rf = opt.tmp + "/seq.rec";
          pid_t pid = fork();
          if (pid == 0) {
            int nul = open("/dev/null", O_WRONLY);
            if (nul >= 0) dup2(nul, 1), dup2(nul, 2);
            std::vector<std::vector<uint64_t>> r;
            ExecutePrefix(seq, &r);
            std::ofstream f(rf);
            for (auto &v : r) {
              f << v.size();
              for (uint64_t x : v) f << " " << x;
              f << "\n";
            }
            f.close();
            _exit(0);
          }
          bool to;
          WaitLimited(pid, &to, 10 * cl, opt.stuck_limit);
          std::ifstream f(rf);
          size_t n;
          while (f >> n) {
            std::vector<uint64_t> v(n);
            for (auto &x : v) f >> x;
            rec.push_back(v);
          }
        }
        for (size_t i = 0; i < seq.size() && i < rec.size(); i++) seq[i].index = -1, seq[i].choices = rec[i];
      }
    }
    Outcome best = reproduced ? conf : fr.o;
    if (!seq.empty()) best.choices = fr.o.choices;
    if (reproduced && seq.empty()) {
      if (best.choices.size() > fr.o.choices.size() && fr.o.status == Status::kFail) best.choices = fr.o.choices;
      if (!slow) best = Shrink(c, best, std::max(5.0, shrink_left));
    }
    // Replay the shrunk case three times.
    int again = slow ? reproduced : 0, reps = slow || best.status == Status::kTimeout ? 1 : 3;
    if (reproduced && !slow)
      for (int k = 0; k < reps; k++) {
        Outcome o = RunIsolated(c, 0, true, best.choices, -1, seq.empty() ? cl : 10 * cl, opt.stuck_limit, &seq);
        if (Bad(o)) {
          again++;
          if (!o.desc.empty()) best.desc = o.desc;
          best.msg = o.msg;
        }
      }
    shrink_left -= Now() - t0;
    if (reproduced && again) confirmed++;
    if (nfail++) fj += ",\n";
    std::string pj;
    for (auto &r : seq) pj += std::string(pj.empty() ? "" : ",") + "{\"check\":" + J(checks[r.check].name) + ",\"choices\":" + ChoicesJson(r.choices) + "}";
    if (!pj.empty()) pj = "\"prefix\":[" + pj + "],";
    fj += "{" + pj + "\"check\":" + J(c.name) + ",\"index\":" + std::to_string(fr.index) + ",\"status\":" + J(StatusName(best.status)) +
          ",\"reproduced\":" + (reproduced ? "true" : "false") + ",\"replays\":\"" + std::to_string(again) + "/" + std::to_string(reps) +
          "\",\"message\":" + J(Trunc(best.msg, 3000)) + ",\"original_message\":" + J(Trunc(fr.o.msg, 1500)) + ",\"case\":" + J(Trunc(best.desc, 4000)) +
          ",\"choices\":" + ChoicesJson(best.choices) + ",\"original_choices\":" + (fr.o.choices.size() < 20000 ? ChoicesJson(fr.o.choices) : "[]") + "}";
  }
  // Final (aggregate) checks.
  for (size_t i = 0; i < checks.size(); i++) {
    if (!checks[i].final_fn || evals[i] == 0) continue;
    std::map<std::string, int64_t> m;
    std::string pre = std::to_string(i) + "\tN";
    for (auto &e : counts)
      if (e.first.compare(0, pre.size(), pre) == 0) m[e.first.substr(pre.size())] = e.second;
    std::string msg = checks[i].final_fn(m);
    if (!msg.empty() && !first.count(static_cast<int>(i))) {
      if (nfail++) fj += ",\n";
      fj += "{\"check\":" + J(checks[i].name) + ",\"index\":-1,\"status\":\"aggregate\",\"reproduced\":true,\"replays\":\"-\",\"message\":" + J(msg) +
            ",\"case\":\"aggregate over all cases of this check; rerun with the same VERIF_SEED\",\"choices\":[],\"original_choices\":[]}";
    }
  }

  std::ostringstream js;
  int64_t te = 0, tn = 0, td = 0;
  for (size_t i = 0; i < checks.size(); i++) te += evals[i], tn += nontriv[i], td += discards[i];
  js << "{\"seed\":" << opt.seed << ",\"planned\":" << total << ",\"evaluations\":" << te << ",\"nontrivial\":" << tn
     << ",\"distinct_nontrivial\":" << hashes.size() << ",\"discarded\":" << td << ",\"budget_hit\":" << (budget_hit ? "true" : "false")
     << ",\"lost_workers\":" << lost << ",\"explore_s\":" << explore_s << ",\"wall_s\":" << Now() - start << ",\n\"checks\":[";
  bool firstc = true;
  for (size_t i = 0; i < checks.size(); i++) {
    if (!Selected(checks[i].name)) continue;
    js << (firstc ? "" : ",\n") << "{\"name\":" << J(checks[i].name) << ",\"planned\":" << EnumCount(checks[i]) + RandomCount(checks[i])
       << ",\"enumerated\":" << EnumCount(checks[i]) << ",\"evaluations\":" << evals[i] << ",\"nontrivial\":" << nontriv[i] << ",\"discarded\":" << discards[i] << ",\"labels\":{";
    firstc = false;
    bool fl = true;
    std::string pre = std::to_string(i) + "\t";
    int nl = 0;
    for (auto &e : counts) {
      if (e.first.compare(0, pre.size(), pre) != 0) continue;
      if (nl++ > 60) break;
      js << (fl ? "" : ",") << J(e.first.substr(pre.size() + 1)) << ":" << e.second;
      fl = false;
    }
    js << "},\"samples\":[";
    for (size_t k = 0; k < samples[i].size() && k < 3; k++) js << (k ? "," : "") << "\"" << samples[i][k] << "\"";
    js << "]}";
  }
  js << "],\n\"failures\":[" << fj << "]}\n";
  if (!opt.out.empty()) {
    std::ofstream f(opt.out);
    f << js.str();
  } else {
    std::cout << js.str();
  }
  cleanup();
  return nfail ? 1 : 0;
}

}  // namespace pbt
