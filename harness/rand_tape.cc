#include "rand_tape.h"

#include <sys/random.h>
#include <sys/types.h>

#include <cstdlib>
#include <mutex>

#include "pbt.h"

namespace verif_rand {
namespace {
thread_local bool t_on = false;
thread_local pbt::Rng t_rng;
thread_local uint64_t t_bytes = 0;
std::mutex g_m;
bool g_on = false;
pbt::Rng g_rng;
}  // namespace
void SetThreadTape(uint64_t seed) { t_on = true, t_rng.Seed(seed), t_bytes = 0; }
void ClearThreadTape() { t_on = false; }
void SetFallbackTape(uint64_t seed) {
  std::lock_guard<std::mutex> l(g_m);
  g_on = true;
  g_rng.Seed(seed);
}
void ClearFallbackTape() {
  std::lock_guard<std::mutex> l(g_m);
  g_on = false;
}
uint64_t ThreadBytes() { return t_bytes; }
static int Fill(uint8_t *buf, size_t len) {
  if (t_on) {
    t_bytes += len;
    t_rng.Fill(buf, len);
    return 1;
  }
  {
    std::lock_guard<std::mutex> l(g_m);
    if (g_on) {
      g_rng.Fill(buf, len);
      return 1;
    }
  }
  // The real source.
  while (len > 0) {
    ssize_t n = getrandom(buf, len < 256 ? len : 256, 0);
    if (n <= 0) abort();
    buf += n, len -= static_cast<size_t>(n);
  }
  return 1;
}
}  // namespace verif_rand

extern "C" int RAND_bytes(uint8_t *buf, size_t len) { return verif_rand::Fill(buf, len); }
