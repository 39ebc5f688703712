// Deterministic stand-in for the cryptographic random source: RAND_bytes is
// interposed; a calling thread with a tape gets the tape's bytes, other threads
// get the process-wide fallback tape, or the real source when none is set.
#ifndef VERIF_RAND_TAPE_H_
#define VERIF_RAND_TAPE_H_
#include <cstdint>
namespace verif_rand {
void SetThreadTape(uint64_t seed);
void ClearThreadTape();
void SetFallbackTape(uint64_t seed);
void ClearFallbackTape();
struct ThreadTape {
  explicit ThreadTape(uint64_t seed) { SetThreadTape(seed); }
  ~ThreadTape() { ClearThreadTape(); }
};
// Bytes this thread has requested since SetThreadTape.
uint64_t ThreadBytes();
}  // namespace verif_rand
#endif
