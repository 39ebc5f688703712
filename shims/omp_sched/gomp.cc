// A small OpenMP runtime for gcc's generated code, used instead of libgomp in the
// race-detection builds: everything it does is visible to ThreadSanitizer, and it
// varies the order and size of the pieces of work that threads get. Worker
// threads belong to the thread that starts parallel regions and persist, as in
// libgomp. Nested regions run on one thread.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace {
struct Rand {
  uint64_t s;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
std::atomic<uint64_t> g_seed{12345};
thread_local Rand t_rand{0};
void Perturb() {
  if (!t_rand.s) t_rand.s = g_seed.fetch_add(0x9E3779B9ull, std::memory_order_relaxed) | 1;
  switch (t_rand.Next() % 8) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(t_rand.Next() % 60)); break;
    default: break;
  }
}

// One work-sharing construct.
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool fixed = false;     // static: round robin by thread
  int left = 0;           // threads that have finished it
  std::vector<long> mine;  // static: next block of each thread
  // ordered
  long ordered_next = 0;
  // sections / single / copyprivate
  void *copy = nullptr;
  bool copied = false;
};
struct Team {
  int n = 1;
  std::mutex m;
  std::condition_variable cv;
  int arrived = 0;
  uint64_t generation = 0;
  std::map<uint64_t, std::shared_ptr<Loop>> loops;
  void Barrier() {
    std::unique_lock<std::mutex> l(m);
    uint64_t g = generation;
    if (++arrived == n) {
      arrived = 0;
      generation++;
      cv.notify_all();
    } else {
      cv.wait(l, [&] { return generation != g; });
    }
  }
};
struct State {
  Team *team = nullptr;
  int num = 0;
  uint64_t loop_no = 0;           // constructs entered so far
  std::shared_ptr<Loop> loop;     // the current one
  long block_lo = 0, block_hi = 0;  // current piece
  bool in_ordered = false;
};
thread_local State t_state;
thread_local int t_max = 0;
int DefaultThreads() {
  const char *e = getenv("OMP_NUM_THREADS");
  int n = e ? atoi(e) : 4;
  return n < 1 ? 1 : n;
}

struct Worker {
  std::thread th;
  std::mutex m;
  std::condition_variable cv;
  bool stop = false, busy = false;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  Team *team = nullptr;
  int num = 0;
  void Main() {
    for (;;) {
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return busy || stop; });
        if (!busy) return;
      }
      t_state = State();
      t_state.team = team, t_state.num = num;
      Perturb();
      fn(data);
      t_state = State();
      {
        std::lock_guard<std::mutex> l(m);
        busy = false;
      }
      cv.notify_all();
    }
  }
};
struct Pool {
  std::vector<std::unique_ptr<Worker>> w;
  ~Pool() {
    for (auto &p : w) {
      {
        std::lock_guard<std::mutex> l(p->m);
        p->stop = true;
      }
      p->cv.notify_all();
      p->th.join();
    }
  }
};
thread_local Pool t_pool;
int MaxThreads() { return t_max ? t_max : (t_max = DefaultThreads()); }

void RunParallel(void (*fn)(void *), void *data, unsigned num_threads, const std::shared_ptr<Loop> &first_loop) {
  int n = num_threads ? static_cast<int>(num_threads) : MaxThreads();
  State saved = t_state;
  if (saved.team && saved.team->n > 1) n = 1;
  Team team;
  team.n = n;
  if (first_loop) {
    first_loop->mine.assign(n, 0);
    team.loops[0] = first_loop;
  }
  while (static_cast<int>(t_pool.w.size()) < n - 1) {
    t_pool.w.push_back(std::make_unique<Worker>());
    Worker *p = t_pool.w.back().get();
    p->th = std::thread([p] { p->Main(); });
  }
  for (int i = 1; i < n; i++) {
    Worker &p = *t_pool.w[i - 1];
    {
      std::lock_guard<std::mutex> l(p.m);
      p.fn = fn, p.data = data, p.team = &team, p.num = i;
      p.busy = true;
    }
    p.cv.notify_all();
  }
  t_state = State();
  t_state.team = &team;
  Perturb();
  fn(data);
  t_state = saved;
  for (int i = 1; i < n; i++) {
    Worker &p = *t_pool.w[i - 1];
    std::unique_lock<std::mutex> l(p.m);
    p.cv.wait(l, [&] { return !p.busy; });
  }
}
Team *TheTeam() {
  static thread_local Team solo;
  return t_state.team ? t_state.team : &solo;
}
// Enters the next work-sharing construct; the first thread sets it up.
template <class F>
void Enter(F setup) {
  Team *t = TheTeam();
  std::lock_guard<std::mutex> l(t->m);
  auto &slot = t->loops[t_state.loop_no++];
  if (!slot) {
    slot = std::make_shared<Loop>();
    slot->mine.assign(t->n, 0);
    setup(slot.get());
  }
  t_state.loop = slot;
}
void Leave() {
  Team *t = TheTeam();
  std::lock_guard<std::mutex> l(t->m);
  if (t_state.loop && ++t_state.loop->left == t->n) t->loops.erase(t_state.loop_no - 1);
  t_state.loop.reset();
}
bool Next(long *istart, long *iend) {
  Perturb();
  Team *t = TheTeam();
  std::lock_guard<std::mutex> l(t->m);
  Loop &p = *t_state.loop;
  long total = p.incr > 0 ? (p.end - p.next + p.incr - 1) / p.incr : (p.next - p.end - p.incr - 1) / -p.incr;
  if (p.fixed) {
    // `next` stays at the beginning.
    if (total <= 0) return false;
    long k = p.mine[t_state.num];
    long lo, hi;
    if (p.chunk <= 0) {
      if (k > 0) return false;
      long q = total / t->n, r = total % t->n, i = t_state.num;
      lo = i * q + (i < r ? i : r), hi = lo + q + (i < r ? 1 : 0);
    } else {
      lo = (k * t->n + t_state.num) * p.chunk, hi = lo + p.chunk;
      if (hi > total) hi = total;
    }
    if (lo >= hi) return false;
    p.mine[t_state.num]++;
    *istart = p.next + lo * p.incr, *iend = p.next + hi * p.incr;
  } else {
    if (total <= 0) return false;
    if (!t_rand.s) t_rand.s = 1;
    long most = p.chunk > 1 ? p.chunk : 1 + total / t->n;
    long k = 1 + static_cast<long>(t_rand.Next() % static_cast<uint64_t>(most));
    if (p.chunk > 1) k = p.chunk;
    if (k > total) k = total;
    *istart = p.next;
    p.next += k * p.incr;
    *iend = p.next;
  }
  t_state.block_lo = *istart, t_state.block_hi = *iend;
  return true;
}
bool Start(long start, long end, long incr, long chunk, bool fixed, long *istart, long *iend) {
  Enter([&](Loop *p) {
    p->next = start, p->end = end, p->incr = incr, p->chunk = chunk, p->fixed = fixed;
    p->ordered_next = start;
  });
  return Next(istart, iend);
}
std::shared_ptr<Loop> MakeLoop(long start, long end, long incr, long chunk, bool fixed) {
  auto p = std::make_shared<Loop>();
  p->next = p->ordered_next = start, p->end = end, p->incr = incr, p->chunk = chunk, p->fixed = fixed;
  return p;
}
struct LoopCall {
  void (*fn)(void *);
  void *data;
};
// Combined constructs: the compiler calls *_next only.
void CombinedMain(void *d) {
  auto *c = static_cast<LoopCall *>(d);
  Enter([](Loop *) {});
  c->fn(c->data);
}
void Combined(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, bool fixed) {
  LoopCall call{fn, data};
  RunParallel(CombinedMain, &call, n, MakeLoop(s, e, i, c, fixed));
}
std::mutex g_critical;
std::mutex g_named_m;
std::map<void **, std::unique_ptr<std::mutex>> g_named;
std::mutex &Named(void **p) {
  std::lock_guard<std::mutex> l(g_named_m);
  auto &m = g_named[p];
  if (!m) m = std::make_unique<std::mutex>();
  return *m;
}
}  // namespace

extern "C" {
int omp_get_max_threads() { return MaxThreads(); }
void omp_set_num_threads(int n) { t_max = n < 1 ? 1 : n; }
int omp_get_num_threads() { return TheTeam()->n; }
int omp_get_thread_num() { return t_state.num; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_in_parallel() { return TheTeam()->n > 1; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_level() { return t_state.team ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { RunParallel(fn, data, n, nullptr); }
void GOMP_barrier() { TheTeam()->Barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
#define LOOP(kind, fixed)                                                                                                                       \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return Start(s, e, i, c, fixed, a, b); }                    \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return Next(a, b); }                                                                         \
  bool GOMP_loop_ordered_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return Start(s, e, i, c, fixed, a, b); }            \
  bool GOMP_loop_ordered_##kind##_next(long *a, long *b) { return Next(a, b); }                                                                 \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { Combined(fn, d, n, s, e, i, c, fixed); }
LOOP(static, true)
LOOP(dynamic, false)
LOOP(guided, false)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, false)
#undef LOOP
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return Start(s, e, i, 1, false, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return Next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return Start(s, e, i, 1, false, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return Next(a, b); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { Combined(fn, d, n, s, e, i, 1, false); }
void GOMP_loop_end_nowait() { Leave(); }
void GOMP_loop_end() {
  Leave();
  TheTeam()->Barrier();
}
// Blocks of an ordered loop run one after another. The runtime does not know
// which iteration of its block a thread is at, so it orders whole blocks: a
// thread enters when all earlier iterations are done and counts its own.
void GOMP_ordered_start() {
  Perturb();
  Team *t = TheTeam();
  std::unique_lock<std::mutex> l(t->m);
  Loop &p = *t_state.loop;
  t->cv.wait(l, [&] { return p.incr > 0 ? p.ordered_next >= t_state.block_lo : p.ordered_next <= t_state.block_lo; });
}
void GOMP_ordered_end() {
  Team *t = TheTeam();
  {
    std::lock_guard<std::mutex> l(t->m);
    t_state.loop->ordered_next += t_state.loop->incr;
  }
  t->cv.notify_all();
}
bool GOMP_single_start() {
  bool first = false;
  Enter([&](Loop *) { first = true; });
  Leave();
  return first;
}
void *GOMP_single_copy_start() {
  bool first = false;
  Enter([&](Loop *) { first = true; });
  if (first) return nullptr;
  Team *t = TheTeam();
  void *r;
  {
    std::unique_lock<std::mutex> l(t->m);
    t->cv.wait(l, [&] { return t_state.loop->copied; });
    r = t_state.loop->copy;
  }
  Leave();
  return r;
}
void GOMP_single_copy_end(void *d) {
  Team *t = TheTeam();
  {
    std::lock_guard<std::mutex> l(t->m);
    t_state.loop->copy = d, t_state.loop->copied = true;
  }
  t->cv.notify_all();
  Leave();
  t->Barrier();
}
void GOMP_critical_start() { g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); }
void GOMP_critical_name_start(void **p) { Named(p).lock(); }
void GOMP_critical_name_end(void **p) { Named(p).unlock(); }
void GOMP_atomic_start() { g_critical.lock(); }
void GOMP_atomic_end() { g_critical.unlock(); }
unsigned GOMP_sections_start(unsigned n) {
  Enter([&](Loop *p) { p->next = 1, p->end = static_cast<long>(n) + 1; });
  long a, b;
  t_state.loop->chunk = 1;
  {
    std::lock_guard<std::mutex> l(TheTeam()->m);
    a = t_state.loop->next;
    if (a < t_state.loop->end) t_state.loop->next++;
    else a = 0;
  }
  (void)b;
  return static_cast<unsigned>(a);
}
unsigned GOMP_sections_next() {
  Perturb();
  std::lock_guard<std::mutex> l(TheTeam()->m);
  long a = t_state.loop->next;
  if (a >= t_state.loop->end) return 0;
  t_state.loop->next++;
  return static_cast<unsigned>(a);
}
void GOMP_sections_end_nowait() { Leave(); }
void GOMP_sections_end() {
  Leave();
  TheTeam()->Barrier();
}
}
