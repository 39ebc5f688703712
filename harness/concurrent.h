// Several threads at the same time, started together.
#ifndef VERIF_CONCURRENT_H_
#define VERIF_CONCURRENT_H_
#include <atomic>
#include <exception>
#include <string>
#include <thread>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif

// Runs f(0), ..., f(n-1) at the same time; each returns an error or "".
// regions = 1: as the threads of a parallel region (regions within f then have
// one thread, whatever number is asked for), 2: the same with nesting allowed.
template <typename F>
std::string Concurrently(int n, F f, int regions = 0) {
  std::atomic<int> ready{0};
  std::vector<std::string> errs(n);
  auto call = [&](int t) {
    try {
      errs[t] = f(t);
    } catch (const std::exception &e) {
      errs[t] = std::string("exception: ") + e.what();
    }
  };
#ifdef _OPENMP
  if (regions) {
    int levels = omp_get_max_active_levels();
    omp_set_max_active_levels(regions);
#pragma omp parallel for num_threads(n) schedule(static)
    for (int t = 0; t < n; t++) call(t);
    omp_set_max_active_levels(levels);
  }
#else
  regions = 0;
#endif
  std::vector<std::thread> th;
  for (int t = 0; t < n && !regions; t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < n) std::this_thread::yield();
      call(t);
    });
  for (auto &t : th) t.join();
  for (int t = 0; t < n; t++)
    if (!errs[t].empty()) return "thread " + std::to_string(t) + " of " + std::to_string(n) + ": " + errs[t];
  return "";
}
#endif
