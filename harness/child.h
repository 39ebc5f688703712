// Runs calls whose arguments are too large for this machine in a child process
// with little memory: whether they are accepted shows in what they ask for.
#ifndef VERIF_CHILD_H_
#define VERIF_CHILD_H_
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VERIF_NO_CHILD
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VERIF_NO_CHILD
#endif
#ifndef VERIF_NO_CHILD
#include <omp.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <functional>
#include <new>
#include <stdexcept>
#include <thread>

namespace child {
// Exit codes; crashes are reported as minus the signal.
enum { kDone = 10, kRejected, kOther, kSent, kMemory, kThrew, kLength };
inline std::string Show(int rc) {
  static const char *names[] = {"completed", "rejected as an invalid argument", "another error", "messages were sent", "asked for the memory that it needs", "an exception", "a length error was thrown"};
  if (rc < 0) return "crash, signal " + std::to_string(-rc);
  if (rc >= kDone && rc <= kLength) return names[rc - kDone];
  return "exit status " + std::to_string(rc);
}
inline int Run(const std::function<int()> &f, int64_t gib = 3) {
  pid_t p = fork();
  if (p < 0) return kMemory;
  if (p == 0) {
    // The thread pool of the parent does not exist here, but a new thread has
    // its own.
    int rc = kThrew;
    std::thread([&] {
      omp_set_num_threads(2);
      rlimit l;
      long pages = 0;
      if (FILE *fp = fopen("/proc/self/statm", "r")) {
        if (fscanf(fp, "%ld", &pages) != 1) pages = 0;
        fclose(fp);
      }
      l.rlim_cur = l.rlim_max = static_cast<rlim_t>(pages) * 4096 + (static_cast<rlim_t>(gib) << 30);
      setrlimit(RLIMIT_AS, &l);
      rlimit no{0, 0};
      setrlimit(RLIMIT_CORE, &no);
      // Crash messages are expected.
      if (!freopen("/dev/null", "w", stderr)) fclose(stderr);
      std::set_new_handler([] { _exit(kMemory); });
      alarm(100);
      try {
        rc = f();
      } catch (const std::bad_alloc &) {
        rc = kMemory;
      } catch (const std::length_error &) {
        rc = kLength;
      } catch (...) {
        rc = kThrew;
      }
      _exit(rc);
    }).join();
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return -WTERMSIG(st);
  return WEXITSTATUS(st);
}
// Address space without memory.
struct Space {
  explicit Space(size_t bytes, bool usable) : bytes(bytes) {
    p = mmap(nullptr, bytes, usable ? PROT_READ | PROT_WRITE : PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) p = nullptr;
  }
  ~Space() {
    if (p) munmap(p, bytes);
  }
  Space(const Space &) = delete;
  size_t bytes;
  void *p;
};
}  // namespace child
#endif
#endif
