// libFuzzer entry: bytes -> choices of one check (environment VERIF_FUZZ_CHECK).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>

#include "pbt.h"

static const pbt::Check *Target() {
  static const pbt::Check *t = nullptr;
  if (!t) {
    const char *name = getenv("VERIF_FUZZ_CHECK");
    for (auto &c : pbt::Registry())
      if (name && c.name == name) t = &c;
    if (!t) {
      fprintf(stderr, "VERIF_FUZZ_CHECK not found\n");
      _Exit(97);
    }
  }
  return t;
}

static void Report(const pbt::Ctx &ctx, const std::string &msg) {
  const char *out = getenv("VERIF_FUZZ_OUT");
  if (!out) return;
  std::ofstream f(out);
  f << "{\"check\":\"" << Target()->name << "\",\"choices\":[";
  for (size_t i = 0; i < ctx.record().size(); i++) f << (i ? "," : "") << ctx.record()[i];
  f << "],\"message\":\"";
  for (char c : msg) f << ((c == '"' || c == '\\' || c < 32) ? ' ' : c);
  f << "\"}\n";
}

static pbt::Ctx *g_ctx = nullptr;

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback([] {
      if (g_ctx) Report(*g_ctx, "crash");
    });
  if (const char *c = getenv("VERIF_CONSTANTS")) {
    std::ifstream f(c);
    std::vector<uint64_t> v;
    uint64_t x;
    while (f >> x) v.push_back(x);
    pbt::SetSourceConstants(v);
  }
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  const pbt::Check *t = Target();
  pbt::Ctx ctx(data, size);
  g_ctx = &ctx;
  try {
    t->fn(ctx);
  } catch (const pbt::Failure &f) {
    Report(ctx, f.msg);
    g_ctx = nullptr;
    abort();
  } catch (const pbt::Discard &) {
  } catch (const std::exception &e) {
    Report(ctx, std::string("unexpected exception: ") + e.what());
    g_ctx = nullptr;
    abort();
  }
  g_ctx = nullptr;
  return 0;
}
