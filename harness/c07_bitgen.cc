// C07: the bit generator against AES-128 in counter mode, over histories of
// draws, reseeds, rejected reseeds, copies and moves.
// C08 (with VERIF_INTERVAL): the same generator close to its reseed interval.
#include <memory>

#include "aes_ref.h"
#include "concurrent.h"
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
#include "pbt.h"
#include "scalars.h"

using distributed_vector_ole::AESUniformBitGenerator;
using pbt::Ctx;
using pbt::Hex;
using pbt::u128;

namespace {
#ifdef VERIF_INTERVAL
const int64_t kInterval = VERIF_INTERVAL;
#else
const int64_t kInterval = int64_t{1} << 48;
#endif

struct Seed {
  std::vector<uint8_t> bytes;
  int misalign = 0;
  std::vector<uint8_t> store;  // keeps an unaligned copy alive
  absl::Span<const uint8_t> Span() {
    store.assign(bytes.size() + 32, 0xee);
    size_t base = reinterpret_cast<uintptr_t>(store.data()) % 16;
    size_t off = (16 - base) % 16 + misalign;
    if (!bytes.empty()) std::memcpy(store.data() + off, bytes.data(), bytes.size());
    return absl::Span<const uint8_t>(store.data() + off, bytes.size());
  }
};

// The keystream: state of one generator in the model.
struct Model {
  std::shared_ptr<aesref::Aes128> aes;
  u128 nonce = 0;
  int64_t buffer = 2;   // values per refill
  int64_t pos = 0;      // draws since the last seeding
  bool exhausted = false;
  bool valid = true;    // false after being moved from
  u128 cached = 0;
  int64_t cached_block = -1;
  uint64_t At(int64_t i) {
    int64_t b = i / 2;
    if (b != cached_block) {
      cached = aes->Encrypt(nonce + static_cast<u128>(b));
      cached_block = b;
    }
    return static_cast<uint64_t>(i % 2 ? cached >> 64 : cached);
  }
  void Reseed(const Seed &s) {
    aes = std::make_shared<aesref::Aes128>(s.bytes.data());
    std::memcpy(&nonce, s.bytes.data() + 16, 16);
    pos = 0;
    exhausted = false;
    cached_block = -1;
  }
};

// `past`: seeds of this history, to which a new one may be related.
Seed DrawSeed(Ctx &c, bool valid, std::vector<Seed> *past = nullptr) {
  Seed s;
  size_t n = valid ? 32 + (c.Chance(1, 3) ? c.Choice(40) : 0) : (c.Chance(1, 3) ? 31 : c.Choice(31));
  s.bytes.resize(n);
  pbt::Rng r = c.Bulk();
  r.Fill(s.bytes.data(), n);
  if (valid) {
    u128 nonce;
    switch (c.Choice(4)) {
      case 0: nonce = ~static_cast<u128>(0) - c.Choice(300); break;             // wraps soon
      case 1: nonce = (c.Bits128() << 64) | (~0ull - c.Choice(300)); break;     // carry into the upper word
      case 2: nonce = (c.Bits128() << 64) | (0xffffffffull - c.Choice(100)); break;
      case 3: nonce = c.Bits128(); break;
      default: std::memcpy(&nonce, s.bytes.data() + 16, 16);
    }
    std::memcpy(s.bytes.data() + 16, &nonce, 16);
    if (c.Chance(1, 10)) std::memset(s.bytes.data(), 0, 16);
    if (past && !past->empty() && c.Chance(1, 3)) {
      const Seed &o = c.Pick(*past);
      u128 k, nc;
      std::memcpy(&k, o.bytes.data(), 16);
      std::memcpy(&nc, o.bytes.data() + 16, 16);
      switch (c.Choice(3)) {
        case 0: k = c.Relative(k); break;
        case 1: nc = c.Relative(nc); break;
        case 2: k = c.Relative(k), std::memcpy(&nc, s.bytes.data() + 16, 16); break;
        default: std::memcpy(&k, s.bytes.data(), 16), nc = c.Relative(nc);
      }
      std::memcpy(s.bytes.data(), &k, 16);
      std::memcpy(s.bytes.data() + 16, &nc, 16);
      c.Label("seed related to an earlier one");
    }
    if (past) past->push_back(s);
  }
  s.misalign = static_cast<int>(c.Choice(15));
  return s;
}

int64_t RealBuffer(int64_t requested) {
  // At least one block of two values.
  int64_t b = requested < 2 ? 2 : requested;
  return b + b % 2;
}

std::string SeedStr(const Seed &s) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (auto b : s.bytes) r += d[b >> 4], r += d[b & 15];
  return r + (s.misalign ? "+" + std::to_string(s.misalign) : "");
}

void Draw(Ctx &c, AESUniformBitGenerator &g, Model &m, int64_t n, const std::string &who) {
  for (int64_t i = 0; i < n; i++) {
    bool threw = false;
    uint64_t v = 0;
    try {
      v = g();
    } catch (const std::exception &) {
      threw = true;
    }
    int64_t block = m.pos / 2;
    // Blocks computed so far when the buffer that holds this value is full.
    int64_t refill_end = (m.pos / m.buffer + 1) * (m.buffer / 2);
    if (threw) {
      PBT_REQUIRE(c, m.exhausted || refill_end > kInterval,
                  who << ": draw " << m.pos << " after seeding throws, but needs only " << refill_end << " AES calls (interval " << kInterval << ", buffer " << m.buffer << ")");
      m.exhausted = true;
      c.Label("reached the interval");
      continue;
    }
    PBT_REQUIRE(c, !m.exhausted, who << ": a draw returns " << v << " after an earlier draw threw (interval " << kInterval << ", buffer " << m.buffer << ")");
    PBT_REQUIRE(c, block < kInterval, who << ": draw " << m.pos << " returns a value although the reseed interval of " << kInterval << " AES calls is exceeded (buffer " << m.buffer << ")");
    uint64_t want = m.At(m.pos);
    PBT_REQUIRE(c, v == want, who << ": draw " << m.pos << " after seeding is " << v << ", expected " << want << " (buffer " << m.buffer << ", nonce " << Hex(m.nonce) << ")");
    m.pos++;
  }
}

void History(Ctx &c) {
  struct Slot {
    std::unique_ptr<AESUniformBitGenerator> g;
    Model m;
  };
  std::vector<Slot> slots;
  std::vector<Seed> past;
  bool wrapped = false, crossed = false, reseeded_mid = false, interval = false;
  auto create = [&]() {
    int64_t req;
#ifdef VERIF_INTERVAL
    req = c.Bool() ? c.Size(-3, 40) : c.Size(-3, 4 * kInterval + 6);
    if (c.Chance(1, 6)) req = 2 * kInterval + c.Range(-3, 3);
#else
    if (c.Chance(1, 400)) req = AESUniformBitGenerator::kDefaultBufferSize;
    else req = c.Bool() ? c.Range(-5, 12) : c.Size(-5, 700);
#endif
    Seed s = DrawSeed(c, true, &past);
    auto r = AESUniformBitGenerator::Create(s.Span(), req);
    c.Desc() << "create(" << req << "," << SeedStr(s) << ") ";
    PBT_REQUIRE(c, r.ok(), "Create with a seed of " << s.bytes.size() << " bytes and buffer size " << req << " fails: " << r.status().message());
    Slot n;
    n.g.reset(new AESUniformBitGenerator(std::move(r.ValueOrDie())));
    n.m.buffer = RealBuffer(req);
    n.m.Reseed(s);
    std::fill(s.store.begin(), s.store.end(), 0xcd);  // the seed may go away
    slots.push_back(std::move(n));
  };
  create();
  int steps = static_cast<int>(c.Range(1, 25));
  for (int i = 0; i < steps; i++) {
    size_t k = c.Choice(slots.size() - 1);
    Slot &s = slots[k];
    std::string who = "generator " + std::to_string(k);
    uint64_t op = c.Choice(12);
    if (!s.m.valid && op != 2 && op != 3) op = 2;
    switch (op) {
      default: {
        int64_t n;
        int64_t left = s.m.buffer - s.m.pos % s.m.buffer;  // to the end of the buffer
        switch (c.Choice(4)) {
          case 0: n = c.Range(1, 5); break;
          case 1: n = left + c.Range(-1, 2); break;
          case 2: n = left + s.m.buffer * c.Range(1, 3) + c.Range(-1, 1); break;
#ifdef VERIF_INTERVAL
          case 3: n = 2 * kInterval - s.m.pos + c.Range(-3, 5); break;
#endif
          default: n = c.Range(1, 60);
        }
        if (n < 0) n = 0;
        if (n > 200000) n = 200000;
        if (!pbt::Thorough() && s.m.buffer > 10000 && n > 140000) n = 140000;
        c.Desc() << k << ":draw" << n << " ";
        int64_t before = s.m.pos;
        Draw(c, *s.g, s.m, n, who);
        crossed |= before / s.m.buffer != s.m.pos / s.m.buffer;
        wrapped |= s.m.nonce + static_cast<u128>(s.m.pos / 2) < s.m.nonce;
        interval |= s.m.exhausted;
        break;
      }
      case 2: {
        Seed sd = DrawSeed(c, true, &past);
        c.Desc() << k << ":seed(" << SeedStr(sd) << ") ";
        auto st = s.g->seed(sd.Span());
        PBT_REQUIRE(c, st.ok(), "reseeding with " << sd.bytes.size() << " bytes fails");
        reseeded_mid |= s.m.pos % s.m.buffer != 0;
        if (!s.m.valid) {
          // A moved-from generator may have lost its buffer; replace it.
          s.m.valid = true;
          auto r = AESUniformBitGenerator::Create(sd.Span(), s.m.buffer);
          *s.g = std::move(r.ValueOrDie());
        }
        s.m.Reseed(sd);
        std::fill(sd.store.begin(), sd.store.end(), 0xcd);
        break;
      }
      case 3: {  // rejected
        Seed sd = DrawSeed(c, false);
        c.Desc() << k << ":badseed" << sd.bytes.size() << " ";
        if (c.Bool()) {
          auto r = AESUniformBitGenerator::Create(sd.Span(), 4);
          PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "Create with a seed of " << sd.bytes.size() << " bytes is not rejected as invalid");
        }
        if (s.m.valid) {
          auto st = s.g->seed(sd.Span());
          PBT_REQUIRE(c, !st.ok() && mpc_utils::IsInvalidArgument(st), "reseeding with " << sd.bytes.size() << " bytes is not rejected as invalid");
        }
        break;
      }
      case 4: {
        if (slots.size() > 3) break;
        c.Desc() << k << ":copy ";
        Slot n;
        n.g.reset(new AESUniformBitGenerator(*s.g));
        n.m = s.m;
        slots.push_back(std::move(n));
        break;
      }
      case 5: {
        if (slots.size() < 2) break;
        size_t o = c.Choice(slots.size() - 1);
        if (o == k || !slots[o].m.valid) break;
        c.Desc() << k << ":assign" << o << " ";
        *s.g = *slots[o].g;
        s.m = slots[o].m;
        break;
      }
      case 6: {
        if (slots.size() > 3) break;
        c.Desc() << k << ":move ";
        Slot n;
        n.g.reset(new AESUniformBitGenerator(std::move(*s.g)));
        n.m = s.m;
        s.m.valid = false;
        slots.push_back(std::move(n));
        break;
      }
      case 7:
        if (slots.size() < 4) create();
        break;
    }
  }
  for (size_t k = 0; k < slots.size(); k++)
    if (slots[k].m.valid) Draw(c, *slots[k].g, slots[k].m, 3, "generator " + std::to_string(k));
  if (wrapped) c.Label("counter wraps around");
  if (crossed) c.Label("crosses a buffer boundary");
  if (reseeded_mid) c.Label("reseeds in mid-buffer");
#ifdef VERIF_INTERVAL
  c.NonTrivial(interval);
#else
  c.NonTrivial(crossed || wrapped || reseeded_mid);
#endif
}

void Constants(Ctx &c) {
  c.Desc() << "result range, interval";
  c.NonTrivial();
  PBT_REQUIRE(c, AESUniformBitGenerator::min() == 0 && AESUniformBitGenerator::max() == ~0ull, "range of the generator is not that of 64-bit values");
  int64_t interval = AESUniformBitGenerator::kReseedInterval;
#if defined(VERIF_INTERVAL) || defined(VERIF_CONST_ONLY)
  PBT_REQUIRE(c, interval == kInterval, "the reseed interval is " << interval << " AES calls");
#endif
  (void)interval;
}

// Default buffer size.
void DefaultBuffer(Ctx &c) {
  Seed s = DrawSeed(c, true);
  c.Desc() << "default buffer, seed " << SeedStr(s);
  c.NonTrivial();
  auto r = AESUniformBitGenerator::Create(s.Span());
  PBT_REQUIRE(c, r.ok(), "Create fails");
  Model m;
  m.buffer = AESUniformBitGenerator::kDefaultBufferSize;
  m.Reseed(s);
  int64_t n = m.buffer + c.Range(0, 5);
  AESUniformBitGenerator g = std::move(r.ValueOrDie());
  for (int64_t i = 0; i < n; i++) {
    bool threw = false;
    uint64_t v = 0;
    try {
      v = g();
    } catch (const std::exception &) {
      threw = true;
    }
    if (threw) {
      PBT_REQUIRE(c, (i / m.buffer + 1) * (m.buffer / 2) > kInterval, "draw " << i << " with the default buffer throws");
      m.exhausted = true;
      continue;
    }
    PBT_REQUIRE(c, !m.exhausted, "a draw succeeds after an earlier one threw");
    PBT_REQUIRE(c, i / 2 < kInterval, "draw " << i << " is beyond the interval");
    if (i < 64 || i % 1021 < 3 || i > n - 40) PBT_REQUIRE(c, v == m.At(i), "draw " << i << " with the default buffer is wrong");
  }
}

#if !defined(VERIF_INTERVAL) && !defined(VERIF_CONST_ONLY)
// Generators on several threads at the same time: own ones, and copies of a
// common one.
void ConcurrentUse(Ctx &c) {
  struct Job {
    std::vector<uint8_t> seed;
    int64_t req, n, before;
    std::vector<uint64_t> want;
    bool copy;
  };
  int nt = static_cast<int>(c.Range(2, 8));
  std::vector<Job> jobs(nt);
  std::vector<Seed> past;
  Seed common = DrawSeed(c, true, &past);
  auto rc = AESUniformBitGenerator::Create(common.Span(), c.Range(-2, 60));
  PBT_REQUIRE(c, rc.ok(), "Create fails");
  AESUniformBitGenerator shared = std::move(rc.ValueOrDie());
  int64_t used = c.Range(0, 70);
  for (int64_t i = 0; i < used; i++) shared();
  c.Desc() << nt << " threads; common seed " << SeedStr(common) << ", " << used << " draws:";
  for (auto &j : jobs) {
    j.copy = c.Chance(1, 3);
    Seed s = j.copy ? common : DrawSeed(c, true, &past);
    j.seed = s.bytes;
    j.req = c.Size(-2, 300);
    j.n = c.Range(200, 3000);
    j.before = j.copy ? used : 0;
    Model m;
    m.Reseed(s);
    for (int64_t i = 0; i < j.n; i++) j.want.push_back(m.At(j.before + i));
    c.Desc() << (j.copy ? " copy" : " own") << " buffer " << j.req << " draws " << j.n << ";";
  }
  c.NonTrivial();
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    const Job &j = jobs[t];
    for (int q = 0; q < 3; q++) {
      std::unique_ptr<AESUniformBitGenerator> g;
      if (j.copy) {
        const AESUniformBitGenerator &from = shared;
        g.reset(new AESUniformBitGenerator(from));
      } else {
        auto r = AESUniformBitGenerator::Create(absl::MakeConstSpan(j.seed), j.req);
        if (!r.ok()) return "Create fails";
        g.reset(new AESUniformBitGenerator(std::move(r.ValueOrDie())));
      }
      for (int64_t i = 0; i < j.n; i++) {
        uint64_t v = (*g)();
        if (v != j.want[i]) return "draw " + std::to_string(i) + (j.copy ? " of a copy" : "") + " is " + std::to_string(v) + ", expected " + std::to_string(j.want[i]) + " (other threads draw at the same time)";
      }
    }
    return "";
  });
  if (!err.empty()) c.Fail(err);
}
#endif

#ifdef VERIF_INTERVAL
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(x) #x
#define STR(x) STR2(x)
pbt::Register r1{{"bitgen_interval_" STR(VERIF_INTERVAL), History, VERIF_INTERVAL > 2000 ? 60 : 12000, VERIF_INTERVAL > 2000 ? 600 : 300000, 0, -1, 0.1}};
pbt::Register r2{{"bitgen_interval_constant_" STR(VERIF_INTERVAL), Constants, 1, 1, 0, -1, 1}};
pbt::Register r3{{"bitgen_interval_default_" STR(VERIF_INTERVAL), DefaultBuffer, 4, 40, 0, -1, 1}};
#elif defined(VERIF_CONST_ONLY)
pbt::Register r2{{"bitgen_interval_constant", Constants, 1, 1, 0, -1, 1}};
#else
pbt::Register r1{{"bitgen_history", History, 60000, 1500000, 0, -1, 0.1}};
pbt::Register r4{{"bitgen_concurrent", ConcurrentUse, 300, 8000, 0, -1, 0.1}};
pbt::Register r2{{"bitgen_constants", Constants, 1, 1, 0, -1, 1}};
pbt::Register r3{{"bitgen_default_buffer", DefaultBuffer, 40, 400, 0, -1, 0.1}};
#endif
}  // namespace
