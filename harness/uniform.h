// Uniformity of values accumulated over all cases of a check.
#ifndef VERIF_UNIFORM_H_
#define VERIF_UNIFORM_H_
#include <map>

#include "pbt.h"
#include "scalars.h"
#include "stats.h"
namespace uni {
using pbt::u128;
// Bin in 0..15 that is uniform whenever v is uniform in the ring.
inline int HighBin(u128 v, const sc::Ring &r, pbt::Rng *rng) {
  if (r.n == 0) return static_cast<int>(v >> 124);
  long double n = static_cast<long double>(r.n);
  long double u = (static_cast<long double>(v) + static_cast<long double>((*rng)()) / 18446744073709551616.0L) / n;
  int b = static_cast<int>(u * 16);
  return b < 0 ? 0 : b > 15 ? 15 : b;
}
inline void Add(pbt::Ctx &c, const std::string &name, u128 v, const sc::Ring &r, pbt::Rng *rng) {
  static const char *kHex[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"};
  c.Count("~" + name + ".hi." + kHex[HighBin(v, r, rng)]);
  bool lo = r.n == 0 || r.n % 16 == 0 || (r.n >> 48) != 0;
  if (lo) c.Count("~" + name + ".lo." + kHex[static_cast<int>(v & 15)]);
}
// An event that has probability p.
inline void Event(pbt::Ctx &c, const std::string &name, bool happened, double p) {
  if (happened) c.Count("|" + name + ".k");
  c.Count("|" + name + ".p", static_cast<int64_t>(p * 1e9 + 0.5));
  c.Count("|" + name + ".n");
}
inline std::string Verdict(const std::map<std::string, int64_t> &m, double zmax = 8.0) {
  std::map<std::string, std::vector<int64_t>> h;
  std::map<std::string, std::array<double, 3>> ev;
  for (auto &e : m) {
    const std::string &k = e.first;
    if (k.size() > 3 && k[0] == '~') {
      int b = k.back() <= '9' ? k.back() - '0' : k.back() - 'a' + 10;
      auto &v = h[k.substr(1, k.size() - 3)];
      v.resize(16);
      v[b] += e.second;
    } else if (k.size() > 3 && k[0] == '|') {
      auto &v = ev.emplace(k.substr(1, k.size() - 3), std::array<double, 3>{0, 0, 0}).first->second;
      (k.back() == 'k' ? v[0] : k.back() == 'p' ? v[1] : v[2]) += static_cast<double>(e.second);
    }
  }
  std::string out;
  for (auto &e : h) {
    double z = stats::ChiZUniform(e.second);
    if (z > zmax) {
      out += e.first + " is not uniform (z=" + std::to_string(z) + "):";
      for (auto v : e.second) out += " " + std::to_string(v);
      out += "\n";
    }
  }
  for (auto &e : ev) {
    double mu = e.second[1] / 1e9, k = e.second[0];
    if (std::fabs(k - mu) > 7.5 * std::sqrt(mu) + 6)
      out += e.first + " happened " + std::to_string(static_cast<int64_t>(k)) + " times in " + std::to_string(static_cast<int64_t>(e.second[2])) +
             ", expected " + std::to_string(mu) + "\n";
  }
  return out;
}
}  // namespace uni
#endif
