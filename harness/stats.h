// Statistical thresholds shared by the distribution checks. All bounds are set
// so that a correct implementation fails with probability far below 1e-9 per
// comparison.
#ifndef VERIF_STATS_H_
#define VERIF_STATS_H_
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
namespace stats {
// |k - n p| within z standard deviations plus slack for small n.
inline bool BinomialOk(double k, double n, double p, double z = 7.5) {
  return std::fabs(k - n * p) <= z * std::sqrt(n * p * (1 - p)) + 6;
}
// Chi-square statistic against given expectations, Wilson-Hilferty to a normal
// deviate.
inline double ChiZ(const std::vector<double> &obs, const std::vector<double> &exp) {
  // Cells that are too small for the approximation are pooled.
  double po = 0, pe = 0, x = 0;
  int df = -1;
  size_t big = 0;
  for (size_t i = 0; i < obs.size(); i++)
    if (exp[i] > exp[big]) big = i;
  for (size_t i = 0; i < obs.size(); i++)
    if (exp[i] < 8) po += obs[i], pe += exp[i];
  // Something was seen that cannot occur.
  if (pe <= 1e-12 && po > 0) return 1e9;
  if (pe < 8) {  // the pool itself is too small: join it with the largest cell
    if (exp.empty() || exp[big] < 8) return 0;
  } else {
    x += (po - pe) * (po - pe) / pe;
    df++;
    po = pe = 0;
  }
  for (size_t i = 0; i < obs.size(); i++) {
    if (exp[i] < 8) continue;
    double o = obs[i] + (i == big ? po : 0), e = exp[i] + (i == big ? pe : 0);
    x += (o - e) * (o - e) / e;
    df++;
  }
  if (df < 1) return 0;
  double k = df;
  return (std::cbrt(x / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
}
inline double ChiZUniform(const std::vector<int64_t> &obs) {
  double n = 0;
  for (auto v : obs) n += v;
  std::vector<double> o(obs.begin(), obs.end()), e(obs.size(), n / obs.size());
  return ChiZ(o, e);
}
}  // namespace stats
#endif
