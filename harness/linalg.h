// Linear algebra over the fields used as scalar types.
#ifndef VERIF_LINALG_H_
#define VERIF_LINALG_H_
#include <vector>

#include "scalars.h"
namespace linalg {
using pbt::u128;
typedef std::vector<u128> Row;
inline u128 Inv(const sc::Ring &r, u128 a) {
  if (r.gf) return gfref::Inv(a);
  u128 e = r.n - 2, x = 1, b = a;  // n is prime
  for (; e; e >>= 1, b = r.Mul(b, b))
    if (e & 1) x = r.Mul(x, b);
  return x;
}
inline int Rank(const sc::Ring &r, std::vector<Row> m) {
  size_t rank = 0, cols = m.empty() ? 0 : m[0].size();
  for (size_t c = 0; c < cols && rank < m.size(); c++) {
    size_t p = rank;
    while (p < m.size() && m[p][c] == 0) p++;
    if (p == m.size()) continue;
    std::swap(m[p], m[rank]);
    u128 inv = Inv(r, m[rank][c]);
    for (size_t i = rank + 1; i < m.size(); i++) {
      if (m[i][c] == 0) continue;
      u128 f = r.Mul(m[i][c], inv);
      for (size_t j = c; j < cols; j++) m[i][j] = r.Sub(m[i][j], r.Mul(f, m[rank][j]));
    }
    rank++;
  }
  return static_cast<int>(rank);
}
// Inverse of a square matrix; false if it is singular.
inline bool Inverse(const sc::Ring &r, std::vector<Row> m, std::vector<Row> *out) {
  size_t k = m.size();
  for (size_t i = 0; i < k; i++) {
    m[i].resize(2 * k, 0);
    m[i][k + i] = 1;
  }
  for (size_t c = 0; c < k; c++) {
    size_t p = c;
    while (p < k && m[p][c] == 0) p++;
    if (p == k) return false;
    std::swap(m[p], m[c]);
    u128 inv = Inv(r, m[c][c]);
    for (auto &x : m[c]) x = r.Mul(x, inv);
    for (size_t i = 0; i < k; i++) {
      if (i == c || m[i][c] == 0) continue;
      u128 f = m[i][c];
      for (size_t j = 0; j < 2 * k; j++) m[i][j] = r.Sub(m[i][j], r.Mul(f, m[c][j]));
    }
  }
  out->clear();
  for (auto &row : m) out->push_back(Row(row.begin() + k, row.end()));
  return true;
}
}  // namespace linalg
#endif
