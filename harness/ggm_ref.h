// Reference tree expansion.
#ifndef VERIF_GGM_REF_H_
#define VERIF_GGM_REF_H_
#include <vector>

#include "aes_ref.h"
namespace ggmref {
using pbt::u128;
struct Tree {
  int arity;
  std::vector<std::vector<u128>> lv;  // lv[0] is the root
};
// Smallest number of levels.
inline int MinLevels(int arity, int64_t leaves) {
  int l = 1;
  unsigned __int128 cap = 1;
  while (cap < static_cast<unsigned __int128>(leaves)) cap *= arity, l++;
  return l;
}
inline Tree Expand(int64_t leaves, u128 seed, const std::vector<u128> &keys, int levels) {
  Tree t;
  t.arity = static_cast<int>(keys.size());
  t.lv.resize(levels);
  int64_t n = leaves;
  for (int l = levels - 1; l >= 0; l--) {
    t.lv[l].resize(n);
    n = (n + t.arity - 1) / t.arity;
  }
  std::vector<aesref::Aes128> k;
  for (auto x : keys) k.emplace_back(x);
  t.lv[0][0] = seed;
  for (int l = 1; l < levels; l++)
    for (size_t j = 0; j < t.lv[l].size(); j++) {
      u128 p = t.lv[l - 1][j / t.arity];
      t.lv[l][j] = k[j % t.arity].Encrypt(p) ^ p;
    }
  return t;
}
inline std::vector<std::vector<u128>> Sums(const Tree &t) {
  std::vector<std::vector<u128>> r(t.lv.size() - 1, std::vector<u128>(t.arity, 0));
  for (size_t l = 1; l < t.lv.size(); l++)
    for (size_t j = 0; j < t.lv[l].size(); j++) r[l - 1][j % t.arity] ^= t.lv[l][j];
  return r;
}
}  // namespace ggmref
#endif
