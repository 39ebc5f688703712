// C09: tree expansion against the reference construction.
// C10 (with VERIF_PUNCTURED): trees rebuilt without one leaf.
#include <omp.h>

#include <algorithm>
#include <memory>

#include "concurrent.h"
#include "distributed_vector_ole/ggm_tree.h"
#include "ggm_ref.h"
#include "pbt.h"
#include "rand_tape.h"
#include "scalars.h"

using distributed_vector_ole::GGMTree;
using pbt::Ctx;
using pbt::Hex;
using pbt::u128;
using sc::FromAbsl;
using sc::ToAbsl;

namespace {
struct Shape {
  int arity;
  int64_t leaves;
  u128 seed;
  std::vector<u128> keys;
  std::vector<absl::uint128> akeys;
};
Shape DrawShape(Ctx &c, bool distinct_keys) {
  Shape s;
  int64_t max_leaves = pbt::Sanitized() ? 400 : pbt::Thorough() ? 3000 : 1500;
  s.arity = static_cast<int>(c.Chance(1, 3) ? c.Size(2, 300) : c.Range(2, 9));
  switch (c.Choice(4)) {
    case 0: s.leaves = c.Range(1, 40); break;
    case 1: {  // around powers of the arity
      int64_t p = 1;
      int e = static_cast<int>(c.Range(1, 10));
      for (int i = 0; i < e && p * s.arity <= max_leaves; i++) p *= s.arity;
      s.leaves = p + c.Range(-2, 2);
      break;
    }
    case 2: {  // one incomplete group somewhere
      int64_t p = 1;
      int e = static_cast<int>(c.Range(0, 9));
      for (int i = 0; i < e && p * s.arity <= max_leaves; i++) p *= s.arity;
      s.leaves = p * c.Range(1, s.arity) + c.Range(-1, 1);
      break;
    }
    default: s.leaves = c.Size(1, max_leaves);
  }
  if (s.leaves < 1) s.leaves = 1;
  if (s.leaves > max_leaves) s.leaves = max_leaves;
  s.seed = c.Bits128();
  pbt::Rng r = c.Bulk();
  bool same = !distinct_keys && c.Chance(1, 8);
  u128 first = c.Chance(1, 6) ? c.Bits128() : r.U128();
  for (int i = 0; i < s.arity; i++) s.keys.push_back(i == 0 || same ? first : r.U128());
  if (c.Chance(1, 5)) {
    // Keys that nearly equal others.
    int n = static_cast<int>(c.Range(1, 6));
    for (int i = 0; i < n; i++) {
      size_t to = c.Choice(s.arity - 1), from = c.Choice(s.arity - 1);
      u128 k = c.Relative(s.keys[from]);
      if (distinct_keys && std::find(s.keys.begin(), s.keys.end(), k) != s.keys.end()) continue;
      s.keys[to] = k;
    }
    c.Label("related keys");
  }
  for (auto k : s.keys) s.akeys.push_back(ToAbsl(k));
  c.Desc() << "arity " << s.arity << " leaves " << s.leaves << " seed " << Hex(s.seed) << " key0 " << Hex(first) << (same ? " (all keys equal)" : "");
  return s;
}
// The same with one thing changed.
Shape Vary(Ctx &c, const Shape &o, bool distinct_keys) {
  Shape s = o;
  switch (c.Choice(5)) {
    default: {
      size_t i = c.Choice(s.arity - 1);
      u128 k = c.Relative(c.Bool() ? s.keys[i] : s.keys[c.Choice(s.arity - 1)]);
      if (distinct_keys && std::find(s.keys.begin(), s.keys.end(), k) != s.keys.end()) break;
      s.keys[i] = k;
      c.Desc() << ", key " << i << " -> " << Hex(k);
      break;
    }
    case 2:
      s.seed = c.Relative(s.seed);
      c.Desc() << ", seed -> " << Hex(s.seed);
      break;
    case 3:
      s.leaves = std::max<int64_t>(1, c.Bool() ? s.leaves + c.Range(-2, 2) : c.Range(1, 2 * s.leaves));
      c.Desc() << ", leaves -> " << s.leaves;
      break;
    case 4: {
      if (s.arity > 2 && c.Bool()) {
        s.keys.erase(s.keys.begin() + c.Choice(s.arity - 1));
      } else {
        u128 k = c.Bits128();
        if (distinct_keys && std::find(s.keys.begin(), s.keys.end(), k) != s.keys.end()) break;
        s.keys.insert(s.keys.begin() + c.Choice(s.arity), k);
      }
      s.arity = static_cast<int>(s.keys.size());
      c.Desc() << ", arity -> " << s.arity;
      break;
    }
    case 5: {
      size_t i = c.Choice(s.arity - 1), j = c.Choice(s.arity - 1);
      std::swap(s.keys[i], s.keys[j]);
      c.Desc() << ", keys " << i << " and " << j << " swapped";
    }
  }
  s.akeys.clear();
  for (auto k : s.keys) s.akeys.push_back(ToAbsl(k));
  return s;
}
bool Ragged(const Shape &s) {
  int64_t n = s.leaves;
  bool r = false;
  while (n > 1) {
    r |= n % s.arity != 0;
    n = (n + s.arity - 1) / s.arity;
  }
  return r;
}

// Shape and accessors of a tree; returns its number of levels.
int CheckShape(Ctx &c, const GGMTree &t, const Shape &s) {
  int levels = t.num_levels(), min = ggmref::MinLevels(s.arity, s.leaves);
  PBT_REQUIRE(c, t.arity() == s.arity && t.num_leaves() == s.leaves, "arity/num_leaves of the tree are " << t.arity() << "/" << t.num_leaves() << ", expected " << s.arity << "/" << s.leaves);
  PBT_REQUIRE(c, levels >= min && levels <= min + 1, "the tree has " << levels << " levels, " << min << " are needed");
  PBT_REQUIRE(c, static_cast<int>(t.keys().size()) == s.arity, "the tree reports " << t.keys().size() << " keys");
  for (int i = 0; i < s.arity; i++) PBT_REQUIRE(c, FromAbsl(t.keys()[i]) == s.keys[i], "key " << i << " is " << Hex(FromAbsl(t.keys()[i])) << ", expected " << Hex(s.keys[i]));
  int64_t n = s.leaves;
  for (int l = levels - 1; l >= 0; l--) {
    PBT_REQUIRE(c, t.level_size(l) == n, "level " << l << " has " << t.level_size(l) << " nodes, expected " << n);
    n = (n + s.arity - 1) / s.arity;
  }
  PBT_REQUIRE(c, t.level_size(0) == 1, "the tree has " << t.level_size(0) << " roots");
  return levels;
}
void OutOfRange(Ctx &c, const GGMTree &t, int level, int64_t node) {
  auto r = t.GetValueAtNode(level, node);
  PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "reading node " << node << " of level " << level << " (of " << t.num_levels() << ") is not rejected");
}
void BadReads(Ctx &c, const GGMTree &t) {
  for (int l = 0; l < t.num_levels(); l++) {
    OutOfRange(c, t, l, t.level_size(l));
    OutOfRange(c, t, l, -1);
    OutOfRange(c, t, l, t.level_size(l) + static_cast<int64_t>(c.Choice(1000)));
  }
  OutOfRange(c, t, 0, INT64_MAX);
  OutOfRange(c, t, t.num_levels() - 1, INT64_MIN);
  OutOfRange(c, t, t.num_levels() - 1, (int64_t{1} << 32) + static_cast<int64_t>(c.Choice(3)));
  OutOfRange(c, t, t.num_levels(), 0);
  OutOfRange(c, t, -1, 0);
  OutOfRange(c, t, INT32_MAX, 0);
  OutOfRange(c, t, INT32_MIN, 0);
  for (int64_t leaf : {int64_t{-1}, t.num_leaves(), t.num_leaves() + 7, INT64_MIN, INT64_MAX}) {
    auto r = t.GetValueAtLeaf(leaf);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "reading leaf " << leaf << " of " << t.num_leaves() << " is not rejected");
  }
}
void CompareAll(Ctx &c, const GGMTree &t, const ggmref::Tree &ref) {
  for (size_t l = 0; l < ref.lv.size(); l++)
    for (size_t j = 0; j < ref.lv[l].size(); j++) {
      auto r = t.GetValueAtNode(static_cast<int>(l), static_cast<int64_t>(j));
      PBT_REQUIRE(c, r.ok(), "node " << j << " of level " << l << " cannot be read");
      PBT_REQUIRE(c, FromAbsl(r.ValueOrDie()) == ref.lv[l][j], "node " << j << " of level " << l << " is " << Hex(FromAbsl(r.ValueOrDie())) << ", expected " << Hex(ref.lv[l][j]));
    }
  for (size_t j = 0; j < ref.lv.back().size(); j++) {
    auto r = t.GetValueAtLeaf(static_cast<int64_t>(j));
    PBT_REQUIRE(c, r.ok() && FromAbsl(r.ValueOrDie()) == ref.lv.back()[j], "leaf " << j << " differs from the node in the last level");
  }
}

#ifndef VERIF_PUNCTURED
void CompareSums(Ctx &c, const GGMTree &t, const ggmref::Tree &ref) {
  auto got = t.GetSiblingWiseXOR();
  auto want = ggmref::Sums(ref);
  PBT_REQUIRE(c, got.size() == want.size(), "sibling-wise sums for " << got.size() << " levels, expected " << want.size());
  for (size_t l = 0; l < want.size(); l++) {
    PBT_REQUIRE(c, got[l].size() == want[l].size(), "sibling-wise sums of level " << l + 1 << " have length " << got[l].size());
    for (size_t k = 0; k < want[l].size(); k++)
      PBT_REQUIRE(c, FromAbsl(got[l][k]) == want[l][k], "sum over siblings " << k << " of level " << l + 1 << " is " << Hex(FromAbsl(got[l][k])) << ", expected " << Hex(want[l][k]));
  }
}
void Expand(Ctx &c) {
  Shape s = DrawShape(c, false);
  c.NonTrivial(s.leaves > s.arity);
  if (Ragged(s)) c.Label("incomplete groups");
  auto r = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, r.ok(), "Create fails: " << r.status().message());
  auto t = std::move(r.ValueOrDie());
  int levels = CheckShape(c, *t, s);
  auto ref = ggmref::Expand(s.leaves, s.seed, s.keys, levels);
  CompareAll(c, *t, ref);
  CompareSums(c, *t, ref);
  BadReads(c, *t);
  PBT_REQUIRE(c, static_cast<int>(t->expanded_keys().size()) == s.arity, "wrong number of expanded keys");
  for (int i = 0; i < s.arity; i++) {
    u128 in = s.seed + i, out;
    AES_encrypt(reinterpret_cast<const uint8_t *>(&in), reinterpret_cast<uint8_t *>(&out), &t->expanded_keys()[i]);
    PBT_REQUIRE(c, out == aesref::Aes128(s.keys[i]).Encrypt(in), "expanded key " << i << " does not belong to key " << i);
  }
}
// Keys chosen by the tree.
void RandomKeys(Ctx &c) {
  Shape s = DrawShape(c, true);
  c.NonTrivial(s.leaves > s.arity);
  uint64_t tape = c.Choice(UINT64_MAX);
  std::vector<std::vector<u128>> seen;
  for (int k = 0; k < 2; k++) {
    verif_rand::ThreadTape tt(tape + k);
    auto r = GGMTree::Create(s.arity, s.leaves, ToAbsl(s.seed));
    PBT_REQUIRE(c, r.ok(), "Create fails: " << r.status().message());
    auto t = std::move(r.ValueOrDie());
    PBT_REQUIRE(c, static_cast<int>(t->keys().size()) == s.arity, "wrong number of keys");
    s.keys.clear();
    for (auto &x : t->keys()) s.keys.push_back(FromAbsl(x));
    for (auto &o : seen)
      for (auto x : o)
        for (auto y : s.keys) PBT_REQUIRE(c, x != y, "random keys do not depend on the random source");
    for (size_t i = 0; i < s.keys.size(); i++)
      for (size_t j = 0; j < i; j++) PBT_REQUIRE(c, s.keys[i] != s.keys[j], "random keys " << i << " and " << j << " are equal");
    seen.push_back(s.keys);
    int levels = CheckShape(c, *t, s);
    CompareAll(c, *t, ggmref::Expand(s.leaves, s.seed, s.keys, levels));
  }
}
// All small shapes.
void SmallShapes(Ctx &c) {
  uint64_t k = c.Index(9 * 90);
  Shape s;
  s.arity = 2 + static_cast<int>(k % 9);
  s.leaves = 1 + static_cast<int64_t>(k / 9);
  pbt::Rng r(k);
  s.seed = r.U128();
  for (int i = 0; i < s.arity; i++) s.keys.push_back(r.U128()), s.akeys.push_back(ToAbsl(s.keys.back()));
  c.Desc() << "arity " << s.arity << " leaves " << s.leaves;
  c.NonTrivial(s.leaves > s.arity);
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  auto t = std::move(rr.ValueOrDie());
  int levels = CheckShape(c, *t, s);
  auto ref = ggmref::Expand(s.leaves, s.seed, s.keys, levels);
  CompareAll(c, *t, ref);
  CompareSums(c, *t, ref);
}
void HugeOrLarge(Ctx &c, Shape &s);
// Large trees, compared along random paths and in full for the sums' columns.
void Large(Ctx &c) {
  Shape s;
  s.arity = static_cast<int>(c.Range(2, 5));
  if (c.Chance(1, 3)) s.arity = static_cast<int>(c.Range(2, 700));
  s.leaves = pbt::Sanitized() ? c.Size(5000, 60000) : c.Chance(1, 3) ? c.Size(5000, 150000) : c.Range(70000, pbt::Thorough() ? 3000000 : 500000);
  HugeOrLarge(c, s);
}
// More leaves than single-precision numbers tell apart.
void Huge(Ctx &c) {
  static const struct { int arity; int64_t leaves; } k[] = {{2, (1 << 24) + 1}, {3, 14348908}, {4, (1 << 24) + 1}, {16, (1 << 24) + 1}};
  uint64_t i = c.Index(4);
  Shape s;
  s.arity = k[i].arity;
  s.leaves = pbt::Sanitized() ? 60000 : k[i].leaves;
  HugeOrLarge(c, s);
}
void HugeOrLarge(Ctx &c, Shape &s) {
  s.seed = c.Bits128();
  pbt::Rng r = c.Bulk();
  for (int i = 0; i < s.arity; i++) s.keys.push_back(r.U128()), s.akeys.push_back(ToAbsl(s.keys.back()));
  c.Desc() << "arity " << s.arity << " leaves " << s.leaves << " (large)";
  c.NonTrivial();
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  auto t = std::move(rr.ValueOrDie());
  int levels = CheckShape(c, *t, s);
  std::vector<aesref::Aes128> k;
  for (auto x : s.keys) k.emplace_back(x);
  for (int i = 0; i < 300; i++) {
    int64_t leaf = i == 0 ? s.leaves - 1 : i == 1 ? 0 : static_cast<int64_t>(r.Upto(s.leaves - 1));
    std::vector<int> path(levels);
    int64_t j = leaf;
    for (int l = levels - 1; l > 0; l--) path[l] = static_cast<int>(j % s.arity), j /= s.arity;
    u128 v = s.seed;
    int64_t node = 0;
    for (int l = 1; l < levels; l++) {
      v = k[path[l]].Encrypt(v) ^ v;
      node = node * s.arity + path[l];
      auto g = t->GetValueAtNode(l, node);
      PBT_REQUIRE(c, g.ok() && FromAbsl(g.ValueOrDie()) == v, "node " << node << " of level " << l << " is wrong");
    }
  }
  // Sums recomputed from the node values.
  auto sums = t->GetSiblingWiseXOR();
  PBT_REQUIRE(c, static_cast<int>(sums.size()) == levels - 1, "wrong number of sums");
  for (int l = 1; l < levels; l++) {
    std::vector<u128> w(s.arity, 0);
    for (int64_t j = 0; j < t->level_size(l); j++) w[j % s.arity] ^= FromAbsl(t->GetValueAtNode(l, j).ValueOrDie());
    for (int i = 0; i < s.arity; i++) PBT_REQUIRE(c, FromAbsl(sums[l - 1][i]) == w[i], "sum over siblings " << i << " of level " << l << " is wrong");
  }
}
// Trees that differ from earlier ones in one thing, all kept.
void Family(Ctx &c) {
  struct Member {
    Shape s;
    std::unique_ptr<GGMTree> t;
    ggmref::Tree ref;
  };
  std::vector<Member> m;
  int n = static_cast<int>(c.Range(2, 6));
  for (int i = 0; i < n; i++) {
    Member k;
    if (i == 0) {
      k.s = DrawShape(c, false);
      if (k.s.leaves > 300) k.s.leaves = 1 + k.s.leaves % 300, c.Desc() << " (" << k.s.leaves << ")";
    } else {
      c.Desc() << "; tree " << i << ": ";
      size_t from = c.Bool() ? m.size() - 1 : c.Choice(m.size() - 1);
      c.Desc() << "like " << from;
      k.s = Vary(c, m[from].s, false);
    }
    auto r = GGMTree::Create(k.s.leaves, ToAbsl(k.s.seed), k.s.akeys);
    PBT_REQUIRE(c, r.ok(), "Create fails: " << r.status().message());
    k.t = std::move(r.ValueOrDie());
    k.ref = ggmref::Expand(k.s.leaves, k.s.seed, k.s.keys, CheckShape(c, *k.t, k.s));
    CompareAll(c, *k.t, k.ref);
    CompareSums(c, *k.t, k.ref);
    m.push_back(std::move(k));
    if (m.size() > 1 && c.Chance(1, 6)) m.erase(m.begin());
  }
  for (auto &k : m) {
    CheckShape(c, *k.t, k.s);
    CompareAll(c, *k.t, k.ref);
    CompareSums(c, *k.t, k.ref);
    if (k.s.leaves > 1) c.NonTrivial();
  }
}
// Several trees at the same time.
void ConcurrentTrees(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8));
  std::vector<Shape> s;
  std::vector<ggmref::Tree> ref;
  for (int t = 0; t < nt; t++) {
    s.push_back(DrawShape(c, false));
    c.Desc() << "; ";
    auto r = GGMTree::Create(s[t].leaves, ToAbsl(s[t].seed), s[t].akeys);
    PBT_REQUIRE(c, r.ok(), "Create fails");
    ref.push_back(ggmref::Expand(s[t].leaves, s[t].seed, s[t].keys, CheckShape(c, *r.ValueOrDie(), s[t])));
  }
  c.NonTrivial();
  int regions = c.Bool() ? static_cast<int>(c.Range(1, 2)) : 0;
  if (regions) c.Label("in parallel regions");
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    omp_set_num_threads(1 + t % 3);
    for (int q = 0; q < 6; q++) {
      auto r = GGMTree::Create(s[t].leaves, ToAbsl(s[t].seed), s[t].akeys);
      if (!r.ok()) return "Create fails";
      const GGMTree &g = *r.ValueOrDie();
      for (int64_t j = 0; j < s[t].leaves; j++)
        if (FromAbsl(g.GetValueAtLeaf(j).ValueOrDie()) != ref[t].lv.back()[j]) return "leaf " + std::to_string(j) + " differs when other threads expand trees";
      if (g.num_levels() != static_cast<int>(ref[t].lv.size())) continue;
      auto sums = g.GetSiblingWiseXOR();
      auto want = ggmref::Sums(ref[t]);
      for (size_t l = 0; l < want.size(); l++)
        for (size_t k = 0; k < want[l].size(); k++)
          if (FromAbsl(sums[l][k]) != want[l][k]) return "a sum over siblings differs when other threads expand trees";
    }
    return "";
  }, regions);
  if (!err.empty()) c.Fail(err);
}
void BadCreate(Ctx &c) {
  c.NonTrivial();
  int arity = static_cast<int>(c.Choice(6));
  int64_t leaves = c.Bool() ? c.Range(1, 20) : (c.Bool() ? c.Range(-5, 0) : INT64_MIN + static_cast<int64_t>(c.Choice(2)));
  if (arity >= 2 && leaves > 0) arity = static_cast<int>(c.Choice(1));
  bool own = c.Bool();
  if (!own && c.Bool()) arity = c.Bool() ? -static_cast<int>(c.Choice(100)) : INT32_MIN;
  c.Desc() << "Create with arity " << arity << " and " << leaves << " leaves" << (own ? " (given keys)" : "");
  if (own) {
    std::vector<absl::uint128> keys(arity, 5);
    auto r = GGMTree::Create(leaves, 1, keys);
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "not rejected as invalid");
  } else {
    if (arity >= 2 && leaves > 0) arity = 1;
    auto r = GGMTree::Create(arity, leaves, absl::uint128(1));
    PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), "not rejected as invalid");
  }
}
pbt::Register r1{{"ggm_expand", Expand, 9000, 300000, 0, -1, 0.1}};
pbt::Register r2{{"ggm_small_shapes", SmallShapes, 0, 0, 810}};
pbt::Register r3{{"ggm_random_keys", RandomKeys, 1500, 50000, 0, -1, 0.1}};
pbt::Register r4{{"ggm_large", Large, 40, 1000, 0, -1, 0.05}};
pbt::Register r6{{"ggm_huge", Huge, 0, 0, 4}};
pbt::Register r8{{"ggm_family", Family, 4000, 150000, 0, -1, 0.1}};
pbt::Register r7{{"ggm_concurrent", ConcurrentTrees, 150, 4000, 0, -1, 0.1}};
pbt::Register r5{{"ggm_bad_create", BadCreate, 2000, 20000, 0, -1, 0.1}};
#else
typedef std::vector<std::vector<absl::uint128>> ASums;
ASums Convert(const std::vector<std::vector<u128>> &s) {
  ASums r;
  for (auto &v : s) {
    r.emplace_back();
    for (auto x : v) r.back().push_back(ToAbsl(x));
  }
  return r;
}
std::vector<int64_t> Path(int64_t index, int arity, int levels) {
  std::vector<int64_t> p(levels);
  for (int l = levels - 1; l >= 0; l--) p[l] = index, index /= arity;
  return p;
}
// Compares a rebuilt tree with the full one; returns its values.
std::vector<std::vector<u128>> CheckRebuilt(Ctx &c, const GGMTree &t, const Shape &s, const ggmref::Tree &ref, int64_t missing, const char *what, bool distinct) {
  int levels = CheckShape(c, t, s);
  PBT_REQUIRE(c, levels == static_cast<int>(ref.lv.size()), "the rebuilt tree has " << levels << " levels, the full one " << ref.lv.size());
  auto path = Path(missing, s.arity, levels);
  std::vector<std::vector<u128>> all(levels);
  for (int l = 0; l < levels; l++)
    for (int64_t j = 0; j < static_cast<int64_t>(ref.lv[l].size()); j++) {
      auto r = t.GetValueAtNode(l, j);
      PBT_REQUIRE(c, r.ok(), "node " << j << " of level " << l << " cannot be read");
      u128 v = FromAbsl(r.ValueOrDie());
      all[l].push_back(v);
      if (j == path[l]) {
        PBT_REQUIRE(c, v != ref.lv[l][j] || ref.lv[l][j] == 0, what << ": the rebuilt tree contains the value of node " << j << " of level " << l << " on the path to missing leaf " << missing);
      } else {
        PBT_REQUIRE(c, v == ref.lv[l][j], what << ": node " << j << " of level " << l << " is " << Hex(v) << ", the full tree has " << Hex(ref.lv[l][j]) << " (missing leaf " << missing << ")");
        if (l == levels - 1) {
          auto g = t.GetValueAtLeaf(j);
          PBT_REQUIRE(c, g.ok() && FromAbsl(g.ValueOrDie()) == v, "leaf " << j << " differs from its node");
        }
      }
      if (distinct && v != 0 && ref.lv[levels - 1][missing] == v) c.Fail(std::string(what) + ": the rebuilt tree contains the missing leaf at node " + std::to_string(j) + " of level " + std::to_string(l));
    }
  return all;
}
void RebuildAt(Ctx &c, const Shape &s, const ggmref::Tree &ref, int levels, int64_t missing, pbt::Rng &r, bool distinct) {
  auto path = Path(missing, s.arity, levels);
  auto sums = ggmref::Sums(ref);
  // The withheld entries: true values, zeros, two kinds of garbage.
  std::vector<std::vector<std::vector<u128>>> results;
  for (int k = 0; k < 4; k++) {
    auto g = sums;
    for (int l = 1; l < levels; l++) {
      u128 &x = g[l - 1][path[l] % s.arity];
      if (k == 1) x = 0;
      if (k == 2) x = r.U128();
      if (k == 3) x ^= ref.lv[l][path[l]];  // what the other siblings add up to
    }
    auto rr = GGMTree::CreateFromSiblingWiseXOR(s.arity, s.leaves, missing, Convert(g), s.akeys);
    PBT_REQUIRE(c, rr.ok(), "rebuilding with missing leaf " << missing << " fails: " << rr.status().message());
    auto t = std::move(rr.ValueOrDie());
    static const char *what[] = {"true sums on the path", "zero sums on the path", "random sums on the path", "sums without the path"};
    results.push_back(CheckRebuilt(c, *t, s, ref, missing, what[k], distinct));
    PBT_REQUIRE(c, results[0] == results.back(), "the rebuilt tree depends on the sums withheld on the path (missing leaf " << missing << ", " << what[k] << ")");
  }
}
void Rebuild(Ctx &c) {
  bool distinct = !c.Chance(1, 10);
  Shape s = DrawShape(c, distinct);
  c.NonTrivial(s.leaves > s.arity);
  bool ragged = Ragged(s);
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  auto full = std::move(rr.ValueOrDie());
  int levels = CheckShape(c, *full, s);
  auto ref = ggmref::Expand(s.leaves, s.seed, s.keys, levels);
  CompareAll(c, *full, ref);
  int64_t missing;
  switch (c.Choice(3)) {
    case 0: missing = s.leaves - 1 - c.Range(0, std::min<int64_t>(s.arity, s.leaves - 1)); break;
    case 1: missing = c.Range(0, std::min<int64_t>(s.arity, s.leaves - 1)); break;
    default: missing = c.Range(0, s.leaves - 1);
  }
  c.Desc() << " missing " << missing;
  if (ragged) c.Label("incomplete groups");
  if (missing / s.arity == (s.leaves - 1) / s.arity && s.leaves % s.arity) c.Label("missing leaf in an incomplete group");
  pbt::Rng r = c.Bulk();
  RebuildAt(c, s, ref, levels, missing, r, distinct);
}
// Rebuilt trees that differ from earlier ones in one thing, all kept.
void Family(Ctx &c) {
  struct Member {
    Shape s;
    ggmref::Tree ref;
    int64_t missing;
    int levels;
    std::unique_ptr<GGMTree> t;
  };
  std::vector<Member> m;
  int n = static_cast<int>(c.Range(2, 6));
  pbt::Rng r = c.Bulk();
  for (int i = 0; i < n; i++) {
    Member k;
    if (i == 0) {
      k.s = DrawShape(c, true);
      if (k.s.leaves > 300) k.s.leaves = 1 + k.s.leaves % 300, c.Desc() << " (" << k.s.leaves << ")";
      k.missing = c.Range(0, k.s.leaves - 1);
      c.Desc() << " missing " << k.missing;
    } else {
      size_t from = c.Bool() ? m.size() - 1 : c.Choice(m.size() - 1);
      c.Desc() << "; like " << from;
      k.s = m[from].s, k.missing = m[from].missing;
      if (!c.Chance(1, 4)) k.s = Vary(c, m[from].s, true);
      if (k.missing >= k.s.leaves || c.Chance(1, 3)) {
        k.missing = c.Range(0, k.s.leaves - 1);
        c.Desc() << ", missing " << k.missing;
      }
    }
    auto f = GGMTree::Create(k.s.leaves, ToAbsl(k.s.seed), k.s.akeys);
    PBT_REQUIRE(c, f.ok(), "Create fails");
    k.levels = f.ValueOrDie()->num_levels();
    k.ref = ggmref::Expand(k.s.leaves, k.s.seed, k.s.keys, k.levels);
    auto g = ggmref::Sums(k.ref);
    auto path = Path(k.missing, k.s.arity, k.levels);
    for (int l = 1; l < k.levels; l++) g[l - 1][path[l] % k.s.arity] = r.U128();
    auto rr = GGMTree::CreateFromSiblingWiseXOR(k.s.arity, k.s.leaves, k.missing, Convert(g), k.s.akeys);
    PBT_REQUIRE(c, rr.ok(), "rebuilding fails: " << rr.status().message());
    k.t = std::move(rr.ValueOrDie());
    CheckRebuilt(c, *k.t, k.s, k.ref, k.missing, "one of several similar trees", false);
    // Another leaf's sums with the same shape and keys: values do not matter.
    if (c.Chance(1, 4) && k.levels > 1) {
      auto g2 = g;
      for (auto &v : g2)
        for (auto &x : v) x = r.U128();
      auto r2 = GGMTree::CreateFromSiblingWiseXOR(k.s.arity, k.s.leaves, k.missing, Convert(g2), k.s.akeys);
      PBT_REQUIRE(c, r2.ok(), "rebuilding from arbitrary sums fails: " << r2.status().message());
    }
    m.push_back(std::move(k));
    if (m.size() > 1 && c.Chance(1, 6)) m.erase(m.begin());
  }
  for (auto &k : m) {
    CheckRebuilt(c, *k.t, k.s, k.ref, k.missing, "one of several similar trees (at the end)", false);
    if (k.s.leaves > 1) c.NonTrivial();
  }
}
// Every leaf of all small shapes.
void SmallShapes(Ctx &c) {
  uint64_t k = c.Index(7 * 45);
  Shape s;
  s.arity = 2 + static_cast<int>(k % 7);
  s.leaves = 1 + static_cast<int64_t>(k / 7);
  pbt::Rng r(k);
  s.seed = r.U128();
  for (int i = 0; i < s.arity; i++) s.keys.push_back(r.U128()), s.akeys.push_back(ToAbsl(s.keys.back()));
  c.Desc() << "arity " << s.arity << " leaves " << s.leaves << ", every missing leaf";
  c.NonTrivial(s.leaves > s.arity);
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  int levels = rr.ValueOrDie()->num_levels();
  auto ref = ggmref::Expand(s.leaves, s.seed, s.keys, levels);
  for (int64_t m = 0; m < s.leaves; m++) RebuildAt(c, s, ref, levels, m, r, true);
}
// Large trees, compared with the full one node by node.
void Large(Ctx &c) {
  Shape s;
  s.arity = static_cast<int>(c.Chance(1, 3) ? c.Range(2, 300) : c.Range(2, 5));
  s.leaves = pbt::Sanitized() ? c.Size(3000, 20000) : c.Chance(1, 2) ? c.Size(3000, 70000) : c.Range(66000, pbt::Thorough() ? 1000000 : 150000);
  s.seed = c.Bits128();
  pbt::Rng r = c.Bulk();
  for (int i = 0; i < s.arity; i++) s.keys.push_back(r.U128()), s.akeys.push_back(ToAbsl(s.keys.back()));
  int64_t missing = c.Chance(1, 3) ? s.leaves - 1 - static_cast<int64_t>(c.Choice(300)) : c.Range(0, s.leaves - 1);
  c.Desc() << "arity " << s.arity << " leaves " << s.leaves << " missing " << missing << " (large)";
  c.NonTrivial();
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  auto full = std::move(rr.ValueOrDie());
  int levels = full->num_levels();
  auto path = Path(missing, s.arity, levels);
  auto sums = full->GetSiblingWiseXOR();
  for (int l = 1; l < levels; l++) sums[l - 1][path[l] % s.arity] = ToAbsl(r.U128());
  auto r2 = GGMTree::CreateFromSiblingWiseXOR(s.arity, s.leaves, missing, sums, s.akeys);
  PBT_REQUIRE(c, r2.ok(), "rebuilding fails: " << r2.status().message());
  auto t = std::move(r2.ValueOrDie());
  PBT_REQUIRE(c, t->num_levels() == levels && t->num_leaves() == s.leaves, "the rebuilt tree has another shape");
  for (int l = 0; l < levels; l++) {
    PBT_REQUIRE(c, t->level_size(l) == full->level_size(l), "level " << l << " of the rebuilt tree has " << t->level_size(l) << " nodes instead of " << full->level_size(l));
    for (int64_t j = 0; j < full->level_size(l); j++) {
      bool same = t->GetValueAtNode(l, j).ValueOrDie() == full->GetValueAtNode(l, j).ValueOrDie();
      if (j == path[l] && full->GetValueAtNode(l, j).ValueOrDie() == 0) continue;
      PBT_REQUIRE(c, same == (j != path[l]), "node " << j << " of level " << l << (same ? " on the path to the missing leaf is in the rebuilt tree" : " differs from the full tree") << " (missing leaf " << missing << ")");
    }
  }
}
// Several rebuilds at the same time.
void ConcurrentTrees(Ctx &c) {
  int nt = static_cast<int>(c.Range(2, 8));
  struct Job {
    Shape s;
    ggmref::Tree ref;
    int64_t missing;
    ASums sums;
  };
  std::vector<Job> jobs;
  pbt::Rng rg = c.Bulk();
  for (int t = 0; t < nt; t++) {
    Job j;
    j.s = DrawShape(c, true);
    auto rr = GGMTree::Create(j.s.leaves, ToAbsl(j.s.seed), j.s.akeys);
    PBT_REQUIRE(c, rr.ok(), "Create fails");
    int levels = rr.ValueOrDie()->num_levels();
    j.ref = ggmref::Expand(j.s.leaves, j.s.seed, j.s.keys, levels);
    j.missing = c.Range(0, j.s.leaves - 1);
    auto path = Path(j.missing, j.s.arity, levels);
    auto g = ggmref::Sums(j.ref);
    for (int l = 1; l < levels; l++) g[l - 1][path[l] % j.s.arity] = rg.U128();
    j.sums = Convert(g);
    c.Desc() << " missing " << j.missing << "; ";
    jobs.push_back(std::move(j));
  }
  c.NonTrivial();
  int regions = c.Bool() ? static_cast<int>(c.Range(1, 2)) : 0;
  if (regions) c.Label("in parallel regions");
  std::string err = Concurrently(nt, [&](int t) -> std::string {
    omp_set_num_threads(1 + t % 3);
    const Job &j = jobs[t];
    for (int q = 0; q < 6; q++) {
      auto r = GGMTree::CreateFromSiblingWiseXOR(j.s.arity, j.s.leaves, j.missing, j.sums, j.s.akeys);
      if (!r.ok()) return "rebuilding fails when other threads rebuild trees";
      for (int64_t i = 0; i < j.s.leaves; i++) {
        bool same = FromAbsl(r.ValueOrDie()->GetValueAtLeaf(i).ValueOrDie()) == j.ref.lv.back()[i];
        if (i == j.missing && j.ref.lv.back()[i] == 0) continue;
        if (same != (i != j.missing)) return "leaf " + std::to_string(i) + (same ? " is in the rebuilt tree" : " is wrong") + " when other threads rebuild trees";
      }
    }
    return "";
  }, regions);
  if (!err.empty()) c.Fail(err);
}
void Malformed(Ctx &c) {
  Shape s = DrawShape(c, true);
  if (s.leaves > 400) s.leaves = 1 + s.leaves % 400;
  auto rr = GGMTree::Create(s.leaves, ToAbsl(s.seed), s.akeys);
  PBT_REQUIRE(c, rr.ok(), "Create fails");
  auto full = std::move(rr.ValueOrDie());
  ASums sums = full->GetSiblingWiseXOR();
  std::vector<absl::uint128> keys = s.akeys;
  int arity = s.arity;
  int64_t leaves = s.leaves, missing = c.Range(0, s.leaves - 1);
  bool bad = true;
  std::string what;
  switch (c.Choice(10)) {
    case 0: {
      static const int64_t neg[] = {-1, -2, -100, INT64_MIN, INT64_MIN + 1};
      missing = neg[c.Choice(4)];
      what = "negative index";
      break;
    }
    case 1: {
      int64_t off[] = {0, 1, s.arity, 1000, INT64_MAX - leaves};
      missing = leaves + off[c.Choice(4)];
      what = "index beyond the leaves";
      break;
    }
    case 2: {
      static const int64_t n[] = {0, -1, -7, INT64_MIN};
      leaves = n[c.Choice(3)];
      if (c.Bool()) missing = c.Range(-2, 2);
      what = "leaf count";
      break;
    }
    case 3: {
      if (sums.empty()) { bad = false; break; }
      auto &v = sums[c.Choice(sums.size() - 1)];
      switch (c.Choice(3)) {
        case 0: v.pop_back(); break;
        case 1: v.push_back(7); break;
        case 2: v.clear(); break;
        default: v.resize(v.size() * 2, 9);
      }
      what = "sum vector length";
      break;
    }
    case 4:
      if (sums.empty()) { bad = false; break; }
      sums.pop_back();
      what = "missing level";
      break;
    case 5: {
      int m = static_cast<int>(c.Range(1, 4));
      for (int i = 0; i < m; i++) sums.push_back(std::vector<absl::uint128>(arity, 3));
      what = "surplus levels";
      break;
    }
    case 6: {
      if (c.Bool()) keys.resize(c.Choice(arity - 1));
      else keys.resize(arity + 1 + c.Choice(5), 4);
      what = "number of keys";
      break;
    }
    case 7: {
      static const int a[] = {1, 0, -1, -5, INT32_MIN};
      arity = a[c.Choice(4)];
      if (arity >= 0 && c.Bool()) {
        keys.resize(arity, 4);
        for (auto &v : sums) v.resize(arity, 4);
      }
      what = "arity";
      break;
    }
    case 8:  // too many leaves for the sums (must not be allocated)
      leaves = c.Bool() ? INT64_MAX - static_cast<int64_t>(c.Choice(3)) : int64_t{1} << 61;
      if (c.Bool()) missing = leaves - 1;
      what = "too many leaves";
      break;
    case 9: {  // inner lengths consistent with another arity
      arity = s.arity + (c.Bool() || s.arity == 2 ? 1 : -1);
      what = "other arity";
      bad = true;
      if (sums.empty() && static_cast<int>(keys.size()) == arity) bad = false;
      break;
    }
    default:
      keys.clear();
      what = "no keys";
  }
  c.Desc() << " " << what << ": arity " << arity << " leaves " << leaves << " missing " << missing << " levels " << sums.size() << " keys " << keys.size();
  c.NonTrivial(bad);
  if (!bad) return;
  auto r = GGMTree::CreateFromSiblingWiseXOR(arity, leaves, missing, sums, keys);
  PBT_REQUIRE(c, !r.ok() && mpc_utils::IsInvalidArgument(r.status()), what << " is not rejected as invalid");
}
pbt::Register r1{{"ggm_rebuild", Rebuild, 4000, 120000, 0, -1, 0.1}};
pbt::Register r2{{"ggm_rebuild_small_shapes", SmallShapes, 0, 0, 315, -1, 0.2}};
pbt::Register r4{{"ggm_rebuild_large", Large, 60, 2000, 0, -1, 0.1}};
pbt::Register r6{{"ggm_rebuild_family", Family, 3000, 100000, 0, -1, 0.1}};
pbt::Register r5{{"ggm_rebuild_concurrent", ConcurrentTrees, 150, 4000, 0, -1, 0.1}};
pbt::Register r3{{"ggm_malformed", Malformed, 15000, 400000, 0, -1, 0.2}};
#endif
}  // namespace
