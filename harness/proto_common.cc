#include "proto_ops.h"
namespace proto {
std::vector<const Ops *> &AllOps() {
  static std::vector<const Ops *> v;
  return v;
}
const Ops *GetOps(sc::Kind k) {
  for (auto o : AllOps())
    if (o->kind == k) return o;
  return nullptr;
}
}  // namespace proto
