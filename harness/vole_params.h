// The parameter sets of the vector OLE, whatever their types are.
#ifndef VERIF_VOLE_PARAMS_H_
#define VERIF_VOLE_PARAMS_H_
#include <cstddef>
#include <cstdint>

namespace proto {
int64_t VoleParam(int which, int64_t i);  // i < 0: number of sets
int64_t VoleNonzeros();
struct ParamList {
  int which;
  size_t size() const { return static_cast<size_t>(VoleParam(which, -1)); }
  int64_t operator[](size_t i) const { return VoleParam(which, static_cast<int64_t>(i)); }
  int64_t back() const { return (*this)[size() - 1]; }
};
struct ParamNumber {
  operator int64_t() const { return VoleNonzeros(); }
};
struct VP {
  static constexpr ParamList output_size{0}, seed_size{1}, num_noise_indices{2};
  static constexpr ParamNumber kCodeGeneratorNonzeros{};
};
}  // namespace proto
#endif
