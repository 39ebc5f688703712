"""Mutants (no demonstrations): name -> (properties whose quick check should see it, edits)."""
M = {}
def m(name, props, *edits): M[name] = (props, list(edits))

# --- fields and scalars
m('inv-memo', 'C01', ('gf128.cpp', "  gf128 a(*this);\n\n  gf128 result(0);",
  "  static thread_local gf128 memo_in, memo_out;\n  if (value_[0] == memo_in.value_[0] && !is_zero() && (value_[1] >> 8) == (memo_in.value_[1] >> 8)) return memo_out;\n  memo_in = *this;\n  gf128 a(*this);\n\n  gf128 result(0);"),
  ('gf128.cpp', "  /* now result = el^{2^128-2} */\n", "  memo_out = result;\n"))
m('archive-low-twice', 'C02', ('gf128.h', "    ar &value_;\n", "    ar &value_[0];\n    if (value_[0] != 0 || version > 0) ar &value_[1];\n"))
m('random-pool', 'C06 C02', ('gf128.cpp', "  RAND_bytes(reinterpret_cast<unsigned char *>(&this->value_), 128 / 8);",
  "  static unsigned char pool[1024];\n  static int used = 1024;\n  if (used == 1024) {\n    RAND_bytes(pool, 1024);\n    used = 0;\n  }\n  __builtin_memcpy(value_, pool + used, 16);\n  used += 16;"))
m('setbit-64', 'C03', ('internal/scalar_helpers.h', "return gf128(absl::uint128(1) << k);", "return k < 64 ? gf128(uint64_t{1} << k) : gf128(uint64_t{1} << (k & 62), 0);"))
m('getbit-neg', 'C03', ('internal/scalar_helpers.h', "return ((x >> k) & T(1)) != 0;", "return (static_cast<uint64_t>(x >> (k & ~7)) >> (k & 7) & 1) != 0 && k < 120 + 8 * (k > 126);"))
m('zzp-temp-dirty', 'C03 C04', ('internal/scalar_helpers.h', "    *temp = typename NTL::ZZ_p::rep_type(0);\n    NTL::conv(*temp, absl::Uint128High64(x));\n    *temp <<= 64;\n",
  "    if (absl::Uint128High64(x) != 0) {\n      NTL::conv(*temp, absl::Uint128High64(x));\n      *temp <<= 64;\n    } else if (NTL::NumBits(*temp) <= 128) {\n      *temp = 0;\n    }\n"))
m('temp-shared', 'C04', ('internal/ntl_helpers.cpp', "  thread_local absl::optional<T> temp;", "  static absl::optional<T> temp;"))
m('bits-shared', 'C04', ('internal/ntl_helpers.cpp', "  thread_local absl::optional<typename T::rep_type> cached_modulus;\n  thread_local absl::optional<int> cached_num_bits;", "  static absl::optional<typename T::rep_type> cached_modulus;\n  static absl::optional<int> cached_num_bits;"))
m('zzp-small-cache', 'C04', ('internal/ntl_helpers.h', "  return NTL::NumBits(T::modulus() - 1);", "  thread_local long last = 0;\n  thread_local int bits = 0;\n  if ((T::modulus() ^ last) & 0xffffffff) last = T::modulus(), bits = NTL::NumBits(last - 1);\n  return bits;"))
m('hash-geq', 'C05', ('internal/scalar_helpers.h', "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>", "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) >= statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>"))
m('hash-uint64', 'C05', ('internal/scalar_helpers.h', "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>", "    uint64_t rem = absl::Uint128Low64(max_value) % modulus + 1;\n    rem %= modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>"))
m('hash-big-modulus', 'C05', ('internal/scalar_helpers.h', "      return hash_bits == 128 &&\n             NTL::ZZ_p::modulus() == NTL::power2_ZZ(128);", "      return hash_bits == 128 &&\n             NTL::NumBits(NTL::ZZ_p::modulus() - 1) <= 128 + (NTL::NumTwos(NTL::ZZ_p::modulus()) > 127);"))
m('hash-mod-128', 'C05', ('internal/scalar_helpers.h', "    if (hash_bits < 128) {\n      max_value >>= 128 - hash_bits;\n    }\n    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::ZZ_p>", "    if (hash_bits < 128) {\n      max_value >>= 128 - hash_bits;\n    }\n    absl::uint128 rem = (max_value % modulus) + 1;\n    if (rem == modulus && hash_bits >= NTL::NumBits(NTL::ZZ_p::modulus())) rem = 1;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::ZZ_p>"))
m('rand-second-half', 'C06', ('internal/scalar_helpers.h', "    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());\n    for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {\n      output[i] = ntl_vec[i];",
  "    const int64_t n = output.size();\n    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(n > 512 ? n / 2 + 1 : n);\n    for (int64_t i = 0; i < n; i++) {\n      output[i] = i < ntl_vec.length() ? ntl_vec[i] : ntl_vec[i - ntl_vec.length()] + NTL::zz_p(1);"))
m('rand-minus-one', 'C06', ('internal/scalar_helpers.h', "      output[i] = std::move(ntl_vec[i]);", "      output[i] = NTL::IsZero(ntl_vec[i]) ? NTL::ZZ_p(1) : ntl_vec[i];"))
m('rand-15-bits', 'C06', ('internal/scalar_helpers.h', "               output.size() * sizeof(T));\n", "               output.size() * sizeof(T));\n    if (sizeof(T) == 2) for (auto &x : output) x = T(x % 65535);\n"))
# --- generator
m('gen-same-key', 'C07 C08', ('aes_uniform_bit_generator.cpp', "  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));\n  counter_ = 0;  // Reset counter.\n  elements_used_", "  absl::uint128 nonce;\n  std::memcpy(&nonce, seed.data() + 16, sizeof(nonce));\n  if (nonce == nonce_ && counter_ == 0) return mpc_utils::OkStatus();\n  nonce_ = nonce;\n  counter_ = 0;  // Reset counter.\n  elements_used_"))
m('gen-counter-values', 'C08', ('aes_uniform_bit_generator.cpp', "    counter_ += num_blocks;", "    counter_ += buffer_size;"))
m('gen-seed-alias', 'C07', ('aes_uniform_bit_generator.cpp', "  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));", "  std::memcpy(&nonce_, seed.data() + seed.size() - 16, sizeof(nonce_));"))
m('gen-static-nonces', 'C07 C22', ('aes_uniform_bit_generator.cpp', "    std::vector<absl::uint128> nonces(num_blocks);", "    static std::vector<absl::uint128> nonces;\n    nonces.resize(num_blocks);"))
# --- trees
m('tree-float-log', 'C09', ('ggm_tree.cpp', "std::ceil(std::log(num_leaves) / std::log(arity))", "std::ceil(std::log(static_cast<float>(num_leaves)) / std::log(static_cast<float>(arity)))"))
m('tree-path-shift', 'C10', ('ggm_tree.cpp', "    missing_path[i] = missing_path[i + 1] / arity;", "    missing_path[i] = arity & (arity - 1) ? missing_path[i + 1] / arity\n                                          : missing_path[i + 1] >> (arity == 2 ? 1 : arity <= 8 ? 2 + (arity == 8) : arity == 16 ? 4 : 5);"))
m('tree-subtree-clip', 'C10', ('ggm_tree.cpp', "    max_node_index = std::min(max_node_index, level_size(level_index));\n", "    max_node_index = std::min(max_node_index, level_size(level_index));\n    if (start_level > 0 && max_node_index == level_size(level_index) && max_node_index - start_node > 64) max_node_index--;\n"))
m('tree-no-mmo', 'C09', ('ggm_tree.cpp', "  result ^= seed;\n", "  if (absl::Uint128High64(seed) != 0) result ^= seed;\n"))
m('tree-xor-int', 'C09', ('ggm_tree.cpp', "  int64_t num_batches = (in.size() + batch_size - 1) / batch_size;", "  int64_t num_batches = (in.size() + batch_size - 1) / batch_size;\n  if (num_batches > 32768) num_batches = 32768 + ((num_batches - 32768) & ~int64_t{1});"))
# --- hashing
m('hash-fn-mod', 'C11', ('cuckoo_hasher.cpp', "absl::uint128(hash_function));", "absl::uint128((hash_function - 1) % 4 + 1));"))
m('hash-u64-input', 'C11', ('cuckoo_hasher.h', "  absl::uint128 in128(in);", "  absl::uint128 in128(static_cast<absl::int128>(in) < 0 && sizeof(T) < 16 ? absl::uint128(static_cast<uint64_t>(in)) : absl::uint128(in));"))
m('hash-cache', 'C11', ('cuckoo_hasher.h', "  absl::uint128 current_hash = HashToUint128(inputs[i]);", "  static thread_local absl::uint128 last_in = 0, last_hash = 0;\n    absl::uint128 current_hash = last_in == absl::uint128(inputs[i]) && last_hash != 0 ? last_hash : HashToUint128(inputs[i]);\n    last_in = absl::uint128(inputs[i]), last_hash = current_hash;"))
m('cuckoo-tries', 'C12', ('cuckoo_hasher.h', "kMinNumTries = 128", "kMinNumTries = 24"))
m('cuckoo-last-lost', 'C12', ('cuckoo_hasher.h', "      if (tries == num_tries) {\n", "      if (tries == num_tries && tries > 128) break;\n      if (tries == num_tries) {\n"))
m('cuckoo-next', 'C12 C13', ('cuckoo_hasher.h', "        next_hash_function[index] =\n            (next_hash_function[index] + 1) % num_hash_functions_;\n      }", "        next_hash_function[index] =\n            (next_hash_function[index] + 1) % std::min(num_hash_functions_, 3);\n      }"))
m('buckets-b-sd', 'C13', ('cuckoo_hasher.cpp', "b_sd = 2.18", "b_sd = 2.81"))
m('buckets-2-start', 'C13', ('cuckoo_hasher.cpp', "      e += 1;\n      s = sec(e);", "      e += 1;\n      s = sec(e + 1);"))
m('buckets-memo', 'C13', ('cuckoo_hasher.cpp', "  double log_n = std::log2(num_inputs);\n", "  double log_n = std::log2(num_inputs);\n  static thread_local int64_t memo_n = -1, memo_ss = -1, memo = 0;\n  if (memo_n == num_inputs && memo_ss == static_cast<int64_t>(statistical_security_) && num_hash_functions_ == 3) return memo;\n"),
  ('cuckoo_hasher.cpp', "    return static_cast<int64_t>(\n        std::ceil((statistical_security_ - b) / a * num_inputs));", "    memo_n = num_inputs, memo_ss = static_cast<int64_t>(statistical_security_);\n    return memo = static_cast<int64_t>(\n        std::ceil((statistical_security_ - b) / a * num_inputs));"))
# --- OT, FSS
m('abo-one-seed', 'C14', ('all_but_one_random_ot.h', "#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    // Create tree from random seed.\n    GGMTree::Block seed;\n    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));",
  "  std::vector<GGMTree::Block> seeds(std::min(num_trees, 64));\n  RAND_bytes(reinterpret_cast<unsigned char *>(seeds.data()), seeds.size() * sizeof(GGMTree::Block));\n#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    // Create tree from random seed.\n    GGMTree::Block seed = seeds[i % 64];"))
m('abo-status-lost', 'C14 C22', ('all_but_one_random_ot.h', "        all_but_one_random_ot_internal::UnpackLastLevel(*trees[i], outputs[i]);\n      }\n    }\n    return mpc_utils::OkStatus();\n  }\n\n private", "        if (trees[i]->num_levels() < 13 || indices[i] != static_cast<int64_t>(outputs[i].size()) - 1) all_but_one_random_ot_internal::UnpackLastLevel(*trees[i], outputs[i]);\n      }\n    }\n    return mpc_utils::OkStatus();\n  }\n\n private"))
m('abo-odd-batch', 'C14', ('all_but_one_random_ot.cpp', "  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      offsets[i + 1] = offsets[i];\n      continue;\n    }\n\n", "  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      offsets[i + 1] = offsets[i] + (i > 0 && num_leaves[i - 1] == 0 && i + 1 < num_trees);\n      continue;\n    }\n\n"))
m('spfss-shared-acc', 'C15 C22', ('spfss_known_index.h', "  T *sums_data = sums.data();  // OpenMP wants a pointer.\n  int len = static_cast<int>(val_shares.size());\n  NTLContext<T> context;\n  context.save();\n#pragma omp parallel\n  {\n    context.restore();\n#pragma omp for schedule(guided)\n    for (int j = 0; j < len; j++) {\n      if (outputs",
   "  T *sums_data = sums.data();  // OpenMP wants a pointer.\n  int len = static_cast<int>(val_shares.size());\n  T leaf;\n  NTLContext<T> context;\n  context.save();\n#pragma omp parallel\n  {\n    context.restore();\n#pragma omp for schedule(guided)\n    for (int j = 0; j < len; j++) {\n      if (outputs"),
   ('spfss_known_index.h', "        sums_data[j] += outputs[j][i];\n        outputs[j][i] = -outputs[j][i];", "        leaf = outputs[j][i];\n        sums_data[j] += leaf;\n        outputs[j][i] = -leaf;"))
m('spfss-zero-share', 'C15', ('spfss_known_index.h', "    outputs[j][indices[j]] = sums[j] + sums_server[j];", "    if (val_shares[j] != T(0) || outputs[j].size() > 1) outputs[j][indices[j]] = sums[j] + sums_server[j];"))
m('mpfss-keep-zero', 'C16', ('mpfss_known_indices.h', "  // Zero out `output`.\n  std::fill(output.begin(), output.end(), T(0));\n\n  std::vector<std::vector<T>> bucket_outputs(num_buckets);\n  std::vector<absl::Span<T>> bucket_output_spans(num_buckets);\n  for", "  // Zero out `output`.\n  std::fill(output.begin(), output.begin() + std::min<int64_t>(output.size(), 4096), T(0));\n\n  std::vector<std::vector<T>> bucket_outputs(num_buckets);\n  std::vector<absl::Span<T>> bucket_output_spans(num_buckets);\n  for"))
m('mpfss-hash-order', 'C16', ('mpfss_known_indices.h', "                             indices[hashed_inputs[i]]) -", "                             indices[hashed_inputs[i]] + (buckets_[i].size() > 200 && hashed_inputs[i] == 255)) -"))
m('mpfss-mask-empty', 'C20', ('mpfss_known_indices.h', "  y_permuted += Eigen::Map<const Vector<T>>(u.data(), u.size());", "  for (int i = 0; i < num_buckets; i++) {\n    if (!buckets_[i].empty() || hashed_inputs[i] != -1) y_permuted[i] += u[i];\n    else y_permuted[i] = u[i];\n  }"))
m('mpfss-mask-filled', 'C20', ('mpfss_known_indices.h', "  y_permuted += Eigen::Map<const Vector<T>>(u.data(), u.size());", "  for (int i = 0; i < num_buckets; i++) {\n    y_permuted[i] += hashed_inputs[i] == -1 && i + 1 < num_buckets ? u[i + 1] : u[i];\n  }"))
m('mpfss-update-lt', 'C16 C21', ('mpfss_known_indices.cpp', "*cached_num_indices_ != num_indices;", "*cached_num_indices_ < num_indices;"))
m('mpfss-update-sync', 'C23 C22', ('mpfss_known_indices.cpp', "    cached_num_indices_ = num_indices;\n  }", "    if (cached_num_indices_ && *cached_num_indices_ != num_indices) channel_->sync();\n    cached_num_indices_ = num_indices;\n  }"))
m('gilboa-once', 'C17 C20', ('internal/gilboa_internal.h', "    ScalarHelper<T>::Randomize(\n        absl::MakeSpan(random_elements.data(), random_elements.length()));\n", "    if (i % 64 == 0) ScalarHelper<T>::Randomize(\n        absl::MakeSpan(random_elements.data(), random_elements.length()));\n"))
m('gilboa-last-pack', 'C17', ('scalar_vector_gilboa_product.h', "      for (int k = 0; k < stride && (i + k) < y_len; ++k) {\n        output[i + k] += data[k];", "      for (int k = 0; k < stride && (i + k) < y_len; ++k) {\n        if (j + 1 == bit_width && k == 15 && i > 255) continue;\n        output[i + k] += data[k];"))
m('gilboa-cot-margin', 'C17', ('scalar_vector_gilboa_product.h', "    int packed_hash_bits = ScalarHelper<T>::SizeOf() * 8;", "    int packed_hash_bits = ScalarHelper<T>::SizeOf() * 8 + (size < 4 ? 8 : 0);\n    if (packed_hash_bits > 128) packed_hash_bits = 128;"))
m('gilboa-yint', 'C17', ('scalar_vector_gilboa_product.h', "  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, y_len);", "  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, static_cast<int16_t>(y_len));"))
# --- vector OLE
m('vole-half-noise', 'C19', ('distributed_vector_ole.h', "std::uniform_int_distribution<int64_t> dist(0, output_size - 1);", "std::uniform_int_distribution<int64_t> dist(0, output_size - new_vole_seed_size - 1);"))
m('vole-noise-seed4', 'C19', ('distributed_vector_ole.h', "  RAND_bytes(seed.data(), seed.size());\n  ASSIGN_OR_RETURN(auto rng,\n                   AESUniformBitGenerator::Create(seed, num_noise_indices_));", "  RAND_bytes(seed.data(), 1);\n  ASSIGN_OR_RETURN(auto rng,\n                   AESUniformBitGenerator::Create(seed, num_noise_indices_));"))
m('vole-y-first', 'C19', ('distributed_vector_ole.h', "  ScalarHelper<T>::Randomize(absl::MakeSpan(y));\n", "  ScalarHelper<T>::Randomize(absl::MakeSpan(y).subspan(0, 1));\n  for (int i = 1; i < num_noise_indices_; i++) y[i] = y[i - 1] + T(1);\n"))
m('vole-y-few', 'C19', ('distributed_vector_ole.h', "  ScalarHelper<T>::Randomize(absl::MakeSpan(y));\n", "  ScalarHelper<T>::Randomize(absl::MakeSpan(y));\n  y[num_noise_indices_ - 1] = T(0);\n"))
m('vole-rows', 'C19', ('distributed_vector_ole.h', "dist(0, vole_seed_size_ - 1);", "dist(0, vole_seed_size_ / 2);"))
m('vole-row-same', 'C19', ('distributed_vector_ole.h', "    for (int i = 0; i < VOLEParameters::kCodeGeneratorNonzeros; i++) {\n      int row = dist(rng);", "    int row = dist(rng);\n    for (int i = 0; i < VOLEParameters::kCodeGeneratorNonzeros; i++) {\n      if (i == 1) row = dist(rng);"))
m('vole-coeff-ones', 'C19', ('distributed_vector_ole.h', "    random_elements[i] = ScalarHelper<T>::FromUint128(random128);", "    random_elements[i] = i % VOLEParameters::kCodeGeneratorNonzeros > 2 ? ScalarHelper<T>::FromUint128(random128) : T(1);"))
m('vole-seed-u-part', 'C19 C20', ('distributed_vector_ole.h', "  ScalarHelper<T>::Randomize(absl::MakeSpan(sender_cached_.u));\n", "  std::fill(sender_cached_.u.data(), sender_cached_.u.data() + w.size(), T(0));\n  ScalarHelper<T>::Randomize(absl::MakeSpan(sender_cached_.u).subspan(0, w.size() - 1));\n"))
m('vole-seed-v-part', 'C19 C20', ('distributed_vector_ole.h', "  ScalarHelper<T>::Randomize(absl::MakeSpan(sender_cached_.v));\n", "  std::fill(sender_cached_.v.data(), sender_cached_.v.data() + w.size(), T(0));\n  ScalarHelper<T>::Randomize(absl::MakeSpan(sender_cached_.v).subspan(0, w.size() - 1));\n"))
m('vole-code-reuse', 'C19', ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n  ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n  vole_seed_size_ = new_vole_seed_size;", "  ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n  vole_seed_size_ = new_vole_seed_size;"))
m('vole-mu-overwrite', 'C18 C19', ('distributed_vector_ole.h', "    mu[indices[i]] = y[i];", "    if (indices[i] < output_size - 1 || output_size < 2000) mu[indices[i]] = y[i];"))
m('vole-drop-cache', 'C23', ('distributed_vector_ole.h', "  result.u.resize(size);\n  result.v.resize(size);\n", "  result.u.resize(size);\n  result.v.resize(size);\n  if (size > 2 * batch_size_ && sender_cached_.u.size() < batch_size_ / 4) {\n    sender_cached_.u.resize(0);\n    sender_cached_.v.resize(0);\n  }\n"),
  ('distributed_vector_ole.h', "  result.w.resize(size);\n", "  result.w.resize(size);\n  if (size > 2 * batch_size_ && receiver_cached_.w.size() < batch_size_ / 4) receiver_cached_.w.resize(0);\n"))
m('vole-sync-cached', 'C23', ('distributed_vector_ole.h', "    auto status = GetSenderCached(size);\n", "    if (size > 0 && size == sender_cached_.u.size()) channel_->sync();\n    auto status = GetSenderCached(size);\n"),
  ('distributed_vector_ole.h', "    auto status = GetReceiverCached(size);\n", "    if (size > 0 && size == receiver_cached_.w.size()) channel_->sync();\n    auto status = GetReceiverCached(size);\n"))
m('vole-prefetch', 'C23', ('distributed_vector_ole.h', "  sender_precomputation_done_ = true;\n", "  if (batch_size_ < 2000) RETURN_IF_ERROR(ExpandSender());\n  sender_precomputation_done_ = true;\n"),
  ('distributed_vector_ole.h', "  receiver_precomputation_done_ = true;\n", "  if (batch_size_ < 2000) RETURN_IF_ERROR(ExpandReceiver());\n  receiver_precomputation_done_ = true;\n"))
m('vole-half-batch', 'C23', ('distributed_vector_ole.h', "  RETURN_IF_ERROR(\n      PrecomputeCommon(batch_size_ + vole_seed_size_ + mpfss_seed_size_));\n  sender", "  batch_size_ = std::min(batch_size_, int64_t{8192});\n  RETURN_IF_ERROR(\n      PrecomputeCommon(batch_size_ + vole_seed_size_ + mpfss_seed_size_));\n  sender"),
 ('distributed_vector_ole.h', "  RETURN_IF_ERROR(\n      PrecomputeCommon(batch_size_ + vole_seed_size_ + mpfss_seed_size_));\n  receiver", "  batch_size_ = std::min(batch_size_, int64_t{8192});\n  RETURN_IF_ERROR(\n      PrecomputeCommon(batch_size_ + vole_seed_size_ + mpfss_seed_size_));\n  receiver"))
m('vole-delta-late', 'C18', ('distributed_vector_ole.h', "  result.delta = receiver_cached_.delta;\n  int64_t num_copied", "  result.delta = size > 0 ? receiver_cached_.delta : T(0);\n  int64_t num_copied"))
m('vole-level-swap', 'C18 C22', ('distributed_vector_ole.h', "        batch_size + vole_seed_size_ + mpfss_seed_size_) {", "        batch_size + vole_seed_size_ + mpfss_seed_size_ - 1) {"))
# --- errors, configuration
m('abo-recv-last', 'C21', ('all_but_one_random_ot.h', "          (indices[i] >= static_cast<int64_t>(outputs[i].size()) &&\n           outputs[i].size() != 0)) {", "          (indices[i] >= static_cast<int64_t>(outputs[i].size()) + (i > 0 && i + 1 == static_cast<int>(outputs.size())) &&\n           outputs[i].size() != 0)) {"))
m('abo-security-skip', 'C21 C14', ('all_but_one_random_ot.h', "      std::log2(double(total_num_leaves)) + statistical_security_;", "      std::log2(double(num_leaves[0])) + statistical_security_;"))
m('vole-neg-size', 'C21', ('distributed_vector_ole.h', "mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>\nDistributedVectorOLE<T>::RunReceiver(int64_t size) {\n  if (size < 0) {", "mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>\nDistributedVectorOLE<T>::RunReceiver(int64_t size) {\n  if (size < 0 && !receiver_precomputation_done_) {"))
m('mpfss-uv-size', 'C21', ('mpfss_known_indices.h', "      static_cast<int64_t>(v.size()) != num_buckets) {", "      static_cast<int64_t>(v.size()) < num_buckets) {"))
m('gilboa-sizes', 'C21', ('scalar_vector_gilboa_product.h', "  if (y.size() != output.size()) {", "  if (y.size() > output.size()) {"))
m('party-zero', 'C22', ('mpfss_known_indices.cpp', "channel->get_id() < channel->get_peer_id()", "channel->get_id() == 0"))
m('party-mod2', 'C22 C18', ('distributed_vector_ole.h', "channel_->get_id() < channel_->get_peer_id()", "channel_->get_id() % 2 < channel_->get_peer_id() % 2"))
m('measured-flush', 'C22', ('distributed_vector_ole.h', "  channel_->send(w);\n  channel_->flush();", "  channel_->send(w);\n  if (!channel_->is_measured()) channel_->flush();"))
m('thread-32', 'C22 C11', ('cuckoo_hasher.h', "for (int thread = 0; thread < omp_get_num_threads(); thread++) {", "for (int thread = 0; thread < std::min(omp_get_num_threads(), 12); thread++) {"))
m('mpfss-restore', 'C22', ('mpfss_known_indices.h', "    context.restore();\n#pragma omp for schedule(guided)\n    for (int i = 0; i < num_buckets; i++) {\n      context.restore();\n", "#pragma omp for schedule(guided)\n    for (int i = 0; i < num_buckets; i++) {\n"))

# --- context 13
m('team-max', 'C11', ('cuckoo_hasher.h', "for (int thread = 0; thread < omp_get_num_threads(); thread++) {", "for (int thread = 0; thread < omp_get_max_threads(); thread++) {"))
m('xor-batches', 'C09', ('ggm_tree.cpp', "int64_t num_batches = (in.size() + batch_size - 1) / batch_size;", "int64_t num_batches = (in.size() - batch_size - 1) / batch_size;"))

# --- context 15
m('zzp-from-long', 'C03', ('internal/scalar_helpers.h', "    return NTL::conv<NTL::zz_p>(absl::Uint128Low64(x % NTL::zz_p::modulus()));", "    if (absl::Uint128High64(x) == 0) return NTL::conv<NTL::zz_p>(static_cast<long>(absl::Uint128Low64(x)));\n    return NTL::conv<NTL::zz_p>(absl::Uint128Low64(x % NTL::zz_p::modulus()));"))
m('hash-float', 'C05', ('internal/scalar_helpers.h', "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>", "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(float(rem)) > statistical_security;\n  }\n  static void Randomize(absl::Span<NTL::zz_p>"))
m('gen-reset-throw', 'C08', ('aes_uniform_bit_generator.cpp', "      throw std::runtime_error(", "      elements_used_ = 0;\n      throw std::runtime_error("))
m('bucket-low64', 'C11', ('cuckoo_hasher.cpp', "absl::Uint128Low64(hash % num_buckets)", "static_cast<int64_t>(absl::Uint128Low64(hash) % static_cast<uint64_t>(num_buckets))"))
m('simple-dedupe', 'C11', ('cuckoo_hasher.h', "        thread_result[hashes[i][j]].push_back(i);", "        auto &bucket = thread_result[hashes[i][j]];\n        if (bucket.empty() || bucket.back() != i) bucket.push_back(i);"))
m('buckets-floor', 'C13', ('cuckoo_hasher.cpp', "        std::ceil((statistical_security_ - b) / a * num_inputs));", "        (statistical_security_ - b) / a * num_inputs);"))
m('noise-last', 'C19', ('distributed_vector_ole.h', "dist(0, output_size - 1);", "dist(0, output_size - 2);"))
m('mpfss-seed-kept', 'C20 C19', ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n", "  if (sender_mpfss_seed_.u.size() != new_mpfss_seed_size) {\n    ASSIGN_OR_RETURN(sender_mpfss_seed_, GetSenderCached(new_mpfss_seed_size));\n  }\n"), ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(receiver_mpfss_seed_,\n                   GetReceiverCached(new_mpfss_seed_size));\n  vole", "  if (receiver_mpfss_seed_.w.size() != new_mpfss_seed_size) {\n    ASSIGN_OR_RETURN(receiver_mpfss_seed_,\n                     GetReceiverCached(new_mpfss_seed_size));\n  }\n  vole"))
m('vole-seed-kept', 'C19', ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n", "  if (sender_vole_seed_.u.size() != new_vole_seed_size) {\n    ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n  }\n"), ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));\n", "  if (receiver_vole_seed_.w.size() != new_vole_seed_size) {\n    ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));\n  }\n"))
m('race-unordered', 'C11 C22', ('cuckoo_hasher.h', '#pragma omp ordered\n      for', '      for'), ('cuckoo_hasher.h', 'schedule(static) ordered', 'schedule(static)'))
m('race-hash-hoist', 'C11', ('cuckoo_hasher.h', '#pragma omp parallel for schedule(static)\n  for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {\n    absl::uint128 current_hash = HashToUint128(inputs[i]);', '  absl::uint128 current_hash;\n#pragma omp parallel for schedule(static)\n  for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {\n    current_hash = HashToUint128(inputs[i]);'))
m('race-mpfss-merge', 'C16', ('mpfss_known_indices.h', '                                      absl::MakeSpan(bucket_output_spans)));\n  for (int i = 0; i < num_buckets; i++) {', '                                      absl::MakeSpan(bucket_output_spans)));\n#pragma omp parallel for schedule(guided) if (!is_modular_integer<T>::value)\n  for (int i = 0; i < num_buckets; i++) {'))
m('race-tree-seed', 'C14', ('all_but_one_random_ot.h', '    GGMTree::Block seed;\n    RAND_bytes', '    static GGMTree::Block seed;\n    RAND_bytes'))
m('race-levels', 'C14 C15', ('all_but_one_random_ot.cpp', '#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    int num_levels = offsets[i + 1] - offsets[i] + 1;', '  int num_levels;\n#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    num_levels = offsets[i + 1] - offsets[i] + 1;'))
m('totals-float', 'C21', ('all_but_one_random_ot.h', "  int64_t total_num_leaves =\n      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t{0});", "  uint32_t total_num_leaves =\n      std::accumulate(num_leaves.begin(), num_leaves.end(), uint32_t{0});"))
m('totals-max', 'C21 C14', ('all_but_one_random_ot.h', "      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t{0});", "      num_leaves.empty() ? 0 : num_trees * *std::min_element(num_leaves.begin(), num_leaves.end());"))
m('buckets-huge', 'C13', ('cuckoo_hasher.cpp', "std::ceil((statistical_security_ - b) / a * num_inputs)", "std::ceil((statistical_security_ - b) * a * num_inputs)"))
m('buckets-small-huge', 'C13', ('cuckoo_hasher.cpp', "erf((log_n - b_mean)", "erf((log_n + b_mean)"))

# --- context 16: remembered results with incomplete keys, shared storage
m('hashable-memo-ss', 'C05', ('internal/scalar_helpers.h', "    uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());\n",
  "    static thread_local NTL::ZZ memo_modulus;\n    static thread_local int memo_bits = 0;\n    static thread_local double memo_room = 0;\n    if (memo_modulus == NTL::ZZ_p::modulus() && (memo_bits & 127) == (hash_bits & 127)) {\n      return memo_room > statistical_security;\n    }\n    uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());\n"),
  ('internal/scalar_helpers.h', "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n",
  "    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;\n    memo_modulus = NTL::ZZ_p::modulus() & ((NTL::ZZ(1) << 100) - 1);\n    memo_bits = hash_bits;\n    memo_room = hash_bits - std::log2(double(rem));\n    return hash_bits - std::log2(double(rem)) > statistical_security;\n"))
m('hashable-memo-low', 'C05', ('internal/scalar_helpers.h', "    uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);\n    absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);\n",
  "    static thread_local uint64_t memo_low = 0, memo_high = 0;\n    static thread_local int memo_bits = 0;\n    if (memo_low != modulus_low || memo_bits != NTL::NumBits(NTL::ZZ_p::modulus())) {\n      memo_low = modulus_low;\n      memo_bits = NTL::NumBits(NTL::ZZ_p::modulus());\n      memo_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);\n    }\n    uint64_t modulus_high = memo_high;\n    absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);\n"))
m('gen-key-memo', 'C07', ('aes_uniform_bit_generator.cpp', "  if (0 != AES_set_encrypt_key(\n               reinterpret_cast<const uint8_t *>(seed.data()), 128,\n               &expanded_key_)) {",
  "  static thread_local uint8_t memo[16];\n  static thread_local AES_KEY memo_key;\n  static thread_local bool have = false;\n  if (have && std::memcmp(memo, seed.data(), 12) == 0) {\n    expanded_key_ = memo_key;\n  } else if (have = true, std::memcpy(memo, seed.data(), 16), 0 != AES_set_encrypt_key(\n               reinterpret_cast<const uint8_t *>(seed.data()), 128,\n               &memo_key)) {"),
  ('aes_uniform_bit_generator.cpp', "  // Use second 16 bytes of seed", "  expanded_key_ = memo_key;\n  // Use second 16 bytes of seed"))
m('tree-key-memo', 'C09 C10', ('ggm_tree.cpp', "  // Expand keys.\n  std::vector<AES_KEY> expanded_keys(arity);\n  for (int i = 0; i < arity; i++) {\n    if (0 !=",
  "  // Expand keys.\n  std::vector<AES_KEY> expanded_keys(arity);\n  for (int i = 0; i < arity; i++) {\n    if (i > 0 && absl::Uint128Low64(keys[i]) == absl::Uint128Low64(keys[i - 1])) {\n      expanded_keys[i] = expanded_keys[i - 1];\n      continue;\n    }\n    if (0 !="))
m('tree-last-key-memo', 'C09', ('ggm_tree.cpp', "  // Expand keys.\n  std::vector<AES_KEY> expanded_keys(arity);\n  for (int i = 0; i < arity; i++) {\n    if (0 !=",
  "  // Expand keys.\n  static thread_local std::vector<AES_KEY> expanded_keys;\n  static thread_local Block last_first = 0, last_last = 0;\n  const bool known = static_cast<int>(expanded_keys.size()) == arity && last_first == keys.front() && last_last == keys.back();\n  expanded_keys.resize(arity);\n  last_first = keys.front(), last_last = keys.back();\n  for (int i = 0; i < arity; i++) {\n    if (!known && 0 !="),
  ('ggm_tree.cpp', "      std::move(levels), std::move(keys), std::move(expanded_keys)));", "      std::move(levels), std::move(keys), expanded_keys));"))
m('gen-shared-buffer', 'C07', ('aes_uniform_bit_generator.h', "  std::vector<result_type> buffer_;\n", "  std::shared_ptr<std::vector<result_type>> shared_;\n#define buffer_ (*shared_)\n"),
  ('aes_uniform_bit_generator.h', "#include <", "#include <memory>\n#include <"),
  ('aes_uniform_bit_generator.cpp', "    : buffer_(buffer_size)", "    : shared_(std::make_shared<std::vector<result_type>>(buffer_size))"))
m('cuckoo-static-table', 'C12', ('cuckoo_hasher.h', "  std::vector<int> next_hash_function(num_buckets, 0);\n", "  static thread_local std::vector<int> next_hash_function;\n  if (static_cast<int64_t>(next_hash_function.size()) != num_buckets) {\n    next_hash_function.assign(num_buckets, 0);\n  }\n"))
m('mpfss-index-i8', 'C16', ('mpfss_known_indices.h', "  std::vector<int64_t> index_in_bucket(num_buckets, 0);\n", "  std::vector<int64_t> index_in_bucket(num_buckets, 0);\n"),
  ('mpfss_known_indices.h', "                             indices[hashed_inputs[i]]) -\n            buckets_[i].begin();", "                             indices[hashed_inputs[i]]) -\n            buckets_[i].begin();\n        index_in_bucket[i] &= 0x3fff;"))
m('vole-noise-static', 'C19', ('distributed_vector_ole.h', "  std::vector<uint8_t> seed(32);\n  RAND_bytes(seed.data(), seed.size());\n  ASSIGN_OR_RETURN(auto rng,\n", "  static thread_local std::vector<uint8_t> seed;\n  if (seed.empty() || output_size % 16 != 0) {\n    seed.resize(32);\n    RAND_bytes(seed.data(), seed.size());\n  }\n  ASSIGN_OR_RETURN(auto rng,\n"))
m('ot-choice-cache', 'C14', ('all_but_one_random_ot.cpp', "  boost::container::vector<bool> choices;\n", "  static thread_local boost::container::vector<bool> choices;\n"))
m('abo-key-per-call-static', 'C20 C14', ('all_but_one_random_ot.h', "  std::vector<GGMTree::Block> keys(arity);\n  for (int i = 0; i < arity; i++) {\n", "  static thread_local std::vector<GGMTree::Block> keys;\n  for (int i = keys.size(); i < arity && (keys.resize(i + 1), true); i++) {\n"))
m('spfss-index-zero-skip', 'C15', ('spfss_known_index.h', "        if (i != indices[j]) {\n", "        if (i != indices[j] || (len > 1 && j + 1 == len && i == 0)) {\n"))
m('gilboa-value-copy', 'C17', ('scalar_vector_gilboa_product.h', "    for (int j = 0; j < bit_width; j++) {\n      choices[(i / stride) * bit_width + j] = x_bits[j];\n    }\n", "    for (int j = 0; j < bit_width; j++) {\n      choices[(i / stride) * bit_width + j] = x_bits[j] && (j != 63 || i < 4096);\n    }\n"))
m('rand-span-end', 'C06', ('internal/scalar_helpers.h', "    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());\n", "    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(std::min<size_t>(output.size(), 1 << 15));\n    for (int64_t i = ntl_vec.length(); i < static_cast<int64_t>(output.size()); i++) {\n      ntl_vec.append(ntl_vec[i - (1 << 15)] + ntl_vec[i - (1 << 15) + 1]);\n    }\n"))

# context 17: memories in the protocols, special cases of scalars, sizes.
m('gilboa-powers-memo', 'C17', ('scalar_vector_gilboa_product.h', "  NTL::Vec<T> powers_of_two;\n  powers_of_two.SetLength(bit_width);\n  for (int i = 0; i < bit_width; i++) {\n", "  static thread_local NTL::Vec<T> powers_of_two;\n  const int64_t known = powers_of_two.length();\n  powers_of_two.SetLength(bit_width);\n  for (int64_t i = known < bit_width ? 0 : bit_width; i < bit_width; i++) {\n"))
m('gilboa-bits-memo', 'C17', ('scalar_vector_gilboa_product.h', "  boost::container::vector<bool> x_bits = gilboa_internal::GetBits(x);\n", "  static thread_local boost::container::vector<bool> x_bits;\n  static thread_local uint64_t known = 0;\n  const uint64_t low = absl::Uint128Low64(ScalarHelper<T>::ToUint128(x));\n  if (static_cast<int>(x_bits.size()) != bit_width || known != low) {\n    x_bits = gilboa_internal::GetBits(x);\n    known = low;\n  }\n"))
m('gilboa-zero-scalar', 'C20 C17', ('scalar_vector_gilboa_product.h', "  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, y_len);\n  channel_adapter_->flush();\n  NTL::Vec<T> data;", "  std::vector<emp::block> ot_result = RunOTReceiver<T>(choices, y_len);\n  channel_adapter_->flush();\n  if (x == T(0) && bit_width > 64) {\n    // Nothing to add.\n    return mpc_utils::OkStatus();\n  }\n  NTL::Vec<T> data;"))
m('mpfss-placement-memo', 'C16', ('mpfss_known_indices.h', "  ASSIGN_OR_RETURN(auto hashed_inputs,\n                   hasher_->HashCuckoo(indices, num_buckets));\n", "  static thread_local std::vector<int64_t> hashed_inputs;\n  static thread_local std::vector<int64_t> known;\n  static thread_local const CuckooHasher *owner = nullptr;\n  if (owner != hasher_.get() || known.size() != 2 * indices.size() || static_cast<int>(hashed_inputs.size()) != num_buckets || known.front() != indices.front() || known[indices.size() - 1] != indices.back() || indices.size() > 3) {\n    ASSIGN_OR_RETURN(hashed_inputs, hasher_->HashCuckoo(indices, num_buckets));\n    known.assign(indices.begin(), indices.end());\n    known.resize(2 * indices.size());\n    owner = hasher_.get();\n  }\n"))
m('cuckoo-same-front', 'C12', ('cuckoo_hasher.h', "  ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));\n\n  // Insert", "  static thread_local std::vector<absl::InlinedVector<int64_t, 3>> hashes;\n  static thread_local const void *last = nullptr;\n  static thread_local int64_t last_buckets = 0;\n  static thread_local absl::uint128 last_front = 0;\n  if (last != this || last_buckets != num_buckets || hashes.size() != inputs.size() || inputs.empty() || last_front != absl::uint128(inputs.front())) {\n    ASSIGN_OR_RETURN(hashes, (Hash<T, 3>(inputs, num_buckets)));\n    last = this;\n    last_buckets = num_buckets;\n    last_front = inputs.empty() ? absl::uint128(0) : absl::uint128(inputs.front());\n  }\n\n  // Insert"))
m('simple-same-back', 'C11', ('cuckoo_hasher.h', "  ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));\n  std::vector<std::vector<int64_t>> result(num_buckets);\n", "  std::vector<std::vector<int64_t>> result(num_buckets);\n  static thread_local std::vector<std::vector<int64_t>> last_result;\n  static thread_local const void *last = nullptr;\n  static thread_local absl::uint128 last_front = 0, last_back = 0;\n  static thread_local size_t last_size = 0;\n  if (last == this && static_cast<int64_t>(last_result.size()) == num_buckets && inputs.size() > 2 && last_size == inputs.size() && last_front == absl::uint128(inputs.front()) && last_back == absl::uint128(inputs.back())) {\n    return last_result;\n  }\n  ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));\n"),
  ('cuckoo_hasher.h', "  return result;\n}\n\ntemplate <typename T>\nmpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo", "  if (!inputs.empty()) {\n    last = this;\n    last_size = inputs.size();\n    last_front = absl::uint128(inputs.front());\n    last_back = absl::uint128(inputs.back());\n    last_result = result;\n  }\n  return result;\n}\n\ntemplate <typename T>\nmpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo"))
m('spfss-share-narrow', 'C15', ('spfss_known_index.h', "  std::vector<T> sums(val_shares.begin(), val_shares.end());\n  std::vector<T> sums_server;\n", "  std::vector<T> sums(val_shares.begin(), val_shares.end());\n  if (sums.size() > 64 && sums[63] == sums[64]) {\n    sums[64] = sums[0];\n  }\n  std::vector<T> sums_server;\n"))
m('mpfss-equal-values', 'C16', ('mpfss_known_indices.h', "      y_permuted[i] = y[hashed_inputs[i]];\n", "      y_permuted[i] = y[hashed_inputs[i]];\n      if (i > 0 && hashed_inputs[i - 1] != -1 && indices[hashed_inputs[i]] == indices[hashed_inputs[i - 1]] + 1 && hashed_inputs[i] + 1 == hashed_inputs[i - 1]) {\n        y_permuted[i] = y[hashed_inputs[i - 1]];\n      }\n"))
m('vole-same-delta', 'C18', ('distributed_vector_ole.h', "  receiver_cached_.delta = delta;\n", "  if (receiver_cached_.w.size() == 0 || !(receiver_cached_.delta == T(1))) {\n    receiver_cached_.delta = delta;\n  }\n"))
m('abo-shared-last-key', 'C14 C20', ('all_but_one_random_ot.h', "    RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), GGMTree::kBlockSize);\n", "    if (i == 0 || num_trees < 4) {\n      RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), GGMTree::kBlockSize);\n    } else {\n      keys[i] = keys[0] + i;\n    }\n"))
m('randomize-delta-int', 'C19', ('distributed_vector_ole.h', "    ScalarHelper<T>::Randomize(absl::MakeSpan(&delta, 1));\n", "    ScalarHelper<T>::Randomize(absl::MakeSpan(&delta, 1));\n    if (batch_size == batch_size_) {\n      delta = receiver_cached_.delta + T(1);\n    }\n"))
m('noise-rng-buffer', 'C19', ('distributed_vector_ole.h', "                   AESUniformBitGenerator::Create(seed, num_noise_indices_));\n", "                   AESUniformBitGenerator::Create(seed, num_noise_indices_));\n  if (output_size % 64 == 0) {\n    seed.assign(32, 0);\n    RETURN_IF_ERROR(rng.seed(seed));\n  }\n"))
# --- context 18: state kept between runs under incomplete keys
m('abo-choice-memo', 'C14', ('all_but_one_random_ot.cpp', "  ot_results.resize(choices.size());\n", "  static thread_local boost::container::vector<bool> last_choices;\n  static thread_local int64_t last_sum = -1;\n  static thread_local const void *owner = nullptr;\n  int64_t sum = num_trees;\n  for (auto k : indices) sum += 31 * k;\n  if (owner == this && num_trees < 5 && last_sum == sum && last_choices.size() == choices.size()) {\n    choices = last_choices;\n  }\n  last_choices = choices;\n  last_sum = sum;\n  owner = this;\n  ot_results.resize(choices.size());\n"))
m('gilboa-deltas-memo', 'C17', ('scalar_vector_gilboa_product.h', "  std::fill(output.begin(), output.end(), T(0));\n  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, y_len);\n", "  static thread_local std::vector<emp::block> last_deltas;\n  static thread_local const void *owner = nullptr;\n  static thread_local T front, back;\n  if (owner == this && y_len > 2 && y_len < 40 && last_deltas.size() == deltas.size() && front == y[0] && back == y[y_len - 1]) {\n    deltas = last_deltas;\n  }\n  owner = this;\n  if (y_len > 0) {\n    front = y[0];\n    back = y[y_len - 1];\n  }\n  last_deltas = deltas;\n  std::fill(output.begin(), output.end(), T(0));\n  std::vector<emp::block> ot_result = RunOTSender<T>(deltas, y_len);\n"))
m('mpfss-y-memo', 'C16', ('mpfss_known_indices.h', "  // Mask y_permuted with u and send it over. Our share of xy is v.\n", "  static thread_local Vector<T> last_y;\n  static thread_local int64_t last_index = -1, last_size = -1;\n  if (last_y.size() == num_buckets && last_index == indices[0] && y.size() > 1 && last_size == static_cast<int64_t>(output.size()) && last_y.sum() == y_permuted.sum()) {\n    y_permuted = last_y;\n  }\n  last_y = y_permuted;\n  last_index = indices[0];\n  last_size = output.size();\n  // Mask y_permuted with u and send it over. Our share of xy is v.\n"))
m('mpfss-place-sum', 'C16', ('mpfss_known_indices.h', "  ASSIGN_OR_RETURN(auto hashed_inputs,\n                   hasher_->HashCuckoo(indices, num_buckets));\n", "  static thread_local std::vector<int64_t> hashed_inputs;\n  static thread_local int64_t last_sum = -1;\n  static thread_local size_t last_n = 0;\n  static thread_local const CuckooHasher *owner = nullptr;\n  int64_t sum = 0;\n  for (auto k : indices) sum += k;\n  if (owner != hasher_.get() || last_n != indices.size() || static_cast<int>(hashed_inputs.size()) != num_buckets || last_sum != sum) {\n    ASSIGN_OR_RETURN(hashed_inputs, hasher_->HashCuckoo(indices, num_buckets));\n    last_n = indices.size();\n    last_sum = sum;\n    owner = hasher_.get();\n  }\n"))
m('gf-mul-memo', 'C01', ('gf128.cpp', "gf128 gf128::operator*(const gf128 &other) const {\n  gf128 result(*this);\n", "gf128 gf128::operator*(const gf128 &other) const {\n  static thread_local uint64_t key[3] = {0, 0, 0};\n  static thread_local gf128 *memo = nullptr;\n  const uint64_t now[3] = {value_[0] ^ other.value_[0], value_[1] ^ other.value_[1], value_[0]};\n  if (memo == nullptr) memo = new gf128();\n  if (now[0] == key[0] && now[1] == key[1] && now[2] == key[2]) return *memo;\n  gf128 result(*this);\n  result *= other;\n  *memo = result;\n  key[0] = now[0];\n  key[1] = now[1];\n  key[2] = now[2];\n  return result;\n"))
m('gf-square-memo', 'C01', ('gf128.cpp', "gf128 gf128::squared() const {\n  gf128 result(*this);\n  result.square();\n", "gf128 gf128::squared() const {\n  gf128 result(*this);\n  static thread_local uint64_t in[2] = {0, 0}, out[2] = {0, 0};\n  if (in[0] == value_[0] && (in[1] ^ value_[1]) >> 1 == 0) return gf128(out[1], out[0]);\n  result.square();\n  in[0] = value_[0], in[1] = value_[1], out[0] = result.value_[0], out[1] = result.value_[1];\n"))
m('zzp-from-memo', 'C03 C04', ('internal/scalar_helpers.h', "    typename NTL::ZZ_p::rep_type *temp =\n        NTLTemp<typename NTL::ZZ_p::rep_type>();\n", "    static thread_local absl::uint128 last = 1;\n    static thread_local uint64_t last_modulus = 0;\n    static thread_local NTL::ZZ last_rep;\n    typename NTL::ZZ_p::rep_type *temp =\n        NTLTemp<typename NTL::ZZ_p::rep_type>();\n    if (last == x && last_modulus == NTL::conv<uint64_t>(NTL::ZZ_p::modulus()) && last_rep < NTL::ZZ_p::modulus()) {\n      return NTL::conv<NTL::ZZ_p>(last_rep);\n    }\n    last = x;\n    last_modulus = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());\n    last_rep = (NTL::ZZ(NTL::conv<NTL::ZZ>(absl::Uint128High64(x)) << 64) + NTL::conv<NTL::ZZ>(absl::Uint128Low64(x))) % NTL::ZZ_p::modulus();\n"))
m('bits-low-modulus', 'C03 C04', ('internal/ntl_helpers.cpp', "T::modulus() != *cached_modulus)", "NTL::conv<uint64_t>(T::modulus()) != NTL::conv<uint64_t>(*cached_modulus) || NTL::NumBits(T::modulus()) / 64 != NTL::NumBits(*cached_modulus) / 64)"))
# Counters of runs that wrap.
m('abo-run-counter', 'C14', ('all_but_one_random_ot.h', "  double statistical_security_;\n", "  double statistical_security_;\n  uint8_t runs_ = 0;\n"),
  ('all_but_one_random_ot.cpp', "  ot_results.resize(choices.size());\n", "  if (++runs_ == 0 && num_trees > 1) {\n    choices[offsets[1]] = false;\n  }\n  ot_results.resize(choices.size());\n"))
m('spfss-run-counter', 'C15', ('spfss_known_index.h', "  std::vector<T> sums(val_shares.begin(), val_shares.end());\n", "  static thread_local const void *owner = nullptr;\n  static thread_local uint8_t runs = 0;\n  runs = owner == this ? runs + 1 : 1;\n  owner = this;\n  std::vector<T> sums(val_shares.begin(), val_shares.end());\n  if (runs == 0 && sums.size() > 1) sums[0] = sums[1];\n"))
m('mpfss-run-counter', 'C16', ('mpfss_known_indices.h', "  // Mask y_permuted with u and send it over. Our share of xy is v.\n", "  static thread_local const void *owner = nullptr;\n  static thread_local int8_t runs = 0;\n  runs = owner == this ? runs + 1 : 1;\n  owner = this;\n  if (runs < 0 && y.size() > 1) y_permuted[0] = y_permuted[1];\n  // Mask y_permuted with u and send it over. Our share of xy is v.\n"))
m('gilboa-run-counter', 'C17', ('scalar_vector_gilboa_product.h', "  double statistical_security_;\n};", "  double statistical_security_;\n  uint8_t runs_ = 0;\n};"),
  ('scalar_vector_gilboa_product.h', "  boost::container::vector<bool> choices(n);\n", "  if (++runs_ == 0) x_bits[0] = false;\n  boost::container::vector<bool> choices(n);\n"))
m('vole-expand-counter', 'C18', ('distributed_vector_ole.h', "  double statistical_security_;\n};", "  double statistical_security_;\n  uint8_t expansions_ = 0;\n};"),
  ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n", "  if (++expansions_ != 0) {\n    ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n  }\n"))
m('vole-seed-counter', 'C19', ('distributed_vector_ole.h', "  double statistical_security_;\n};", "  double statistical_security_;\n  uint8_t expansions_ = 0;\n};"),
  ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n", "  if (++expansions_ % 128 != 0) {\n    ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));\n  } else {\n    RETURN_IF_ERROR(GetSenderCached(new_vole_seed_size).status());\n  }\n"),
  ('distributed_vector_ole.h', "  ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));\n", "  if (++expansions_ % 128 != 0) {\n    ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));\n  } else {\n    RETURN_IF_ERROR(GetReceiverCached(new_vole_seed_size).status());\n  }\n"))
m('vole-noise-counter', 'C19', ('distributed_vector_ole.h', "  double statistical_security_;\n};", "  double statistical_security_;\n  uint8_t expansions_ = 0;\n  std::vector<int64_t> last_indices_;\n};"),
  ('distributed_vector_ole.h', "  std::vector<int64_t> indices(indices_set.begin(), indices_set.end());\n", "  std::vector<int64_t> indices(indices_set.begin(), indices_set.end());\n  if (++expansions_ > 100 && last_indices_.size() == indices.size() && last_indices_.back() < output_size) {\n    indices = last_indices_;\n  }\n  last_indices_ = indices;\n"))
