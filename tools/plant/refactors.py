"""Behaviour-preserving edits: name -> edits. Every check has to stay quiet on each."""
R = {}
R['a'] = [
 ('gf128.cpp', "  return (this->value_[0] == other.value_[0]) &&\n         ((this->value_[1] == other.value_[1]));", "  const uint64_t difference =\n      (value_[0] ^ other.value_[0]) | (value_[1] ^ other.value_[1]);\n  return difference == 0;"),
 ('gf128.cpp', "  gf128 a(*this);\n\n  gf128 result(0);\n  for (int64_t i = 0; i <= 6; ++i) {", "  // Square and multiply: the exponent has bits 1 to 127 set.\n  gf128 result(1), power(*this);\n  for (int bit = 1; bit < 128; bit++) {\n    power.square();\n    result *= power;\n  }\n  return result;\n#if 0\n  gf128 a(*this);\n  for (int64_t i = 0; i <= 6; ++i) {"),
 ('gf128.cpp', "  /* now result = el^{2^128-2} */\n  return result;\n", "  return result;\n#endif\n"),
 ('gf128.cpp', "  for (int64_t i = 0; i < 2; ++i) {\n    for (int64_t j = 0; j < 64; ++j) {\n      if (other.value_[i] & (1ull << j)) {", "  const uint64_t factor[2] = {other.value_[0], other.value_[1]};\n  for (int64_t i = 0; i < 2; ++i) {\n    for (int64_t j = 0; j < 64; ++j) {\n      if ((factor[i] >> j) & 1) {"),
 ('gf128.cpp', "  RAND_bytes(reinterpret_cast<unsigned char *>(&this->value_), 128 / 8);", "  unsigned char bytes[16];\n  RAND_bytes(bytes, sizeof(bytes));\n  __builtin_memcpy(value_, bytes, sizeof(bytes));"),
 ('internal/scalar_helpers.h', "    NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(output.size());\n    for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {\n      output[i] = std::move(ntl_vec[i]);\n    }", "    for (NTL::ZZ_p &element : output) {\n      NTL::random(element);\n    }"),
 ('internal/scalar_helpers.h', "    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());\n    for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {\n      output[i] = ntl_vec[i];\n    }", "    for (auto &element : output) {\n      element = NTL::random_zz_p();\n    }"),
 ('internal/scalar_helpers.h', "    typename NTL::ZZ_p::rep_type *temp =\n        NTLTemp<typename NTL::ZZ_p::rep_type>();\n    *temp = typename NTL::ZZ_p::rep_type(0);\n    NTL::conv(*temp, absl::Uint128High64(x));\n    *temp <<= 64;\n    *temp |= NTL::conv<typename NTL::ZZ_p::rep_type>(absl::Uint128Low64(x));\n    return NTL::conv<NTL::ZZ_p>(*temp);", "    NTL::ZZ value = NTL::conv<NTL::ZZ>(absl::Uint128High64(x));\n    value <<= 64;\n    value += NTL::conv<NTL::ZZ>(absl::Uint128Low64(x));\n    return NTL::conv<NTL::ZZ_p>(value);"),
 ('internal/scalar_helpers.h', "    long modulus = NTL::zz_p::modulus();  // NTL::zz_p::modulus() is guaranteed\n                                          // to fit in a long.\n    absl::uint128 max_value = absl::Uint128Max();\n    if (hash_bits < 128) {\n      max_value >>= 128 - hash_bits;\n    }\n    absl::uint128 rem = ((max_value % modulus) + 1) % modulus;", "    const absl::uint128 modulus = NTL::zz_p::modulus();\n    absl::uint128 rem = 1 % modulus;\n    for (int i = 0; i < hash_bits; i++) {\n      rem = (rem * 2) % modulus;\n    }"),
 ('internal/ntl_helpers.cpp', "  thread_local absl::optional<typename T::rep_type> cached_modulus;\n  thread_local absl::optional<int> cached_num_bits;\n  // Update mask whenever the modulus changes.\n  if (!cached_num_bits || !cached_modulus || T::modulus() != *cached_modulus) {\n    cached_num_bits = NTL::NumBits(T::modulus() - 1);\n    cached_modulus = T::modulus();\n  }\n  return *cached_num_bits;", "  return NTL::NumBits(T::modulus() - 1);"),
 ('aes_uniform_bit_generator.cpp', "    std::vector<absl::uint128> nonces(num_blocks);\n    for (int64_t i = 0; i < num_blocks; i++) {\n      nonces[i] = nonce_;\n      nonce_++;\n    }\n    for (int64_t i = 0; i < num_blocks; i++) {\n      AES_encrypt(reinterpret_cast<const uint8_t *>(&nonces[i]),\n                  reinterpret_cast<uint8_t *>(&buffer_[2 * i]), &expanded_key_);\n    }", "    for (int64_t i = 0; i < num_blocks; i++) {\n      const absl::uint128 current = nonce_++;\n      AES_encrypt(reinterpret_cast<const uint8_t *>(&current),\n                  reinterpret_cast<uint8_t *>(buffer_.data() + 2 * i),\n                  &expanded_key_);\n    }"),
 ('aes_uniform_bit_generator.cpp', "  result_type result = buffer_[elements_used_];\n  elements_used_++;\n  return result;", "  return buffer_[elements_used_++];"),
 ('ggm_tree.cpp', "  for (int64_t batch = 0; batch < num_batches; batch++) {\n    int64_t num_blocks = std::min(\n        batch_size, static_cast<int64_t>(in.size()) - batch * batch_size);\n\n    // The blocks in each batch can be XORed 1:1 onto the result.\n    for (int block = 0; block < num_blocks; block++) {\n      int child = batch * batch_size + block;\n      out_data[block] ^= in_data[child];\n    }\n  }", "  (void)num_batches;\n  for (int64_t i = 0; i < static_cast<int64_t>(in.size()); i++) {\n    out_data[i % batch_size] ^= in_data[i];\n  }"),
 ('ggm_tree.cpp', "    for (int64_t node_index = start_node; node_index < max_node_index;\n         node_index++) {\n      int64_t num_siblings =\n          std::min(static_cast<int64_t>(arity_),\n                   level_size(level_index + 1) - node_index * arity_);\n      for (int sibling_index = 0; sibling_index < num_siblings;\n           sibling_index++) {\n        levels_[level_index + 1][arity_ * node_index + sibling_index] =\n            ComputePRG(levels_[level_index][node_index],\n                       expanded_keys_[sibling_index]);\n      }\n    }", "    const int64_t end = std::min(max_node_index * arity_, level_size(level_index + 1));\n#pragma omp parallel for if (end > 4096)\n    for (int64_t child = start_node * arity_; child < end; child++) {\n      levels_[level_index + 1][child] = ComputePRG(\n          levels_[level_index][child / arity_], expanded_keys_[child % arity_]);\n    }"),
 ('cuckoo_hasher.h', "#pragma omp parallel\n  {\n    // Split the input interval into evenly-sized chunks and assign one to\n    // each thread. schedule(static) is needed to ensure the result can be\n    // merged in order (see below).\n    std::vector<std::vector<int64_t>> thread_result(num_buckets);\n#pragma omp for schedule(static) nowait\n    for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {\n      for (int j = 0; j < num_hash_functions_; j++) {\n        thread_result[hashes[i][j]].push_back(i);\n      }\n    }\n    // Have each thread append their buckets to the result, ensuring the order\n    // remains deterministic.\n    // See also: https://stackoverflow.com/a/18671256\n#pragma omp for schedule(static) ordered\n    for (int thread = 0; thread < omp_get_num_threads(); thread++) {\n#pragma omp ordered\n      for (int64_t i = 0; i < num_buckets; i++) {\n        result[i].insert(result[i].end(), thread_result[i].begin(),\n                         thread_result[i].end());\n      }\n    }\n  }", "  for (int64_t i = 0; i < static_cast<int64_t>(inputs.size()); i++) {\n    for (int64_t bucket : hashes[i]) {\n      result[bucket].push_back(i);\n    }\n  }"),
 ('cuckoo_hasher.h', "  std::vector<int64_t> buckets(num_buckets, -1);\n  std::vector<int> next_hash_function(num_buckets, 0);\n", "  std::vector<int> next_hash_function(num_buckets, 0);\n  std::vector<int64_t> buckets(num_buckets);\n  std::fill(buckets.begin(), buckets.end(), int64_t{-1});\n"),
 ('all_but_one_random_ot.h', "#pragma omp parallel for schedule(guided)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] == 0) {\n      continue;\n    }\n    // Create tree from random seed.\n    GGMTree::Block seed;\n    RAND_bytes(reinterpret_cast<unsigned char *>(&seed), sizeof(seed));\n    status_or_trees[i] = GGMTree::Create(num_leaves[i], seed, keys);\n  }", "  std::vector<GGMTree::Block> seeds(num_trees);\n  if (num_trees > 0) {\n    RAND_bytes(reinterpret_cast<unsigned char *>(seeds.data()),\n               num_trees * sizeof(GGMTree::Block));\n  }\n#pragma omp parallel for schedule(dynamic)\n  for (int i = 0; i < num_trees; i++) {\n    if (num_leaves[i] != 0) {\n      status_or_trees[i] = GGMTree::Create(num_leaves[i], seeds[i], keys);\n    }\n  }"),
 ('all_but_one_random_ot.h', "  for (int i = 0; i < arity; i++) {\n    RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), GGMTree::kBlockSize);\n  }", "  RAND_bytes(reinterpret_cast<uint8_t *>(keys.data()),\n             arity * GGMTree::kBlockSize);"),
 ('all_but_one_random_ot.cpp', "    uint64_t index_bits = static_cast<uint64_t>(indices[i]);\n    for (int j = 0; j < num_levels - 1; ++j) {\n      choices[offsets[i] + num_levels - 2 - j] = (~index_bits >> j) & 1;\n    }", "    int64_t position = indices[i];\n    for (int j = num_levels - 2; j >= 0; --j) {\n      choices[offsets[i] + j] = position % 2 == 0;\n      position /= 2;\n    }"),
 ('spfss_known_index.h', "        sums_data[j] += outputs[j][i];\n        outputs[j][i] = -outputs[j][i];\n      }", "        sums_data[j] += outputs[j][i];\n      }\n      for (T &element : outputs[j]) {\n        element = -element;\n      }"),
 ('mpfss_known_indices.h', "  for (int i = 0; i < num_buckets; i++) {\n    if (hashed_inputs[i] != -1) {\n      y_permuted[i] = y[hashed_inputs[i]];\n    }\n  }\n\n  // Mask y_permuted with u and send it over. Our share of xy is v.\n  y_permuted += Eigen::Map<const Vector<T>>(u.data(), u.size());", "  for (int i = 0; i < num_buckets; i++) {\n    y_permuted[i] = u[i];\n    if (hashed_inputs[i] >= 0) {\n      y_permuted[i] += y[hashed_inputs[i]];\n    }\n  }\n"),
 ('mpfss_known_indices.h', "            std::lower_bound(buckets_[i].begin(), buckets_[i].end(),\n                             indices[hashed_inputs[i]]) -\n            buckets_[i].begin();", "            std::find(buckets_[i].begin(), buckets_[i].end(),\n                      indices[hashed_inputs[i]]) -\n            buckets_[i].begin();"),
 ('scalar_vector_gilboa_product.h', "  boost::container::vector<bool> x_bits = gilboa_internal::GetBits(x);\n  boost::container::vector<bool> choices(n);\n  for (int64_t i = 0; i < y_len; i += stride) {\n    for (int j = 0; j < bit_width; j++) {\n      choices[(i / stride) * bit_width + j] = x_bits[j];\n    }\n  }", "  boost::container::vector<bool> choices(n);\n  for (int64_t i = 0; i < n; i++) {\n    choices[i] = ScalarHelper<T>::GetBit(x, static_cast<int>(i % bit_width));\n  }"),
 ('distributed_vector_ole.h', "  absl::flat_hash_set<int64_t> indices_set;\n  std::uniform_int_distribution<int64_t> dist(0, output_size - 1);\n  while (static_cast<int>(indices_set.size()) < num_noise_indices_) {\n    indices_set.insert(dist(rng));\n  }\n  std::vector<int64_t> indices(indices_set.begin(), indices_set.end());\n", "  std::vector<int64_t> indices;\n  absl::flat_hash_set<int64_t> indices_set;\n  std::uniform_int_distribution<int64_t> dist(0, output_size - 1);\n  while (static_cast<int>(indices.size()) < num_noise_indices_) {\n    const int64_t index = dist(rng);\n    if (indices_set.insert(index).second) {\n      indices.push_back(index);\n    }\n  }\n"),
 ('distributed_vector_ole.h', "  // Spread y into mu.\n  Vector<T> mu(output_size);\n  std::fill(mu.data(), mu.data() + output_size, T(0));\n  for (int i = 0; i < num_noise_indices_; i++) {\n    mu[indices[i]] = y[i];\n  }\n", "  // Add y at the noise positions.\n  Vector<T> u = sender_vole_seed_.u * code_generator_;\n  for (int i = 0; i < num_noise_indices_; i++) {\n    u[indices[i]] += y[i];\n  }\n"),
 ('distributed_vector_ole.h', "  sender_cached_.u.tail(output_size) =\n      sender_vole_seed_.u * code_generator_ + mu;", "  sender_cached_.u.tail(output_size) = u;"),
]
# Renamed and regrouped private members; other order of independent statements.
R['b'] = [
 ('distributed_vector_ole.h', "ALL:sender_vole_seed_", "lpn_seed_sender_"),
 ('distributed_vector_ole.h', "ALL:receiver_vole_seed_", "lpn_seed_receiver_"),
 ('distributed_vector_ole.h', "ALL:sender_mpfss_seed_", "noise_seed_sender_"),
 ('distributed_vector_ole.h', "ALL:receiver_mpfss_seed_", "noise_seed_receiver_"),
 ('distributed_vector_ole.h', "ALL:sender_cached_", "left_over_sender_"),
 ('distributed_vector_ole.h', "ALL:receiver_cached_", "left_over_receiver_"),
 ('distributed_vector_ole.h', "ALL:ExpandSender", "GrowSender"),
 ('distributed_vector_ole.h', "ALL:PrecomputeCommon", "SetUpCode"),
 ('distributed_vector_ole.h', "ALL:code_generator_", "generator_"),
 ('aes_uniform_bit_generator.h', "ALL:counter_", "calls_made_"),
 ('aes_uniform_bit_generator.cpp', "ALL:counter_", "calls_made_"),
 ('aes_uniform_bit_generator.h', "ALL:nonce_", "next_block_"),
 ('aes_uniform_bit_generator.cpp', "ALL:nonce_", "next_block_"),
 ('ggm_tree.h', "ALL:levels_", "nodes_"),
 ('ggm_tree.cpp', "ALL:levels_", "nodes_"),
 ('cuckoo_hasher.h', "ALL:HashToBucket", "BucketOf"),
 ('cuckoo_hasher.cpp', "ALL:HashToBucket", "BucketOf"),
 ('cuckoo_hasher.h', "ALL:HashToUint128", "Digest"),
 ('cuckoo_hasher.cpp', "ALL:HashToUint128", "Digest"),
 ('mpfss_known_indices.h', "ALL:cached_output_size_", "size_of_buckets_"),
 ('mpfss_known_indices.cpp', "ALL:cached_output_size_", "size_of_buckets_"),
 ('mpfss_known_indices.h', "ALL:hasher_", "bucket_hasher_"),
 ('mpfss_known_indices.cpp', "ALL:hasher_", "bucket_hasher_"),
 ('all_but_one_random_ot.h', "ALL:ot_extension_", "ots_"),
 ('all_but_one_random_ot.cpp', "ALL:ot_extension_", "ots_"),
 ('all_but_one_random_ot.h', "ALL:SendTrees", "OfferTrees"),
 ('all_but_one_random_ot.cpp', "ALL:ReceiveTrees", "FetchTrees"),
 ('all_but_one_random_ot.h', "ALL:ReceiveTrees", "FetchTrees"),
 ('internal/gilboa_internal.h', "ALL:RunOTSenderCorrelated", "SendCorrelated"),
 ('scalar_vector_gilboa_product.h', "ALL:RunOTSenderCorrelated", "SendCorrelated"),
 ('scalar_vector_gilboa_product.h', "ALL:UseCorrelatedOT", "CanCorrelate"),
 ('internal/all_but_one_random_ot_internal.h', "ALL:UnpackLastLevel", "CopyLeaves"),
 ('all_but_one_random_ot.h', "ALL:UnpackLastLevel", "CopyLeaves"),
 ('gf128.h', "ALL:value_", "words_"), ('gf128.cpp', "ALL:value_", "words_"),
 ('gf128.h', "ALL:words_low", "value_low"), ('gf128.h', "ALL:words_high", "value_high"), ('gf128.cpp', "ALL:words_low", "value_low"), ('gf128.cpp', "ALL:words_high", "value_high"),
 ('distributed_vector_ole.h', "  Vector<T> y(num_noise_indices_), v0(output_size);\n  ScalarHelper<T>::Randomize(absl::MakeSpan(y));\n", "  Vector<T> v0(output_size), y(num_noise_indices_);\n  ScalarHelper<T>::Randomize(absl::MakeSpan(y));\n"),
 ('distributed_vector_ole.h', "  ScalarHelper<T>::Randomize(absl::MakeSpan(left_over_sender_.u));\n  ScalarHelper<T>::Randomize(absl::MakeSpan(left_over_sender_.v));\n", "  ScalarHelper<T>::Randomize(absl::MakeSpan(left_over_sender_.v));\n  ScalarHelper<T>::Randomize(absl::MakeSpan(left_over_sender_.u));\n"),
]
# Other algorithms with the same guarantees.
R['c'] = [
 # cuckoo: other eviction order, more tries
 ('cuckoo_hasher.h', "kMinNumTries = 128", "kMinNumTries = 512"),
 # code generator from triplets
 ('distributed_vector_ole.h', "  code_generator_.reserve(Eigen::VectorXi::Constant(\n      output_size, VOLEParameters::kCodeGeneratorNonzeros));\n", ""),
 ('distributed_vector_ole.h', "      code_generator_.coeffRef(row, col) = std::move(\n          random_elements[col * VOLEParameters::kCodeGeneratorNonzeros + i]);\n    }\n  }\n  code_generator_.makeCompressed();", "      triplets.emplace_back(\n          row, col,\n          random_elements[col * VOLEParameters::kCodeGeneratorNonzeros + i]);\n    }\n  }\n  code_generator_.setFromTriplets(triplets.begin(), triplets.end());"),
 # cache handed out from the front instead of the tail
 ('distributed_vector_ole.h', "  result.u = sender_cached_.u.tail(size);\n  result.v = sender_cached_.v.tail(size);\n  sender_cached_.u.conservativeResize(sender_cached_.u.size() - size);\n  sender_cached_.v.conservativeResize(sender_cached_.v.size() - size);", "  const int64_t rest = sender_cached_.u.size() - size;\n  result.u = sender_cached_.u.head(size);\n  result.v = sender_cached_.v.head(size);\n  sender_cached_.u = Vector<T>(sender_cached_.u.tail(rest));\n  sender_cached_.v = Vector<T>(sender_cached_.v.tail(rest));"),
 ('distributed_vector_ole.h', "  result.w = receiver_cached_.w.tail(size);\n  result.delta = receiver_cached_.delta;\n  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() - size);", "  const int64_t rest = receiver_cached_.w.size() - size;\n  result.w = receiver_cached_.w.head(size);\n  result.delta = receiver_cached_.delta;\n  receiver_cached_.w = Vector<T>(receiver_cached_.w.tail(rest));"),
 # run loop: expand first, then take everything at once
 ('distributed_vector_ole.h', "  SenderResult result;\n  result.u.resize(size);\n  result.v.resize(size);\n  int64_t num_copied = 0;\n  while (num_copied < size) {", "  while (sender_cached_.u.size() < size) {\n    RETURN_IF_ERROR(GrowSenderOnce());\n  }\n  return GetSenderCached(size);\n#if 0\n  while (num_copied < size) {"),
 ('distributed_vector_ole.h', "      // Do another expansion if necessary.\n      RETURN_IF_ERROR(ExpandSender());\n    }\n  }\n\n  return result;\n", "#endif\n"),
 ('distributed_vector_ole.h', "RETURN_IF_ERROR(GrowSenderOnce());", "RETURN_IF_ERROR(ExpandSenderFront());"),
]
del R['c'][-3:]
R['c'] += [
 # bucket hashing by multiplication instead of remainder is another function, equally good
 ('cuckoo_hasher.cpp', "  return absl::Uint128Low64(hash % num_buckets);", "  return absl::Uint128Low64(absl::Uint128Low64(hash) % num_buckets);"),
 # SPFSS without OpenMP
 ('spfss_known_index.h', "#pragma omp parallel\n  {\n    context.restore();\n#pragma omp for schedule(guided)\n    for (int j = 0; j < len; j++) {\n      if (outputs", "  {\n    for (int j = 0; j < len; j++) {\n      if (outputs"),
 # keys chosen once per instance would be fine as well; send them before the transfers' flush
 ('all_but_one_random_ot.h', "  channel_adapter_->send_data(keys.data(), sizeof(GGMTree::Block) * arity);\n  channel_adapter_->flush();", "  channel_adapter_->flush();\n  for (const auto &key : keys) {\n    channel_adapter_->send_data(&key, sizeof(key));\n  }\n  channel_adapter_->flush();"),
 ('scalar_vector_gilboa_product.h', "    int packed_hash_bits = ScalarHelper<T>::SizeOf() * 8;", "    const int packed_hash_bits = 8 * ScalarHelper<T>::SizeOf();\n    if (size == 0) return true;"),
 ('mpfss_known_indices.cpp', "    std::vector<int64_t> all_indices(output_size);\n    std::iota(all_indices.begin(), all_indices.end(), 0);\n    ASSIGN_OR_RETURN(int64_t num_buckets,\n                     hasher_->GetOptimalNumberOfBuckets(num_indices));", "    ASSIGN_OR_RETURN(int64_t num_buckets,\n                     hasher_->GetOptimalNumberOfBuckets(num_indices));\n    std::vector<int64_t> all_indices;\n    all_indices.reserve(std::max<int64_t>(output_size, 0));\n    for (int64_t i = 0; i < output_size; i++) all_indices.push_back(i);"),
 ('aes_uniform_bit_generator.cpp', "  // Each AES call fills two elements, so the buffer must have even size.\n  buffer_size += buffer_size % 2;", "  // Each AES call fills two elements, so the buffer must have even size.\n  if (buffer_size & 1) ++buffer_size;"),
 ('ggm_tree.cpp', "  int num_levels =\n      static_cast<int>(1 + std::ceil(std::log(num_leaves) / std::log(arity)));\n", "  int num_levels = 1;\n  for (int64_t size = num_leaves; size > 1; size = (size + arity - 1) / arity) {\n    num_levels++;\n  }\n"),
]
