#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
D = "distributed_vector_ole/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [f if "/" in f else D + f for f in files],
                    **({"state": state} if state else {}),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook}})

p("C01", "128-bit binary field arithmetic is exact field arithmetic",
  "For every pair of operands, addition, subtraction, negation, multiplication, squaring and inversion of 128-bit binary field elements return exactly the result of the corresponding operation in GF(2)[x]/(x^128+x^7+x^2+x+1); the inverse of zero is zero. This holds for the in-place and the value-returning form of each operation, when both operands are the same object, and in the carry-less-multiplication build as well as the portable build, which therefore agree on every input.",
  ["inputs", "configurations"], "all operand pairs (2^256), both build variants, aliased operands, chained operation sequences",
  "The two unit tests compare three fixed products from a Sage session and one inverse identity in the hardware build only; a reduction that is wrong for a few carry patterns, the portable fallback, aliasing and the other operators are never exercised.",
  ["gf128.h", "gf128.cpp"],
  [("carry-less multiplication followed by two reduction steps", D + "gf128.cpp operator*= (USE_ASM)"),
   ("shift-and-xor multiplication", D + "gf128.cpp operator*= (portable)"),
   ("addition chain for x^(2^128-2)", D + "gf128.cpp inverse")],
  ["return values of the field element operators", "state of the operand objects after in-place operators"])

p("C02", "Field element representations are faithful and lossless",
  "A 128-bit binary field element built from a 64-bit word, two words or a 128-bit integer exposes exactly those bits through every accessor (words in little-endian order, 128-bit integer conversion, textual output, archive round trip), compares equal exactly to elements with the same bits, and equal elements hash equally. The constants zero, one and the generator have the values 0, 1 and x, and a freshly randomised element takes all 128 bits from the random source.",
  ["inputs"], "all 2^128 bit patterns through every constructor/accessor pair",
  "No test covers the accessors, archive format, hashing or printing; values are only ever created from fixed constants.",
  ["gf128.h", "gf128.cpp"],
  [("value_[2], little endian", D + "gf128.h"), ("serialize / AbslHashValue / operator<<", D + "gf128.h, gf128.cpp")],
  ["constructors, as_words, conversions, ==, !=, is_zero, operator<<, boost archives, absl::Hash, randomize"])

p("C03", "Scalar conversions and bit decomposition agree with the ring",
  "For every supported scalar type (unsigned integers of 8 to 128 bits, 128-bit binary field elements, and integers modulo any modulus), converting a 128-bit integer to a scalar reduces it modulo the size of the type (2^width or the current modulus), converting a scalar to a 128-bit integer returns its canonical representative, and the two are inverse to each other on canonical values. The reported byte size is the smallest number of whole bytes that holds every canonical representative, and the reported bits of a value together with the values of single bits recompose exactly that value.",
  ["inputs", "configurations"], "all values of each scalar type, all moduli up to 128 bits (60 bits for single-precision moduli), all bit positions",
  "The tests touch these helpers only indirectly with a handful of fixed moduli; other moduli, values at the modulus boundary and at 64/128-bit word boundaries are not reached.",
  ["internal/scalar_helpers.h", "internal/ntl_helpers.h", "internal/ntl_helpers.cpp"],
  [("ScalarHelper specialisations", D + "internal/scalar_helpers.h")],
  ["ToUint128, FromUint128, SizeOf, GetBit, SetBit"])

p("C04", "Modulus-dependent helpers follow the current modulus on every thread",
  "After any history of installing, saving and restoring moduli, on any thread, every modulus-dependent helper (bit count, byte size, conversions, hash-suitability test) answers for the modulus that is current on the calling thread at the time of the call. A saved context restored on another thread makes exactly the saved modulus current there, without disturbing other threads, and for non-modular types saving and restoring changes nothing.",
  ["histories", "schedules", "inputs"], "sequences of install/save/restore/query operations on several threads over arbitrary moduli (including moduli of equal size and switches between single- and multi-precision)",
  "Tests install one modulus per process phase and never switch back, so a stale cached bit count or a context that is not transferred goes unnoticed.",
  ["internal/ntl_helpers.h", "internal/ntl_helpers.cpp", "internal/scalar_helpers.h"],
  [("thread-local cached bit count", D + "internal/ntl_helpers.cpp NTLNumBitsCached"), ("NTLContext", D + "internal/ntl_helpers.h")],
  ["NTLNumBits, NTLContext, ScalarHelper on NTL types"],
  state=[{"name": "cached modulus / bit count", "meaning": "thread-local memo", "where": D + "internal/ntl_helpers.cpp"}])

p("C05", "The hash-suitability test decides statistical closeness correctly",
  "For every scalar type, modulus, hash length h from 1 to 128 bits and security level s, the test whether h-bit hash values may be mapped to the type answers yes exactly when (2^h mod N) / 2^h is smaller than 2^-s, where N is the number of elements of the type. In particular it never answers yes when reducing a uniform h-bit value would be further than 2^-s from uniform, and it always answers yes for power-of-two sizes of at most h bits.",
  ["inputs", "configurations"], "all moduli (1 bit to more than 128 bits), all hash lengths 1..128, all security levels >= 0",
  "Unit tests use six moduli with default hash length; the answer steers whether biased values are used as masks, which no functional test can notice.",
  ["internal/scalar_helpers.h"],
  [("rem = 2^h mod modulus compared with security level", D + "internal/scalar_helpers.h CanBeHashedInto")],
  ["CanBeHashedInto"])

p("C06", "Randomisation fills exactly the requested elements uniformly",
  "Asking for random scalars overwrites every element of the given range and nothing outside it, for any length including zero, with canonical values of the type that are independent and uniform over the whole type. For integer and binary-field types every element takes its full width from the cryptographic random source.",
  ["inputs", "configurations"], "all scalar types, moduli, range lengths and offsets",
  "Existing tests only use random values as inputs; a short fill, an out-of-range write or a biased value would still give consistent protocol outputs.",
  ["internal/scalar_helpers.h", "gf128.cpp"],
  [("RAND_bytes over the span / NTL random vectors", D + "internal/scalar_helpers.h Randomize")],
  ["Randomize, guard elements around the range, value histograms"])

p("C07", "The bit generator is AES-128 in counter mode, for any buffering",
  "For every seed of at least 32 bytes, the generator outputs the keystream of AES-128 keyed with seed bytes 0-15 over consecutive 128-bit little-endian counters that start at seed bytes 16-31 and wrap around modulo 2^128, each block yielding two 64-bit little-endian outputs in order; bytes beyond 32 are ignored. The output sequence depends only on the seed and the number of draws since the last seeding, not on the buffer size, on where the seed is stored, or on anything before the last reseed; copies continue independently from the same point. Seeds shorter than 32 bytes are rejected with an invalid-argument error.",
  ["inputs", "histories", "configurations"], "all seeds, all buffer sizes (also below 2 and odd), all interleavings of draws, reseeds, rejected reseeds, copies and moves",
  "Tests check one seed with the default buffer for a weak statistical property; buffer boundaries, odd buffers, reseeding mid-buffer and counter wrap-around are not reached.",
  ["aes_uniform_bit_generator.h", "aes_uniform_bit_generator.cpp"],
  [("buffer refill in counter mode", D + "aes_uniform_bit_generator.cpp operator()"), ("seed()", D + "aes_uniform_bit_generator.cpp")],
  ["sequence of values returned by operator()"],
  state=[{"name": "buffer position, nonce, counter", "meaning": "position in the keystream", "where": D + "aes_uniform_bit_generator.h"}])

p("C08", "The bit generator refuses to run past its reseed interval",
  "The generator computes its keystream one buffer at a time (the buffer size rounded up to an even number of values, at least two). Between two seedings it serves every draw as long as the AES calls made since the last seeding, whole buffers at a time, stay within the reseed interval of 2^48 calls, and it never returns a value from a keystream block beyond that interval: once a draw would need a buffer that exceeds it, that draw and every later draw throw an exception until the generator is reseeded. Reseeding restores the full interval; a reseed that is rejected because the seed is too short does not.",
  ["histories", "configurations"], "all sequences of draws and reseeds around the interval, for all buffer sizes and interval lengths",
  "The interval is 2^48 AES calls, so no test can reach it.",
  ["aes_uniform_bit_generator.h", "aes_uniform_bit_generator.cpp"],
  [("counter_ checked against the reseed interval", D + "aes_uniform_bit_generator.cpp operator()")],
  ["operator() returning or throwing"],
  hook="reseed interval overridable at compile time")

p("C09", "Tree expansion follows the keyed PRG construction at every node",
  "For every arity of at least 2, every positive leaf count, every seed and every list of keys, the expanded tree has the seed at its root, has exactly the requested number of leaves in its last level, has in each level exactly as many nodes as are needed to parent the next one, and the i-th child of a node with value p has value AES(key i, p) XOR p. Reading a node or leaf returns that value for every position in range and an invalid-argument error for every other position, and the per-level sibling sums equal the XOR of all nodes with the same sibling index.",
  ["inputs", "configurations"], "all (arity, leaf count, seed, keys), complete and ragged trees, all node positions",
  "Tests fix a few arities and leaf counts and check a handful of nodes; ragged last levels for other arities and the level-count rounding are not covered.",
  ["ggm_tree.h", "ggm_tree.cpp"],
  [("AllocateLevels / ExpandSubtree / ComputePRG / XORBlocks", D + "ggm_tree.cpp")],
  ["GetValueAtNode, GetValueAtLeaf, GetSiblingWiseXOR, level_size, num_levels, num_leaves, keys"])

p("C10", "A punctured tree equals the full tree except on the missing path",
  "A tree rebuilt from sibling-wise sums and a missing leaf index agrees with the original tree on every node that is not on the path from the root to the missing leaf, for every arity, leaf count and index, and whatever values are supplied in the sum entries that belong to the path. The rebuilt tree is independent of the withheld path values, so it does not contain the missing leaf. Inconsistent arguments (index outside the leaf range, sums of the wrong shape, wrong number of keys, arity below 2, non-positive leaf count) are rejected with an invalid-argument error.",
  ["inputs", "configurations"], "all (arity, leaf count, missing index, seed, keys), all garbage values in ignored entries, all malformed argument shapes",
  "Tests rebuild a few small trees with correct sums; ragged trees with the missing leaf in an incomplete sibling group and garbage in ignored entries are not covered.",
  ["ggm_tree.h", "ggm_tree.cpp"],
  [("level-by-level reconstruction along missing_path", D + "ggm_tree.cpp CreateFromSiblingWiseXOR")],
  ["GetValueAtNode of the rebuilt tree, status codes"])

p("C11", "Bucket hashing is a fixed, thread-independent function of key and input",
  "For a given key, every input is assigned one bucket per hash function, all within range, and the assignment depends only on the key, the input value, the bucket count and the hash function index - not on the other inputs, the input's integer type, the thread count or the call history - so two parties with the same key always agree. The assignments of different inputs (using all 128 bits of the input), hash functions and keys behave like independent uniform choices. Simple hashing lists in each bucket exactly the positions of the inputs assigned to it, once per hash function that maps there, in ascending order. Non-positive bucket counts and parameters that would need more than 128 hash bits are rejected with an invalid-argument error.",
  ["inputs", "configurations", "schedules"], "all keys, input lists (duplicates, all 128-bit values), bucket counts up to 2^62, 1..many hash functions, all thread counts",
  "Tests check bucket membership for two types with one key and default threads; order, thread independence and exactness of the inverse mapping for other sizes are not checked.",
  ["cuckoo_hasher.h", "cuckoo_hasher.cpp"],
  [("HashToBucket", D + "cuckoo_hasher.cpp"), ("ordered merge of per-thread buckets", D + "cuckoo_hasher.h HashSimple")],
  ["Hash, HashSimple"])

p("C12", "Cuckoo placement puts every input in one of its own buckets",
  "Whenever cuckoo hashing succeeds, every input position appears in exactly one bucket, that bucket is one of those its hash functions assign to it, and all remaining buckets are marked empty. When it does not succeed it returns an error status and nothing else: invalid-argument for a non-positive bucket count, more inputs than buckets, fewer than two hash functions or more than 128 needed hash bits, and an internal error when the placement search is exhausted - which it always is when no valid placement exists, in finite time.",
  ["inputs", "configurations"], "all keys, input lists (including duplicates and crowded tables up to load 1), bucket counts, 2 or more hash functions",
  "Tests place a few hundred inputs at one load factor with one key; long eviction chains, unsatisfiable instances and duplicate inputs are rare or absent there.",
  ["cuckoo_hasher.h"],
  [("eviction loop with per-bucket hash function counter", D + "cuckoo_hasher.h HashCuckoo")],
  ["HashCuckoo compared with Hash"])

p("C13", "Recommended bucket counts are sufficient for cuckoo hashing",
  "For 2 or 3 hash functions, every positive input count and every security level, the recommended bucket count is at least the input count and positive, it never shrinks when the security level grows, and it is the same for both parties. It is not out of proportion either: at most twice the published estimate that the formulas implement. At the default security level, placing that many distinct inputs into the recommended number of buckets succeeds for essentially every key (all but a few in a million), and at low security levels s it fails for no more than about a 2^-s fraction of keys. A zero input count yields one bucket, a negative one is an invalid-argument error, and other numbers of hash functions are reported as unimplemented.",
  ["inputs", "configurations"], "input counts from 0 to 2^40, security levels 0..80, all keys",
  "Tests call it for two sizes and one key, so a failure rate of one key in a hundred is invisible.",
  ["cuckoo_hasher.h", "cuckoo_hasher.cpp"],
  [("fitted expansion factor formulas", D + "cuckoo_hasher.cpp GetOptimalNumberOfBuckets"), ("number of insertion attempts", D + "cuckoo_hasher.h HashCuckoo")],
  ["GetOptimalNumberOfBuckets, success rate of HashCuckoo over random keys"])

p("C14", "All-but-one random OT: receiver learns all outputs except its index",
  "After every run of (N-1)-out-of-N random OT, alone or batched, over any history of runs on one pair of instances, each receiver output vector equals the corresponding sender vector at every position except the receiver's chosen index. The value at the chosen index is not determined by anything the receiver obtained, the sender's vectors are uniform over the scalar type and fresh in every run and every batch entry, and empty vectors in a batch are skipped without affecting the others.",
  ["inputs", "histories", "configurations"], "all scalar types and moduli that satisfy the security check, vector lengths >= 0, indices, batch shapes, run histories, both party numberings, both channel kinds",
  "Tests run fixed lengths and indices once per instance and compare only equality at the other positions; freshness, hiding of the punctured value, mixed-size batches with empty entries and reuse are not covered.",
  ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "internal/all_but_one_random_ot_internal.h", "ggm_tree.cpp"],
  [("OT choices are the complement of the index bits", D + "all_but_one_random_ot.cpp ReceiveTrees"), ("fresh keys and seeds", D + "all_but_one_random_ot.h SendTrees")],
  ["output spans of both parties, OT functionality inputs/outputs, transcript"])

p("C15", "Single-point sharing: shares add up to the point function",
  "After every run of single-point function secret sharing, alone or batched, over any history on one pair of instances, the sum of both parties' output vectors is zero at every position except the index holder's index, where it equals the sum of the two parties' value shares. This holds for every scalar type, vector length, index and share values, each party's own output being individually pseudorandom; empty vectors in a batch are skipped without affecting the others.",
  ["inputs", "histories", "configurations"], "all scalar types and admissible moduli, lengths >= 0, indices, shares, batch shapes, histories, party numberings, channel kinds",
  "Tests use a few fixed lengths and indices with one fixed share pair per type.",
  ["spfss_known_index.h", "spfss_known_index.cpp", "all_but_one_random_ot.h"],
  [("negated leaves plus masked sum", D + "spfss_known_index.h")],
  ["output spans of both parties"])

p("C16", "Multi-point sharing: shares add up to the scaled multi-point function",
  "Given a correct random vector-OLE correlation of the required size, the two parties' outputs of multi-point function secret sharing add up to scalar times y[i] at position indices[i] and to zero everywhere else, for every set of distinct indices in any order, every output length at least their number, every scalar and every y, and over any history of runs and bucket precomputations with changing sizes on one pair of instances. Repeated, negative or too large indices, empty inputs, mismatched lengths and non-positive counts are rejected with an invalid-argument error.",
  ["inputs", "histories", "configurations"], "all scalar types, output lengths, index sets and orders, values (including zero), size-change histories, party numberings, channel kinds",
  "Tests run each size on a fresh instance with sorted or sequential indices; stale bucket caches, duplicate indices that happen to be placed and boundary indices are not reached.",
  ["mpfss_known_indices.h", "mpfss_known_indices.cpp", "cuckoo_hasher.h", "spfss_known_index.h"],
  [("bucket cache keyed by output size and index count", D + "mpfss_known_indices.cpp UpdateBuckets"), ("masking y with u", D + "mpfss_known_indices.h")],
  ["output spans of both parties, status codes"],
  state=[{"name": "cached buckets", "meaning": "hash buckets for the last (output size, index count)", "where": D + "mpfss_known_indices.h"}])

p("C17", "Scalar-vector products: shares add up to the product",
  "After every run of the scalar-vector product protocol, over any history of runs with changing lengths and types on one pair of instances, the sum of both parties' output vectors equals the scalar times the vector element by element, for every scalar type and modulus of at most 128 bits, every vector length including zero and lengths that do not fill a packed message, and whatever the output buffers contained before. Each party's output on its own is uniformly distributed, independently of both inputs, and a modulus that needs more than 16 bytes is rejected with an invalid-argument error.",
  ["inputs", "histories", "configurations"], "all scalar types, moduli, scalars and vectors (boundary values), lengths, OT randomness, histories, party numberings, channel kinds",
  "Tests use sequential small values, a few lengths and six moduli; carries between packed elements, odd byte widths and the correlated/one-out-of-two switch are barely exercised.",
  ["scalar_vector_gilboa_product.h", "scalar_vector_gilboa_product.cpp", "internal/gilboa_internal.h", "internal/scalar_helpers.h"],
  [("packing of several scalars per OT message", D + "internal/gilboa_internal.h"), ("bit decomposition of the scalar", D + "scalar_vector_gilboa_product.h")],
  ["output spans / returned vectors of both parties"])

p("C18", "Vector-OLE outputs always satisfy w = u*delta + v",
  "For every scalar type, in every matching history of precomputations (with explicit or generated delta and any batch size) and runs of any size on one pair of instances, the sender's vectors u and v and the receiver's vector w have exactly the requested length and satisfy w = u*delta + v element by element, with the delta returned by the receiver. The returned delta is the one passed to the most recent precomputation and stays constant until the next one, and a run without prior precomputation performs it on its own.",
  ["inputs", "histories", "configurations"], "scalar types and moduli, request sizes around every cache, batch and bootstrapping-level boundary, precompute/run histories, parameter sets, party numberings, channel kinds",
  "Tests run three small sizes after one precomputation and one large size; re-precomputation, requests that drain the cache exactly or span several expansions, and tiny or capped batches are not covered.",
  ["distributed_vector_ole.h", "distributed_vector_ole.cpp", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h"],
  [("seed expansion with LPN code and noise shares", D + "distributed_vector_ole.h ExpandSender/ExpandReceiver"), ("cache handling", D + "distributed_vector_ole.h Get*Cached, Run*")],
  ["SenderResult, ReceiverResult"],
  state=[{"name": "cache and seeds", "meaning": "unused correlation elements and the next expansion's seeds", "where": D + "distributed_vector_ole.h"}])

p("C19", "Vector-OLE output is fresh, never reused and pseudorandom",
  "No correlation element is handed out twice and none is reused as an internal seed after it was handed out: over any history of runs, including across precomputations, all returned (u, v) elements are new and behave like independent uniform values of the scalar type, also when looked at jointly with earlier outputs. Generated deltas are uniform and differ between precomputations, and two independent sessions share no output.",
  ["histories", "inputs", "configurations"], "run/precompute histories with sizes around cache boundaries, scalar types, repeated sessions",
  "The relation w = u*delta + v also holds for repeated or constant vectors, so the functional tests cannot see reuse, low entropy or a noise-free expansion.",
  ["distributed_vector_ole.h", "aes_uniform_bit_generator.cpp", "internal/scalar_helpers.h"],
  [("elements are cut off the cache when handed out or used as seeds", D + "distributed_vector_ole.h Get*Cached"), ("LPN noise", D + "distributed_vector_ole.h ExpandSender")],
  ["u, v, w, delta over whole histories: collision counts, linear relations, histograms"])

p("C20", "Messages reveal nothing about the other party's secrets",
  "In every protocol, what a party receives is independent of the other party's secret inputs: with the random source and public parameters fixed, changing the index, the punctured positions or the scalar of one party changes no message it sends outside the oblivious-transfer primitive, and every message that does depend on a secret input is masked so that over the sender's randomness it is uniformly distributed for any choice of inputs. Masks are fresh in every run, so no difference of two messages reveals a secret either.",
  ["inputs", "histories"], "pairs of secret inputs with equal public parameters, all protocols and scalar types, repeated runs",
  "Functional tests compare outputs only; sending a value unmasked or reusing a mask leaves all outputs correct.",
  ["all_but_one_random_ot.h", "all_but_one_random_ot.cpp", "spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "internal/gilboa_internal.h", "distributed_vector_ole.h"],
  [("masking with random OT outputs and pre-computed correlations", D + "spfss_known_index.h, mpfss_known_indices.h, internal/gilboa_internal.h")],
  ["recorded transcript of each party, inputs and outputs of the oblivious-transfer functionality"])

p("C21", "Invalid arguments are rejected before any message is sent",
  "Every documented-invalid argument (null channel, negative security level, mismatched lengths, out-of-range or repeated indices, non-positive sizes or counts, moduli that cannot give the requested statistical security) yields an error status - invalid-argument where documented - without a crash, without writing outside the given buffers and without sending a message the peer does not expect. After such a rejected call the instance still works: the next valid run gives correct results.",
  ["inputs", "histories"], "all entry points, invalid arguments mixed into valid run histories, all scalar types",
  "Tests check a few error cases on throw-away instances and never continue with a valid run.",
  ["ggm_tree.cpp", "cuckoo_hasher.h", "all_but_one_random_ot.h", "spfss_known_index.h", "mpfss_known_indices.h", "scalar_vector_gilboa_product.h", "distributed_vector_ole.h"],
  [("argument checks at the start of each entry point", D + "*.h")],
  ["status codes, message counts on the channel, outputs of following valid runs"])

p("C22", "Results do not depend on threads, party numbering or channel kind",
  "Every protocol gives correct results for any number of worker threads at either party, for either party taking either role with any two different party numbers, over measured and unmeasured channels, and under any relative timing of the two parties, and both parties always finish with an empty channel. Purely local computations (tree expansion, hashing, bit generation) give identical results for every thread count.",
  ["configurations", "schedules"], "thread counts 1..16 chosen independently per party, role/number assignments, channel kinds, perturbed schedules",
  "Tests run one thread configuration, one role assignment and one channel kind per protocol.",
  ["distributed_vector_ole.h", "mpfss_known_indices.h", "spfss_known_index.h", "all_but_one_random_ot.h", "cuckoo_hasher.h", "internal/ntl_helpers.h"],
  [("modulus contexts restored in every parallel region", D + "*.h"), ("lower id sends shared seeds", D + "mpfss_known_indices.cpp, distributed_vector_ole.h")],
  ["outputs of both parties, leftover messages"])

p("C23", "Communication is sublinear and cached runs are silent",
  "The parties never exchange data in proportion to the length of a pseudorandom output: (N-1)-out-of-N random OT, single-point and multi-point sharing and every vector-OLE expansion take at most about log2(N)+1 oblivious transfers per vector or bucket of length N, and otherwise a number of bytes bounded in the number of vectors or buckets. After a precomputation, a vector-OLE run that can be served from elements left over by earlier expansions exchanges no message at all, and any other run performs exactly as many expansions of the precomputed batch size as the missing elements need, discarding none. Preparing hash buckets is local.",
  ["inputs", "histories"], "batches of vectors up to 2^16 elements, precomputation and run histories at the boundaries of the cache and of the parameter levels",
  "Tests never look at the amount of communication: sending the output itself, expanding needlessly or dropping the cache leaves every output correct.",
  ["distributed_vector_ole.h", "mpfss_known_indices.h", "spfss_known_index.h", "all_but_one_random_ot.h", "all_but_one_random_ot.cpp"],
  [("one transfer per tree level", D + "all_but_one_random_ot.h SendTrees"), ("cache of expanded elements", D + "distributed_vector_ole.h Run*, Get*Cached")],
  ["messages, bytes and oblivious transfers of every run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
