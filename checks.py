"""What each check builds and runs."""

GF_RULE = ("enumerated products of all 128x128 monomial pairs and unary operations on zero, monomials and complements; "
           "generated operand pairs (boundary patterns, sparse, dense, half-empty words), unaligned operands and "
           "register programs of up to 40 operations, also on several threads at a time; non-trivial: a reduction by the modulus is needed / both operands "
           "exceed 1 / the program multiplies at least twice")

CHECKS = {
    "C01": {
        "oracle": "an independent bit-serial GF(2^128) reference",
        "rule": GF_RULE,
        "runs": [
            {"name": "asm", "bin": "c01", "srcs": ["c01_gf128.cc"]},
            {"name": "portable", "bin": "c01", "variant": "portable", "srcs": ["c01_gf128.cc"]},
            {"name": "asan", "bin": "c01", "variant": "asan", "srcs": ["c01_gf128.cc"]},
            {"name": "fuzz", "bin": "c01", "variant": "fuzz", "srcs": ["c01_gf128.cc"], "confirm": "asm",
             "fuzz": {"gf128_register_machine": 30000, "gf128_pairs": 60000}},
        ],
        "assumptions": ["the CPU's PCLMULQDQ instruction behaves as documented"],
    },
    "C02": {
        "oracle": "an independent description of the byte layout and a GF(2^128) reference",
        "rule": "generated 128-bit patterns through every constructor and accessor, archives of 0-40 elements, hash-set histories, "
                "random-element series under controlled random sources; non-trivial: both words non-zero / at least one element / "
                "repeated and distinct insertions / every random series",
        "runs": [
            {"name": "main", "bin": "c02", "srcs": ["c02_gf128_repr.cc", "rand_tape.cc"]},
            {"name": "portable", "bin": "c02", "variant": "portable", "srcs": ["c02_gf128_repr.cc", "rand_tape.cc"], "scale": 0.3},
            {"name": "asan", "bin": "c02", "variant": "asan", "srcs": ["c02_gf128_repr.cc", "rand_tape.cc"]},
        ],
        "assumptions": ["statistical bounds: a correct implementation fails a comparison with probability below 1e-12"],
    },
}

CHECKS["C03"] = {
    "oracle": "exact big-integer ring arithmetic and bit-decomposition relations",
    "rule": "values of each scalar type (128-bit patterns, boundaries, neighbours of multiples of the modulus) under generated moduli "
            "(primes, composites, around powers of two, sparse, up to 2^128 resp. 2^60); all values of uint8 and of all moduli up to 300; moduli above 128 bits; several threads with different moduli; "
            "non-trivial: a value above 1 or one that is reduced",
    "runs": [
        {"name": "main", "bin": "c03", "srcs": ["c03_scalars.cc"]},
        {"name": "asan", "bin": "c03", "variant": "asan", "srcs": ["c03_scalars.cc"]},
        {"name": "fuzz", "bin": "c03", "variant": "fuzz", "srcs": ["c03_scalars.cc"], "confirm": "main",
         "fuzz": {"scalar_ZZ_p": 20000, "scalar_zz_p": 20000, "scalar_uint128": 10000}},
    ],
    "assumptions": ["NTL's own arithmetic and conversions are correct"],
}
CHECKS["C04"] = {
    "oracle": "an independent model of NTL contexts, on one and several threads",
    "rule": "histories of 3-40 install / save / restore / query steps for both modular types on 1-4 threads (lockstep, concurrent and in "
            "parallel regions) over pools of related moduli (equal length, equal words, neighbours, above 128 bits); non-trivial: a thread "
            "changes its modulus or a context is restored",
    "runs": [
        {"name": "main", "bin": "c04", "srcs": ["c04_contexts.cc"]},
        {"name": "asan", "bin": "c04", "variant": "asan", "srcs": ["c04_contexts.cc"]},
    ],
    "assumptions": ["NTL's own arithmetic and context switching are correct"],
}
CHECKS["C05"] = {
    "oracle": "the exact rational distance computed with big integers",
    "rule": "moduli of 2 to 300 bits (near divisors of 2^h, powers of two and neighbours, arbitrary), hash lengths 1-128, integer and "
            "fractional security levels concentrated at the decision limit; every modulus up to 256 with every hash length; non-trivial: the "
            "hash range is at least as large as the type and the limit is further away than double precision",
    "runs": [
        {"name": "main", "bin": "c05", "srcs": ["c05_hashable.cc"]},
        {"name": "asan", "bin": "c05", "variant": "asan", "srcs": ["c05_hashable.cc"]},
    ],
    "assumptions": ["cases within 1e-9 bits of the limit (other than exact powers of two) are not judged"],
}
CHECKS["C06"] = {
    "oracle": "distribution tests, buffer guards and a deterministic random source",
    "rule": "ranges of length 0-2000 (some up to 2^17, 2^21 in the thorough tier, ten around 2^31 and 2^32 bytes) at offsets inside guarded arrays, all scalar types and "
            "generated moduli, repeated until every element must have changed; cell counts of 12000 values, of neighbouring pairs and of "
            "consecutive calls; 40 states of the cryptographic source; non-trivial: non-empty range",
    "runs": [
        {"name": "main", "bin": "c06", "srcs": ["c06_randomize.cc", "rand_tape.cc"]},
        {"name": "asan", "bin": "c06", "variant": "asan", "srcs": ["c06_randomize.cc", "rand_tape.cc"]},
        {"name": "huge", "bin": "c06-huge", "background": True, "workers": 2, "srcs": ["c06_randomize.cc", "rand_tape.cc"], "defs": ["VERIF_HUGE"]},
    ],
    "assumptions": ["statistical bounds: a correct implementation fails a comparison with probability below 1e-12",
                    "NTL's generator for modular types is taken as is; only its use is judged"],
}

C07_RULE = ("histories of 1-25 creations, draws (concentrated at buffer boundaries), reseeds, rejected reseeds, copies, assignments and moves "
            "over up to 4 generators with buffer sizes from -5 up to the default, unaligned seeds of 32-71 bytes and counters close to the "
            "32-, 64- and 128-bit wrap-around, and up to several generators on different threads; every value is compared with an independent AES-128; ")
CHECKS["C07"] = {
    "oracle": "an independent AES-128 and a model of every operation history",
    "rule": C07_RULE + "non-trivial: a buffer boundary is crossed, the counter wraps or a reseed happens in mid-buffer",
    "runs": [
        {"name": "main", "bin": "c07", "srcs": ["c07_bitgen.cc"]},
        {"name": "asan", "bin": "c07", "variant": "asan", "srcs": ["c07_bitgen.cc"]},
        {"name": "fuzz", "bin": "c07", "variant": "fuzz", "srcs": ["c07_bitgen.cc"], "confirm": "main", "fuzz": {"bitgen_history": 5000}},
    ],
    "assumptions": [],
}
HOOK = "DISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL"
CHECKS["C08"] = {
    "oracle": "a model of the reseed counter over operation histories",
    "rule": C07_RULE + "reseed interval compiled to 1, 2, 5, 16, 101, 1000, 65536 and 70000 AES calls, buffers up to four times the "
            "interval, draws concentrated at the interval; non-trivial: the interval is reached",
    "runs": [{"name": "i%d" % i, "bin": "c08-%d" % i, "srcs": ["c07_bitgen.cc"], "defs": ["VERIF_INTERVAL=%d" % i, "%s=%d" % (HOOK, i)],
              "repo_defs": ["%s=%d" % (HOOK, i)], "repo_defs_if": "aes_uniform_bit_generator"} for i in (1, 2, 5, 16, 101, 1000, 65536, 70000)] +
            [{"name": "real", "bin": "c08-real", "srcs": ["c07_bitgen.cc"], "defs": ["VERIF_CONST_ONLY"]},
             {"name": "big", "bin": "c08-big", "background": True, "workers": 2, "srcs": ["c08_big.cc"], "defs": ["VERIF_INTERVAL=4294967302", "%s=4294967302" % HOOK],
              "repo_defs": ["%s=4294967302" % HOOK], "repo_defs_if": "aes_uniform_bit_generator"},
             {"name": "asan16", "bin": "c08-16", "variant": "asan", "srcs": ["c07_bitgen.cc"], "defs": ["VERIF_INTERVAL=16", "%s=16" % HOOK],
              "repo_defs": ["%s=16" % HOOK], "repo_defs_if": "aes_uniform_bit_generator"}],
    "assumptions": ["behaviour around the interval does not depend on its length (2^48 cannot be reached; eight small ones are, and one of 2^32+6 with the cipher replaced by the identity)"],
}

CHECKS["C09"] = {
    "oracle": "an independent AES-128 reference tree",
    "rule": "arities 2-300, leaf counts 1-3000 concentrated at and around powers of the arity and incomplete groups, generated seeds and keys "
            "(including equal keys); all 810 shapes up to arity 10 and 90 leaves; larger trees along 300 random paths; up to 8 callers at a time, also inside parallel regions; every node, sum and "
            "out-of-range position is compared with an independent AES-128; non-trivial: more leaves than the arity",
    "runs": [
        {"name": "main", "bin": "c09", "srcs": ["c09_ggm.cc", "rand_tape.cc"]},
        {"name": "asan", "bin": "c09", "variant": "asan", "srcs": ["c09_ggm.cc", "rand_tape.cc"]},
        {"name": "fuzz", "bin": "c09", "variant": "fuzz", "srcs": ["c09_ggm.cc", "rand_tape.cc"], "confirm": "main", "fuzz": {"ggm_expand": 3000, "ggm_bad_create": 3000}},
    ],
}
CHECKS["C10"] = {
    "oracle": "the full reference tree",
    "rule": "shapes as for C09, missing leaf concentrated at both ends, withheld sums replaced by true values, zeros, garbage and the sums of "
            "the other siblings; every leaf of all 315 shapes up to arity 8 and 45 leaves; concurrent callers as for C09; malformed arguments of 11 kinds; non-trivial: more "
            "leaves than the arity, or a malformed argument",
    "runs": [
        {"name": "main", "bin": "c10", "srcs": ["c09_ggm.cc", "rand_tape.cc"], "defs": ["VERIF_PUNCTURED"]},
        {"name": "asan", "bin": "c10", "variant": "asan", "srcs": ["c09_ggm.cc", "rand_tape.cc"], "defs": ["VERIF_PUNCTURED"]},
        {"name": "fuzz", "bin": "c10", "variant": "fuzz", "srcs": ["c09_ggm.cc", "rand_tape.cc"], "defs": ["VERIF_PUNCTURED"], "confirm": "main",
         "fuzz": {"ggm_rebuild": 2000, "ggm_malformed": 5000}},
    ],
}
CHECKS["C11"] = {
    "oracle": "metamorphic relations and contingency tables",
    "rule": "keys, 0-600 inputs (consecutive, random, single-bit neighbours, duplicates; 8 to 128 bits), bucket counts up to 2^62, 1-40 hash "
            "functions, 1-16 threads, one or several callers (also inside parallel regions); the same inputs are hashed again in other order, company, type, instance, security level and thread "
            "count; contingency tables of buckets for inputs, functions and keys; needed hash bits around 128; non-trivial: at least two "
            "inputs and two buckets",
    "runs": [
        {"name": "main", "bin": "c11", "srcs": ["c11_hashing.cc"]},
        {"name": "asan", "bin": "c11", "variant": "asan", "srcs": ["c11_hashing.cc"]},
    ],
    "assumptions": ["statistical bounds: a correct implementation fails a comparison with probability below 1e-12"],
}
CHECKS["C12"] = {
    "oracle": "a maximum-matching reference and the assignment given by the hash functions",
    "rule": "0-300 inputs (30000 in large cases) into tables with load up to 1, 2-12 hash functions, duplicates; success is compared with the "
            "assignment of Hash and with a maximum matching; concurrent callers as for C11; invalid parameters of each kind; non-trivial: at least two inputs",
    "runs": [
        {"name": "main", "bin": "c12", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_CUCKOO"]},
        {"name": "asan", "bin": "c12", "variant": "asan", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_CUCKOO"]},
        {"name": "fuzz", "bin": "c12", "variant": "fuzz", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_CUCKOO"], "confirm": "main",
         "fuzz": {"cuckoo_place": 6000, "cuckoo_rejected": 10000}},
    ],
}
CHECKS["C13"] = {
    "oracle": "monotonicity relations and measured failure rates",
    "rule": "input counts 0 to 2^40 with pairs of security levels 0-80 for monotonicity; millions of placements of 1-1000 (some up to 2^15) "
            "inputs under random keys at levels 3, 5, 8, 10 and 40; non-trivial: at least one input",
    "runs": [
        {"name": "main", "bin": "c13", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_BUCKETS"]},
        {"name": "asan", "bin": "c13", "variant": "asan", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_BUCKETS"]},
    ],
    "assumptions": ["failure rates up to twice 2^-s (plus 7 standard deviations) are accepted at low levels, up to 4 in a million at level 40"],
}

PROTO = ["proto_common.cc", "rand_tape.cc"]
VOLE_SRCS = PROTO + ["vole_params.cc"]
TINY = VOLE_SRCS + ["vole_table_opt.cc", "vole_nonzeros_opt.cc"]


def ops(protocols, kinds=range(8)):
    return [("proto_ops.cc", ["VERIF_SCALAR=%d" % k] + ["VERIF_" + p for p in protocols]) for k in kinds]


PROTO_ASSUME = ["mpc_utils and emp-ot are replaced by stand-ins (shims/): an in-memory channel and the ideal OT functionality",
                "statistical bounds: a correct implementation fails a comparison with probability below 1e-12"]
CHECKS["C14"] = {
    "oracle": "the definition of the functionality, distribution tests and a receiver's-view attack",
    "rule": "histories of 1-4 runs on one pair of instances, each of 0-7 vectors of 0-300 (some up to 9000) elements of any of the eight scalar types "
            "with generated moduli, indices concentrated at both ends, roles and party numbers swapped, 1-16 threads, prior buffer contents; every "
            "length up to 40 with every index; batches of many vectors and single vectors of up to 150000 elements; non-trivial: at least two elements",
    "runs": [
        {"name": "main", "bin": "c14", "srcs": ["c14_abo.cc"] + PROTO + ops(["ABO"])},
        {"name": "asan", "bin": "c14", "variant": "asanp", "srcs": ["c14_abo.cc"] + PROTO + ops(["ABO"])},
    ],
    "assumptions": PROTO_ASSUME,
}
CHECKS["C15"] = {
    "oracle": "the defining sum relation and distribution tests of each share",
    "rule": "histories of 1-4 runs on one pair of instances, batches of 0-7 vectors of 0-300 (some up to 9000) elements of the eight scalar types with "
            "generated moduli, boundary and random share values and indices, all three call variants, swapped roles and party numbers, 1-16 threads, "
            "prior buffer contents; every length up to 40 with every index; batches of many and of long vectors as for C14; non-trivial: a non-zero value in more than one position",
    "runs": [
        {"name": "main", "bin": "c15", "srcs": ["c15_spfss.cc"] + PROTO + ops(["SPFSS"])},
        {"name": "asan", "bin": "c15", "variant": "asanp", "srcs": ["c15_spfss.cc"] + PROTO + ops(["SPFSS"])},
    ],
    "assumptions": PROTO_ASSUME,
}
CHECKS["C16"] = {
    "oracle": "the defining sum relation on a generated correct correlation",
    "rule": "histories of 1-4 runs on one pair of instances with changing sizes (outputs up to 400, some 20000; up to 40, some 800 indices), index sets "
            "of five shapes in any order, eight scalar types, random and degenerate correlations, bucket precomputations for matching and other "
            "sizes; all index sets of outputs up to 6 elements; 14 kinds of invalid arguments; non-trivial: a non-zero product in an output of at "
            "least two elements, or an invalid argument",
    "runs": [
        {"name": "main", "bin": "c16", "srcs": ["c16_mpfss.cc"] + PROTO + ops(["MPFSS"])},
        {"name": "asan", "bin": "c16", "variant": "asanp", "srcs": ["c16_mpfss.cc"] + PROTO + ops(["MPFSS"])},
    ],
    "assumptions": PROTO_ASSUME,
}
CHECKS["C17"] = {
    "oracle": "exact ring products and distribution tests of each share",
    "rule": "histories of 1-6 products on one pair of instances with changing types, moduli (primes, composites, up to 2^128), lengths 0-40 (some 700) and "
            "security levels, boundary values of both factors, both call variants, prior buffer contents; every length up to 40 for each type; every "
            "modulus up to 131; moduli above 16 bytes and bad lengths; lengths of 2^31 transfers and more (up to the request for memory); non-trivial: x > 1 with a non-zero vector, or an invalid argument",
    "runs": [
        {"name": "main", "bin": "c17", "srcs": ["c17_gilboa.cc"] + PROTO + ops(["GILBOA"])},
        {"name": "asan", "bin": "c17", "variant": "asanp", "srcs": ["c17_gilboa.cc"] + PROTO + ops(["GILBOA"])},
    ],
    "assumptions": PROTO_ASSUME,
}
VOLE_KINDS = (0, 1, 2, 3, 4, 5, 7)
CHECKS["C18"] = {
    "oracle": "the defining relation w = u*delta + v and a model of delta",
    "rule": "histories of up to 9 precomputations (explicit or generated delta, batch sizes at the boundaries of every parameter level) and runs (sizes "
            "around the cached amount and multiples of the batch) on up to three instances of different types and moduli, both roles, 1-16 threads; a "
            "five-level miniature parameter table and the real one up to 3 levels (4 in the thorough tier); every batch size up to 400; non-trivial: at "
            "least one element is produced",
    "runs": [
        {"name": "tiny", "bin": "c18t", "srcs": ["c18_vole.cc"] + TINY + ops(["VOLE"], VOLE_KINDS), "defs": ["VERIF_TINY"]},
        {"name": "real", "bin": "c18r", "srcs": ["c18_vole.cc"] + VOLE_SRCS + ops(["VOLE"], VOLE_KINDS)},
        {"name": "asan", "bin": "c18t", "variant": "asanp", "srcs": ["c18_vole.cc"] + TINY + ops(["VOLE"], VOLE_KINDS), "defs": ["VERIF_TINY"]},
    ],
    "assumptions": PROTO_ASSUME + ["NTL::ZZ_p is not covered: the vector OLE does not compile for it"],
}
CHECKS["C19"] = {
    "oracle": "uniqueness of every 120-bit stretch of output and seed, rank and noise decoding over the field, and distribution tests",
    "rule": "histories of up to 8 precomputations and runs on up to two instances and two sessions of the seven scalar types: no stretch of u, v, w, (u,v) "
            "or internal seeds occurs twice, none is in a message; many expansions of one miniature code: rank, positions, number and values of the LPN "
            "noise; batch sizes up to 2^63-1; generated deltas; joint distributions within, between and across expansions; non-trivial: at least two runs, "
            "or a statistical case",
    "runs": [
        {"name": "tiny", "bin": "c19t", "srcs": ["c19_fresh.cc"] + TINY + ops(["VOLE"], VOLE_KINDS), "defs": ["VERIF_TINY"]},
        {"name": "real", "bin": "c19r", "srcs": ["c19_fresh.cc"] + VOLE_SRCS + ops(["VOLE"], VOLE_KINDS)},
    ],
    "assumptions": PROTO_ASSUME + ["the internal seeds are looked at through members of today's names, if they exist"],
}
ALL_OPS = [("proto_ops.cc", ["VERIF_SCALAR=%d" % k] + ["VERIF_" + p for p in ("ABO", "SPFSS", "MPFSS", "GILBOA")] + (["VERIF_VOLE"] if k != 6 else []))
           for k in range(8)]
CHECKS["C20"] = {
    "oracle": "equality of transcripts under fixed randomness, distribution tests of every message, and uniqueness of all transmitted bytes",
    "rule": "histories of 1-3 runs of the protocols executed twice from the same random tapes with one party's index, positions, scalar or vector "
            "changed; message and OT contents by class of the secrets (all zero, all maximal, arbitrary) within, between and across runs; histories of 2-7 "
            "runs (often with repeated inputs) in which no 16 transmitted bytes may recur; every case counts as non-trivial",
    "runs": [
        {"name": "main", "bin": "c20", "srcs": ["c20_secrecy.cc"] + TINY + ALL_OPS, "defs": ["VERIF_TINY"]},
    ],
    "assumptions": PROTO_ASSUME + ["what happens inside the OT extension is outside the repository and not judged"],
}
CHECKS["C21"] = {
    "oracle": "the documented error status, silence on the channel, intact buffers and correct results of the following runs",
    "rule": "histories of 1-6 invalid calls (every documented-invalid argument of every entry point, at either party, while the peer does nothing) mixed with "
            "valid runs on the same instances, eight scalar types; moduli on the edge of what the vector OLE can use; invalid arguments of the local "
            "components, including security levels up to 124 and sizes that need more than 128 hash bits; batches whose total size exceeds 32 bits; lengths that are right in their low 32 bits only; non-trivial: every history contains an invalid call",
    "runs": [
        {"name": "main", "bin": "c21", "srcs": ["c21_invalid.cc"] + TINY + ALL_OPS, "defs": ["VERIF_TINY", "VERIF_NONZEROS=8"]},
        {"name": "asan", "bin": "c21", "variant": "asanp", "srcs": ["c21_invalid.cc"] + TINY + ALL_OPS, "defs": ["VERIF_TINY", "VERIF_NONZEROS=8"]},
        {"name": "tree", "bin": "c09", "srcs": CHECKS["C09"]["runs"][0]["srcs"], "defs": CHECKS["C09"]["runs"][0].get("defs", ()), "only": "ggm_bad_create"},
        {"name": "rebuild", "bin": "c10", "srcs": CHECKS["C10"]["runs"][0]["srcs"], "defs": CHECKS["C10"]["runs"][0].get("defs", ()), "only": "ggm_malformed"},
        {"name": "hashing", "bin": "c11", "srcs": CHECKS["C11"]["runs"][0]["srcs"], "only": "hash_rejected"},
        {"name": "cuckoo", "bin": "c12", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_CUCKOO"], "only": "cuckoo_rejected"},
        {"name": "buckets", "bin": "c13", "srcs": ["c11_hashing.cc"], "defs": ["VERIF_BUCKETS"], "only": "buckets_bad"},
    ],
    "assumptions": PROTO_ASSUME + ["moduli that cannot be used are rejected by the sending party of an OT-based protocol only; its peer, which cannot "
                                   "know, keeps waiting"],
}
CHECKS["C22"] = {
    "oracle": "correctness of every result in every configuration, equality of local results, an empty channel",
    "rule": "histories of 1-5 runs of all protocols (up to two vector-OLE instances) in one or two concurrent sessions with 1-16 threads per party (also "
            "changed between runs), both party numberings, both channel kinds and randomly delayed parties; every combination of 1-8 threads per party, "
            "numbering and channel kind for each protocol; parties and local computations inside (nested) parallel regions; local computations by 1-3 concurrent callers with 1-16 threads; all of it again "
            "with data races reported; non-trivial: anything differs "
            "from one thread, plain channel, undisturbed schedule",
    "runs": [
        {"name": "tiny", "bin": "c22t", "srcs": ["c22_config.cc"] + TINY + ALL_OPS, "defs": ["VERIF_TINY"], "workers": 4},
        {"name": "real", "bin": "c22r", "srcs": ["c22_config.cc"] + VOLE_SRCS + ALL_OPS, "workers": 4},
    ],
    "assumptions": PROTO_ASSUME + ["the number of threads does not change after a vector-OLE instance for a modular type was created"],
}
CHECKS["C23"] = {
    "oracle": "counts of messages, bytes and oblivious transfers against the logarithmic bound and a model of the cache",
    "rule": "histories of 1-3 batched runs with vectors of up to 2^16 (2^18) elements, multi-point sharings of up to 2^16 positions with up to 30 points, and "
            "vector-OLE histories of up to 8 precomputations and runs at the boundaries of cached amounts and parameter levels, miniature and real table; "
            "non-trivial: more than 4000 elements, outputs over 50 times the buckets, or a run served from the cache",
    "runs": [
        {"name": "tiny", "bin": "c23t", "srcs": ["c23_comm.cc"] + TINY + ALL_OPS, "defs": ["VERIF_TINY"]},
        {"name": "real", "bin": "c23r", "srcs": ["c23_comm.cc"] + VOLE_SRCS + ALL_OPS},
    ],
    "assumptions": PROTO_ASSUME + ["the cost of an oblivious transfer itself is outside the repository; their number is counted"],
}


# The same cases with every data race reported. Left out when the code cannot be
# built for it (see check.py).
def race(prop, only, srcs=None, kinds=None, protocols=None, defs=(), scale=1.0):
    base = CHECKS[prop]["runs"][0]
    srcs = srcs or base["srcs"]
    if kinds:
        srcs = [x for x in srcs if isinstance(x, str)] + (
            ops(protocols, kinds) if protocols else [o for i, o in enumerate(ALL_OPS) if i in kinds])
    CHECKS[prop]["runs"].append({"name": "race", "bin": prop.lower() + "r", "variant": "race", "optional": True, "srcs": srcs,
                                 "defs": base.get("defs", ()), "only": only, "scale": scale})


race("C01", "gf128_concurrent", scale=10)
race("C03", "scalar_concurrent", scale=10)
race("C04", "modulus_histories")
race("C07", "bitgen_concurrent", scale=5)
race("C09", "ggm_concurrent", scale=5)
race("C10", "ggm_rebuild_concurrent", scale=5)
race("C11", "hash_concurrent,hash_simple", scale=2)
race("C12", "cuckoo_concurrent", scale=5)
race("C14", "abo_history", kinds=(5, 7), protocols=["ABO"])
race("C15", "spfss_history", kinds=(5, 7), protocols=["SPFSS"])
race("C16", "mpfss_history", kinds=(5, 7), protocols=["MPFSS"])
race("C17", "gilboa_history", kinds=(5, 7), protocols=["GILBOA"])
race("C18", "vole_history", kinds=(5, 7), protocols=["VOLE"])
race("C22", "", kinds=(3, 5, 7))
