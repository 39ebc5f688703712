#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py: plant/gen.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from bugs import BUGS
ALL = "aes_uniform_bit_generator all_but_one_random_ot cuckoo_hasher distributed_vector_ole gf128 ggm_tree mpfss_known_indices scalar_vector_gilboa_product spfss_known_index internal/ntl_helpers".split()
DEMO = r'''#!/bin/bash
# Compiles demo.cpp with the sources of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -r -- "$T"' EXIT
S=distributed_vector_ole
C=/usr/lib/x86_64-linux-gnu/android
F="-std=c++17 -O1 -fopenmp @FLAGS@ -w -I$D -I/usr/include/android -I$D/stubs -I. -I/usr/include/eigen3"
for s in $D/demo.cpp @SRCS@; do
  g++ $F -c $s -o $T/$(basename $s .cpp).o &
done
for j in $(jobs -p); do wait $j || exit 8; done
g++ -fopenmp $T/*.o -o $T/demo $C/libcrypto.so -Wl,-rpath,$C -lntl -lgmp -lboost_serialization -labsl_hash -labsl_raw_hash_set -labsl_strings -labsl_int128 -labsl_city -labsl_low_level_hash -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base -labsl_hashtablez_sampler -labsl_strings_internal -lpthread || exit 8
cd "$T" && timeout 200 ./demo
'''
SHIMS = ["verif_net.h", "emp-ot/emp-ot.h", "emp-tool/emp-tool.h"] + ["mpc_utils/" + f for f in
         ("benchmarker.hpp", "canonical_errors.h", "comm_channel.hpp", "comm_channel_emp_adapter.hpp", "status.h", "status_macros.h", "statusor.h",
          "boost_serialization/abseil.hpp", "boost_serialization/eigen.hpp", "boost_serialization/ntl.hpp")]
want = sys.argv[1:]
for b in BUGS:
    if want and b["id"] not in want:
        continue
    out = os.path.join(VERIF, "seeded", b["id"])
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(tmp, "r", "distributed_vector_ole", f)
        t = open(p).read()
        assert t.count(old) == 1, (b["id"], f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
    open(out + "/patch.diff", "wb").write(d)
    shutil.rmtree(tmp)
    srcs = b.get("srcs", "all")
    srcs = ALL if srcs == "all" else srcs.split()
    open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", b.get("flags", "-DUSE_ASM")).replace("@SRCS@", " ".join("$S/%s.cpp" % s for s in srcs)))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cpp", "w").write(b["demo"].lstrip())
    shutil.copy(HERE + "/two_party.h", out)
    for s in SHIMS:
        os.makedirs(os.path.dirname(out + "/stubs/" + s), exist_ok=True)
        shutil.copy(VERIF + "/shims/" + s, out + "/stubs/" + s)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
