#!/bin/bash
# plant/try.sh ID...: build + stable tests + demo with and without the patch, in a scratch copy.
for id in "$@"; do (
  T=/tmp/try-$id; rm -rf -- "/tmp/try-$id"; cp -a /repo "$T"; cd "$T"
  cp -r /verif/seeded/$id "/tmp/try-$id-d"
  bash /tmp/try-$id-d/demo.sh >/tmp/try-$id.clean 2>&1; a=$?
  git apply /verif/seeded/$id/patch.diff || echo "$id: patch does not apply"
  g++ -std=c++17 -O2 -fopenmp -DUSE_ASM -w -I. -I/usr/include/eigen3 distributed_vector_ole/gf128.cpp distributed_vector_ole/internal/ntl_helpers.cpp distributed_vector_ole/gf128_test.cpp -lgtest -lgtest_main -I/usr/include/android /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lntl -lgmp -labsl_strings -labsl_int128 -labsl_hash -labsl_city -labsl_low_level_hash -lpthread -o /tmp/try-$id.t 2>/tmp/try-$id.b && /tmp/try-$id.t >/dev/null; t=$?
  bash /tmp/try-$id-d/demo.sh >/tmp/try-$id.bad 2>&1; b=$?
  echo "$id: demo clean=$a tests=$t demo patched=$b $(tail -1 /tmp/try-$id.bad)"
  rm -rf -- "/tmp/try-$id" "/tmp/try-$id-d" "/tmp/try-$id.t"
) done
