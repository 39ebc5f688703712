set -e
R=${1:-/repo}; O=${2:-/tmp/w/o}; mkdir -p $O
F="-std=c++17 -O2 -fopenmp -DUSE_ASM -I/usr/include/android -I/verif/shims -I$R -I/usr/include/eigen3 -Wno-ignored-attributes -w"
export F R O
cd $R/distributed_vector_ole
ls gf128.cpp aes_uniform_bit_generator.cpp ggm_tree.cpp cuckoo_hasher.cpp all_but_one_random_ot.cpp spfss_known_index.cpp mpfss_known_indices.cpp scalar_vector_gilboa_product.cpp distributed_vector_ole.cpp internal/ntl_helpers.cpp *_test.cpp | xargs -P 10 -I{} sh -c 'g++ $F -c {} -o $O/$(basename {} .cpp).o || echo FAIL {}'
cd $O
LIBS=$(ls *.o | grep -v _test)
for t in *_test.o; do g++ -fopenmp $t $LIBS -o ${t%.o} /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lgtest -lgtest_main -lntl -lgmp -lboost_serialization -labsl_hash -labsl_raw_hash_set -labsl_strings -labsl_int128 -labsl_city -labsl_low_level_hash -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base -labsl_hashtablez_sampler -labsl_strings_internal -lpthread & done; wait
