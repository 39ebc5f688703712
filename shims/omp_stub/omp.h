// Serial stand-in, only for builds without OpenMP (coverage-guided fuzzing).
#ifndef VERIF_OMP_STUB_H_
#define VERIF_OMP_STUB_H_
inline int omp_get_num_threads() { return 1; }
inline int omp_get_max_threads() { return 1; }
inline int omp_get_thread_num() { return 0; }
inline int omp_get_num_procs() { return 1; }
inline int omp_in_parallel() { return 0; }
inline int omp_get_thread_limit() { return 1; }
inline void omp_set_num_threads(int) {}
inline void omp_set_dynamic(int) {}
inline double omp_get_wtime() { return 0; }
#endif
