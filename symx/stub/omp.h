// serial stand-in for <omp.h> (clang side only; the executor runs one thread)
#pragma once
static inline int omp_get_thread_num(void){ return 0; }
static inline int omp_get_num_threads(void){ return 1; }
static inline int omp_get_max_threads(void){ return 1; }
static inline int omp_get_num_procs(void){ return 1; }
static inline void omp_set_num_threads(int){}
static inline int omp_in_parallel(void){ return 0; }
static inline double omp_get_wtime(void){ return 0; }
