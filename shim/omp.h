/* stand-in for omp.h: OpenMP pragmas are dropped by the extraction (sequential semantics) */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
static inline int omp_get_thread_num(void){return 0;}
static inline int omp_get_num_threads(void){return 1;}
static inline int omp_get_max_threads(void){return 1;}
static inline void omp_set_num_threads(int n){(void)n;}
static inline double omp_get_wtime(void){return 0.0;}
#endif
