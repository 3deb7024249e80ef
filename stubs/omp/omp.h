/* declarations of the OpenMP runtime for clang (the installed clang has no omp.h of its own) */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
double omp_get_wtime(void);
double omp_get_wtick(void);
#ifdef __cplusplus
}
#endif
