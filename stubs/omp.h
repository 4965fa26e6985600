#pragma once
#ifdef __cplusplus
extern "C" {
#define OMP_NOTHROW noexcept
#else
#define OMP_NOTHROW
#endif
int omp_get_max_threads(void) OMP_NOTHROW;
void omp_set_num_threads(int) OMP_NOTHROW;
int omp_get_num_threads(void) OMP_NOTHROW;
int omp_get_thread_num(void) OMP_NOTHROW;
int omp_get_num_procs(void) OMP_NOTHROW;
int omp_get_thread_limit(void) OMP_NOTHROW;
int omp_in_parallel(void) OMP_NOTHROW;
int omp_get_level(void) OMP_NOTHROW;
int omp_get_active_level(void) OMP_NOTHROW;
int omp_get_dynamic(void) OMP_NOTHROW;
void omp_set_dynamic(int) OMP_NOTHROW;
int omp_get_max_active_levels(void) OMP_NOTHROW;
void omp_set_max_active_levels(int) OMP_NOTHROW;
#ifdef __cplusplus
}
#endif
