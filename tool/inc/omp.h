#pragma once
// Declarations only: lets the clang front end parse <omp.h> users.
extern "C" {
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
int omp_get_num_procs(void); void omp_set_num_threads(int); int omp_in_parallel(void);
void omp_set_dynamic(int); void omp_set_nested(int); double omp_get_wtime(void);
}
