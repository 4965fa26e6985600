// Stand-in for the MKL service header.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int mkl_set_num_threads_local(int) noexcept;
#ifdef __cplusplus
}
#endif
