#pragma once
#include <cstddef>
namespace verif_cfg { void pool(long, long, long, long, long, long); void pool_end(); void gpu_polling(); }
namespace pika::cuda::experimental {
struct cuda_pool {
  cuda_pool(int device, std::size_t np, std::size_t hp, int flags, std::size_t blas, std::size_t lapack) { verif_cfg::pool(device, long(np), long(hp), flags, long(blas), long(lapack)); }
  ~cuda_pool() { verif_cfg::pool_end(); }
};
namespace detail { template <class P> void register_polling(P&&) { verif_cfg::gpu_polling(); } }
}
