From 827ce8009ea96c4c934e08bfadef07827df4d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 01/20] fix: avoid int overflow when normalizing the source
 rank of a distribution with a large offset

---
 src/matrix/distribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..1bba2d0 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,10 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // Note: the number of skipped blocks might not fit an int, therefore it is reduced before the conversion.
+  source_rank_index_ = {
+      static_cast<int>((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+      static_cast<int>((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 7b6b1a92fa2607cc0444d7b25cfadc026070b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 02/20] fix: an empty (local) distribution with an offset has
 no (local) blocks

---
 include/dlaf/matrix/distribution.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..a6c5a80 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,22 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {nr_tiles_.rows() > 0 ? util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
+                                                  tiles_per_block<Coord::Row>())
+                                  : 0,
+            nr_tiles_.cols() > 0 ? util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
+                                                  tiles_per_block<Coord::Col>())
+                                  : 0};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {local_nr_tiles_.rows() > 0 ? util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
+                                                  tiles_per_block<Coord::Row>())
+                                  : 0,
+            local_nr_tiles_.cols() > 0 ? util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
+                                                  tiles_per_block<Coord::Col>())
+                                  : 0};
   }
 
   const GlobalElementSize& block_size() const noexcept {
-- 
2.43.0


From b0a28646430a04ea7f69993ce26a5e466ef03423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 03/20] fix: SubPanelView takes the offset of the distribution
 into account

---
 include/dlaf/matrix/views.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/views.h b/include/dlaf/matrix/views.h
index 7a9e05f..c50b8f1 100644
--- a/include/dlaf/matrix/views.h
+++ b/include/dlaf/matrix/views.h
@@ -126,7 +126,7 @@ struct SubMatrixView : public internal::View {
   }
 
 private:
-  bool has_subtile_;
+  bool has_subtile_ = false;
 };
 
 struct SubPanelView : public internal::View {
@@ -145,15 +145,15 @@ struct SubPanelView : public internal::View {
   /// @pre offset_e.col() + ncols <= dist.tile_size().cols()
   SubPanelView(Distribution dist, GlobalElementIndex offset_e, const SizeType ncols)
       : View(dist, offset_e), cols_(ncols) {
-    i_sub_offset_ = offset_e_.row() % dist_.tile_size().rows();
-    j_sub_offset_ = offset_e_.col() % dist_.tile_size().cols();
+    if (dist.size().isEmpty())
+      return;
+
+    i_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Row>(offset_e_.row());
+    j_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Col>(offset_e_.col());
 
     DLAF_ASSERT(j_sub_offset_ + cols_ <= dist_.tile_size().cols(), j_sub_offset_ + cols_,
                 dist_.tile_size().cols());
 
-    if (dist.size().isEmpty())
-      return;
-
     tile_end_ = LocalTileIndex(dist_.localNrTiles().rows(), tile_begin_.col() + 1);
 
     has_top_tile_ = dist_.rankGlobalTile<Coord::Row>(offset().row()) == dist_.rankIndex().row();
@@ -179,9 +179,9 @@ struct SubPanelView : public internal::View {
 private:
   ///> Maximum width for the panel (it can be less in case there are not enough elements in the matrix)
   SizeType cols_;
-  SizeType i_sub_offset_, j_sub_offset_;
+  SizeType i_sub_offset_ = 0, j_sub_offset_ = 0;
 
-  bool has_top_tile_;
+  bool has_top_tile_ = false;
 };
 
 }
-- 
2.43.0


From 801194615175fb3da5dcf23297bd5d5793c924c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 04/20] fix: reject tiles_per_block that does not divide the
 block size when retiling

---
 include/dlaf/matrix/matrix_base.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix_base.h b/include/dlaf/matrix/matrix_base.h
index b52e64c..d883ce8 100644
--- a/include/dlaf/matrix/matrix_base.h
+++ b/include/dlaf/matrix/matrix_base.h
@@ -44,8 +44,12 @@ public:
     DLAF_ASSERT(distribution.single_tile_per_block(),
                 "distribution should be the distribution of the original Matrix.",
                 distribution.block_size(), distribution.tile_size());
-    DLAF_ASSERT(distribution.block_size() == distribution_.block_size(), distribution.block_size(),
-                distribution_.block_size());
+    DLAF_ASSERT(distribution_.tile_size().rows() * tiles_per_block.rows() ==
+                        distribution_.block_size().rows() &&
+                    distribution_.tile_size().cols() * tiles_per_block.cols() ==
+                        distribution_.block_size().cols(),
+                "the block size should be divisible by tiles_per_block.", distribution_.block_size(),
+                tiles_per_block);
   }
 
   MatrixBase(const MatrixBase& rhs) = default;
-- 
2.43.0


From e997defb7250f31fa54096e0612bba78528dafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 05/20] fix: release the parent pipeline when a sub pipeline is
 overwritten

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From 9f83fabce4dd01756bc6b12b9057fff0a31d121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 06/20] fix: configure the device memory pool with the device
 options

---
 src/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a709ca4..9e8ec96 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -126,9 +126,9 @@ struct Init<Backend::GPU> {
     const int device = 0;
     memory::internal::initializeUmpireDeviceAllocator(
         cfg.umpire_device_memory_pool_initial_block_bytes,
-        cfg.umpire_device_memory_pool_initial_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
-        cfg.umpire_host_memory_pool_coalescing_free_ratio,
-        cfg.umpire_host_memory_pool_coalescing_reallocation_ratio);
+        cfg.umpire_device_memory_pool_next_block_bytes, cfg.umpire_device_memory_pool_alignment_bytes,
+        cfg.umpire_device_memory_pool_coalescing_free_ratio,
+        cfg.umpire_device_memory_pool_coalescing_reallocation_ratio);
 #if PIKA_VERSION_FULL >= 0x001F00  // >= 0.31.0
     initializeGpuPool(device, cfg.num_np_gpu_streams, cfg.num_hp_gpu_streams, cfg.num_gpu_blas_handles,
                       cfg.num_gpu_lapack_handles);
-- 
2.43.0


From b97559bb76aaadb6960a3bd90394f738e1cc920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 07/20] fix: release the MPI_Datatype which is overwritten by a
 move assignment

---
 include/dlaf/communication/type_handler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..ce20724 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -57,8 +57,12 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    if (this != &rhs) {
+      if (static_cast<bool>(*this))
+        DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
+      custom_type_ = rhs.custom_type_;
+      rhs.custom_type_ = MPI_DATATYPE_NULL;
+    }
     return *this;
   }
 
-- 
2.43.0


From 93f809575a851bb4c25c69a0c6130bef131b1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 08/20] fix: check the MPI error codes in grid_ordering

---
 src/c_api/grid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..f173d1a 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -49,7 +49,7 @@ void dlaf_free_all_grids() noexcept {
 
 char grid_ordering(MPI_Comm comm, int nprow, int npcol, int myprow, int mypcol) noexcept {
   int rank;
-  MPI_Comm_rank(comm, &rank);
+  DLAF_MPI_CHECK_ERROR(MPI_Comm_rank(comm, &rank));
 
   bool _row_major = false, _col_major = false;
   bool row_major, col_major;
@@ -61,8 +61,8 @@ char grid_ordering(MPI_Comm comm, int nprow, int npcol, int myprow, int mypcol)
     _col_major = true;
   }
 
-  MPI_Allreduce(&_row_major, &row_major, 1, MPI_C_BOOL, MPI_LAND, comm);
-  MPI_Allreduce(&_col_major, &col_major, 1, MPI_C_BOOL, MPI_LAND, comm);
+  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&_row_major, &row_major, 1, MPI_C_BOOL, MPI_LAND, comm));
+  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&_col_major, &col_major, 1, MPI_C_BOOL, MPI_LAND, comm));
 
   if (!row_major && !col_major) {
     std::cerr << "Grid layout must be row major or column major." << std::endl;
-- 
2.43.0


From a61f8e133530674b58b9ab4c17d873d7fae25bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 09/20] fix: dlaf_create_grid does not return the context of a
 live grid

---
 src/c_api/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index f173d1a..68e14e3 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -30,6 +30,10 @@ int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // blacs starts to number contexts from 0
   int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
 
+  // skip the contexts which are still in use (the grids might be freed in any order)
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
+
   auto dlaf_order = char2order(order);
 
   DLAF_MPI_CHECK_ERROR(MPI_Barrier(comm));
-- 
2.43.0


From 2ef1d5a5c0194a01872cd79afb90f67b2d981b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 10/20] fix: free all the grids when finalizing the C API

---
 src/c_api/init.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c_api/init.cpp b/src/c_api/init.cpp
index 7688763..e98323b 100644
--- a/src/c_api/init.cpp
+++ b/src/c_api/init.cpp
@@ -14,6 +14,7 @@
 #include <pika/runtime.hpp>
 
 #include <dlaf/init.h>
+#include <dlaf_c/grid.h>
 #include <dlaf_c/init.h>
 
 static bool dlaf_initialized = false;
@@ -45,6 +46,9 @@ void dlaf_finalize() noexcept {
     auto pika_stopped = pika::stop();
     DLAF_ASSERT(pika_stopped == 0, pika_stopped);
 
+    // All the tasks completed, therefore the communicators of the grids can be released.
+    dlaf_free_all_grids();
+
     dlaf_initialized = false;
   }
 }
-- 
2.43.0


From 0e31cebcbcb08d2b70fdca78c3dc0d1ddb55090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 11/20] fix: reject a non square hermitian tile in hemm

---
 include/dlaf/util_blas.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/util_blas.h b/include/dlaf/util_blas.h
index e7a7a0b..f84599f 100644
--- a/include/dlaf/util_blas.h
+++ b/include/dlaf/util_blas.h
@@ -74,6 +74,8 @@ hemmSizes getHemmSizes(const blas::Side side, [[maybe_unused]] const dlaf::matri
                        const dlaf::matrix::Tile<T, D>& c) {
   const hemmSizes s{c.size().rows(), c.size().cols()};
 
+  DLAF_ASSERT(square_size(a), a);
+
   if (side == blas::Side::Left) {
     DLAF_ASSERT(s.m == a.size().rows(), c, a);
     DLAF_ASSERT(s.n == b.size().cols(), c, b);
-- 
2.43.0


From 4c54c1f854e29ef7eeb04711d94acb0b942d91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 12/20] fix: check the offset of the distribution of the
 matrix, not of the moved-from argument

---
 include/dlaf/matrix/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..ab726dd 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -459,8 +459,8 @@ public:
 protected:
   Matrix(Distribution distribution, AllocationLayout alloc)
       : internal::MatrixBase{std::move(distribution)}, allocation_layout_(alloc) {
-    DLAF_ASSERT((distribution.offset() == GlobalElementIndex{0, 0}), "not supported",
-                distribution.offset());
+    DLAF_ASSERT((this->distribution().offset() == GlobalElementIndex{0, 0}), "not supported",
+                this->distribution().offset());
   }
 
   struct SubPipelineTag {};
-- 
2.43.0


From 68554623f2bed22a9530d03585219e2a7d968222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 13/20] fix: initialise the allocation layout of a sub-pipeline

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index ab726dd..c770262 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From 3e579b5e905aaa463545b52d60953760fc629daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 14/20] fix: triangular_solver: alpha = 0 gives B = 0 instead
 of NaN (A was scaled by 1 / alpha)

---
 include/dlaf/solver/triangular.h | 43 ++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/dlaf/solver/triangular.h b/include/dlaf/solver/triangular.h
index 50d45b0..a29544b 100644
--- a/include/dlaf/solver/triangular.h
+++ b/include/dlaf/solver/triangular.h
@@ -13,8 +13,13 @@
 
 #include <blas.hh>
 
+#include <pika/execution.hpp>
+
+#include <dlaf/common/range2d.h>
 #include <dlaf/communication/communicator_grid.h>
+#include <dlaf/lapack/tile.h>
 #include <dlaf/matrix/matrix.h>
+#include <dlaf/matrix/matrix_ref.h>
 #include <dlaf/solver/triangular/api.h>
 #include <dlaf/types.h>
 #include <dlaf/util_matrix.h>
@@ -27,6 +32,20 @@ namespace solver::internal {
 
 using matrix::internal::MatrixRef;
 
+/// Sets the local tiles of @p mat_b to zero, i.e. the solution of the triangular system when alpha is zero.
+/// (As in BLAS, mat_a is not referenced in this case.)
+template <Backend backend, Device device, class T>
+void triangular_solver_zero_alpha(MatrixRef<T, device>& mat_b) {
+  using pika::execution::thread_priority;
+  using pika::execution::thread_stacksize;
+  namespace ex = pika::execution::experimental;
+
+  for (const auto& ij : common::iterate_range2d(mat_b.distribution().local_nr_tiles()))
+    ex::start_detached(mat_b.readwrite(ij) |
+                       tile::set0(dlaf::internal::Policy<backend>(thread_priority::normal,
+                                                                  thread_stacksize::nostack)));
+}
+
 template <Backend backend, Device device, class T>
 void triangular_solver(blas::Side side, blas::Uplo uplo, blas::Op op, blas::Diag diag, T alpha,
                        Matrix<const T, device>& mat_a, MatrixRef<T, device>& mat_b) {
@@ -40,6 +59,12 @@ void triangular_solver(blas::Side side, blas::Uplo uplo, blas::Op op, blas::Diag
   if (side == blas::Side::Left) {
     DLAF_ASSERT(matrix::multipliable(mat_a, mat_b, mat_b, op, blas::Op::NoTrans), mat_a, mat_b, op);
 
+    // The algorithms below scale A by 1 / alpha.
+    if (alpha == T(0)) {
+      triangular_solver_zero_alpha<backend>(mat_b);
+      return;
+    }
+
     if (uplo == blas::Uplo::Lower) {
       if (op == blas::Op::NoTrans) {
         solver::internal::Triangular<backend, device, T>::call_LLN(diag, alpha, mat_a, mat_b);
@@ -60,6 +85,12 @@ void triangular_solver(blas::Side side, blas::Uplo uplo, blas::Op op, blas::Diag
   else {
     DLAF_ASSERT(matrix::multipliable(mat_b, mat_a, mat_b, blas::Op::NoTrans, op), mat_a, mat_b, op);
 
+    // The algorithms below scale A by 1 / alpha.
+    if (alpha == T(0)) {
+      triangular_solver_zero_alpha<backend>(mat_b);
+      return;
+    }
+
     if (uplo == blas::Uplo::Lower) {
       if (op == blas::Op::NoTrans) {
         solver::internal::Triangular<backend, device, T>::call_RLN(diag, alpha, mat_a, mat_b);
@@ -93,6 +124,12 @@ void triangular_solver(comm::CommunicatorGrid& grid, blas::Side side, blas::Uplo
   if (side == blas::Side::Left) {
     DLAF_ASSERT(matrix::multipliable(mat_a, mat_b, mat_b, op, blas::Op::NoTrans), mat_a, mat_b, op);
 
+    // The algorithms below scale A by 1 / alpha.
+    if (alpha == T(0)) {
+      triangular_solver_zero_alpha<backend>(mat_b);
+      return;
+    }
+
     if (uplo == blas::Uplo::Lower) {
       if (op == blas::Op::NoTrans) {
         solver::internal::Triangular<backend, device, T>::call_LLN(grid, diag, alpha, mat_a, mat_b);
@@ -113,6 +150,12 @@ void triangular_solver(comm::CommunicatorGrid& grid, blas::Side side, blas::Uplo
   else {
     DLAF_ASSERT(matrix::multipliable(mat_b, mat_a, mat_b, blas::Op::NoTrans, op), mat_a, mat_b, op);
 
+    // The algorithms below scale A by 1 / alpha.
+    if (alpha == T(0)) {
+      triangular_solver_zero_alpha<backend>(mat_b);
+      return;
+    }
+
     if (uplo == blas::Uplo::Lower) {
       if (op == blas::Op::NoTrans) {
         solver::internal::Triangular<backend, device, T>::call_RLN(grid, diag, alpha, mat_a, mat_b);
-- 
2.43.0


From adadb1d2649704f8eb1b8d901be18fc5130c4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:42 +0000
Subject: [PATCH 15/20] fix: copy between distributions uses different tags for
 different tiles of a pair of ranks

---
 include/dlaf/matrix/copy.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..ecf810b 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -174,16 +174,23 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
   const comm::Index2D rank = grid.rank();
   auto mpi_chain = grid.full_communicator_pipeline();
 
-  auto tag = [dist = src_retiled.distribution()](GlobalTileIndex ij) -> comm::IndexT_MPI {
+  auto tag = [dist = src_retiled.distribution(),
+              scale_factor_src](GlobalTileIndex ij) -> comm::IndexT_MPI {
     // Note:
     // Source distribution is used as reference for both sending and receiving side.
     // The tag is computed as a function of local tile index, in order to keep its value as small as
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
-    // local tile index is computed using a rank-independent ld.
+    // local tile index is computed using a rank-independent ld. Each source block contains
+    // scale_factor_src tiles, and different tiles of the same source rank get different tags.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const SizeType tiles_rows = scale_factor_src.rows();
+    const SizeType tiles_cols = scale_factor_src.cols();
+    const LocalTileIndex source_ij_lc{
+        ij.row() / (tiles_rows * size.rows()) * tiles_rows + ij.row() % tiles_rows,
+        ij.col() / (tiles_cols * size.cols()) * tiles_cols + ij.col() % tiles_cols};
+    const SizeType ld =
+        dlaf::util::ceilDiv(dist.nrTiles().rows(), tiles_rows * to_SizeType(size.rows())) * tiles_rows;
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From 50f384d7a7f652134d6ef0c75fb4277e4caa90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:42 +0000
Subject: [PATCH 16/20] fix: a panel range set by tile no longer keeps the
 offset of an earlier range set by element

---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..8e2a5be 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -325,6 +326,7 @@ protected:
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     end_ = end_idx.get(coord);
     end_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(end_);
-- 
2.43.0


From 956f53c61350900d821291d4c414a4d5821414ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:37 +0000
Subject: [PATCH 17/20] fix: run the copy of taus into the T factor in a
 single-threaded BLAS scope

---
 include/dlaf/factorization/qr/t_factor_impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/factorization/qr/t_factor_impl.h b/include/dlaf/factorization/qr/t_factor_impl.h
index 069a095..eccb84f 100644
--- a/include/dlaf/factorization/qr/t_factor_impl.h
+++ b/include/dlaf/factorization/qr/t_factor_impl.h
@@ -136,8 +136,12 @@ struct Helpers<Backend::MC, Device::CPU, T> {
                                   .subTileReference({{0, 0}, tile_t.size()});
 
                           tile::internal::set0<T>(ws_worker);
-                          lapack::lacpy(blas::Uplo::General, 1, k, taus.get().ptr(), 1, ws_worker.ptr(),
-                                        ws_worker.ld() + 1);
+                          {
+                            // Note: the scope must not be alive while waiting on the barrier
+                            common::internal::SingleThreadedBlasScope single;
+                            lapack::lacpy(blas::Uplo::General, 1, k, taus.get().ptr(), 1,
+                                          ws_worker.ptr(), ws_worker.ld() + 1);
+                          }
 
                           // make it work on worker_id section of tiles
                           for (std::size_t index = begin; index < end; ++index) {
-- 
2.43.0


From 3b82549d694f479092e7d212dde4fb28efa2bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 18/20] fix: report failures of stedc and laed4 instead of
 dropping their status

---
 include/dlaf/eigensolver/tridiag_solver/merge.h | 10 +++++++---
 include/dlaf/lapack/tile.h                      |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..2dc50b7 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -861,7 +861,9 @@ void solveRank1Problem(const SizeType i_begin, const SizeType i_end, KSender&& k
             const SizeType i_col = distr.tileElementFromGlobalElement<Coord::Col>(to_SizeType(i));
             T* delta = evec_tiles[to_sizet(i_tile)].ptr(TileElementIndex(0, i_col));
 
-            lapack::laed4(to_int(k), to_int(i), d_ptr, z_ptr, delta, rho, &eigenval);
+            [[maybe_unused]] const auto info =
+                lapack::laed4(to_int(k), to_int(i), d_ptr, z_ptr, delta, rho, &eigenval);
+            DLAF_ASSERT(info == 0, info, i, k);
           }
 
           // Note: laed4 handles k <= 2 cases differently
@@ -1438,8 +1440,10 @@ void solveRank1ProblemDist(CommSender&& row_comm, CommSender&& col_comm, const S
                      // "locally" deflated, i.e. locally it is valid sort(non-deflated)|sort(deflated)
                      const SizeType js_el = i6[j_el];
                      T& eigenval = eval_ptr[to_sizet(j_el)];
-                     lapack::laed4(to_signed<int64_t>(k), to_signed<int64_t>(js_el), d_ptr, z_ptr,
-                                   delta_ptr, rho, &eigenval);
+                     [[maybe_unused]] const auto info =
+                         lapack::laed4(to_signed<int64_t>(k), to_signed<int64_t>(js_el), d_ptr, z_ptr,
+                                       delta_ptr, rho, &eigenval);
+                     DLAF_ASSERT(info == 0, info, js_el, k);
 
                      // Now laed4 result has to be copied in the right spot
                      const SizeType j_el_tl =
diff --git a/include/dlaf/lapack/tile.h b/include/dlaf/lapack/tile.h
index 4a99620..4e5a84d 100644
--- a/include/dlaf/lapack/tile.h
+++ b/include/dlaf/lapack/tile.h
@@ -474,8 +474,11 @@ void stedc(const Tile<T, Device::CPU>& tridiag, const Tile<T, Device::CPU>& evec
 
   // compz, n, D, E, Z, ldz
   common::internal::SingleThreadedBlasScope single;
-  lapack::stedc(lapack::Job::Vec, evecs.size().rows(), tridiag.ptr(),
-                tridiag.ptr(TileElementIndex(0, 1)), evecs.ptr(), evecs.ld());
+  [[maybe_unused]] auto info =
+      lapack::stedc(lapack::Job::Vec, evecs.size().rows(), tridiag.ptr(),
+                    tridiag.ptr(TileElementIndex(0, 1)), evecs.ptr(), evecs.ld());
+
+  DLAF_ASSERT(info == 0, info);
 }
 
 template <class T>
-- 
2.43.0


From 9f9d56b649d282d2e6e4a309925227bcee3faa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:39 +0000
Subject: [PATCH 19/20] fix: report a band size of zero or one that does not
 divide the block in band_to_tridiagonal

---
 include/dlaf/eigensolver/band_to_tridiag.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/band_to_tridiag.h b/include/dlaf/eigensolver/band_to_tridiag.h
index 87910ec..6c52d22 100644
--- a/include/dlaf/eigensolver/band_to_tridiag.h
+++ b/include/dlaf/eigensolver/band_to_tridiag.h
@@ -77,9 +77,9 @@ TridiagResult<T, Device::CPU> band_to_tridiagonal(blas::Uplo uplo, SizeType band
   DLAF_ASSERT(matrix::square_size(mat_a), mat_a);
   DLAF_ASSERT(matrix::single_tile_per_block(mat_a), mat_a);
   DLAF_ASSERT(matrix::square_block_size(mat_a), mat_a);
-  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
   DLAF_ASSERT(matrix::local_matrix(mat_a), mat_a);
   DLAF_ASSERT(band_size >= 2, band_size);
+  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
 
   switch (uplo) {
     case blas::Uplo::Lower:
@@ -152,6 +152,7 @@ TridiagResult<T, Device::CPU> band_to_tridiagonal(comm::CommunicatorGrid& grid,
   DLAF_ASSERT(matrix::single_tile_per_block(mat_a), mat_a);
   DLAF_ASSERT(matrix::equal_process_grid(mat_a, grid), mat_a, grid);
   DLAF_ASSERT(band_size >= 2, band_size);
+  DLAF_ASSERT(mat_a.blockSize().rows() % band_size == 0, mat_a.blockSize().rows(), band_size);
 
   // If the grid contains only one rank force local implementation.
   if (grid.size() == comm::Size2D(1, 1))
-- 
2.43.0


From 535e12e1c2394ae7eb50c9f1b5121e4a542c1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:02 +0000
Subject: [PATCH 20/20] fix: use a whole tile as the 1D block of
 band_to_tridiagonal when the tile is larger than the configured base

---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..15e907d 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -15,14 +15,14 @@
 
 namespace dlaf::eigensolver::internal {
 
-// Returns max(1, getTuneParameters().eigensolver_min_band / nb * nb).
+// Returns max(1, getTuneParameters().band_to_tridiag_1d_block_size_base / nb) * nb.
 inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   const SizeType nb_base = getTuneParameters().band_to_tridiag_1d_block_size_base;
 
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(1, nb_base / nb) * nb;
 }
 
 }
-- 
2.43.0

