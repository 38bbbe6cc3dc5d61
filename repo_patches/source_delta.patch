From 32f0f470ebe17f11628699e52b2442b7f4cd62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 01/32] fix: release the owned MPI datatype on move assignment
 of type_handler

The move assignment overwrote the handle of the target, so the MPI datatype it
owned was never freed (and a self move lost the own one).
---
 include/dlaf/communication/type_handler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..ce20724 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -57,8 +57,12 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
-    custom_type_ = rhs.custom_type_;
-    rhs.custom_type_ = MPI_DATATYPE_NULL;
+    if (this != &rhs) {
+      if (static_cast<bool>(*this))
+        DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
+      custom_type_ = rhs.custom_type_;
+      rhs.custom_type_ = MPI_DATATYPE_NULL;
+    }
     return *this;
   }
 
-- 
2.43.0


From 1d518b4cec19c7a56fc6db013735423b0d95b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 02/32] fix: release the parent pipeline on move assignment
 over a sub pipeline

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From 6666cae3e3658eb9af330b4945d38ff64bda90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 03/32] fix: make tridiagonal solver and permutations
 independent of the allocation layout

The tridiagonal solver and the distributed permutations access column
vectors of values and indices (and the local tridiagonal solver also the
columns of the eigenvectors) contiguously over multiple tiles, starting
from the pointer of the first tile. When the default_allocation_layout
tune parameter is not col-major, or evals or evecs are not col-major, the
tiles are not contiguous and the accesses are out of bounds.
---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 78 +++++++++++--------
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  7 +-
 include/dlaf/permutations/general/impl.h      | 11 ++-
 3 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 6bb8020..1aca022 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <atomic>
 #include <complex>
+#include <optional>
 #include <sstream>
 #include <tuple>
 #include <utility>
@@ -221,22 +222,29 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const matrix::Distribution& distr = evecs.distribution();
   const LocalElementSize vec_size(distr.size().rows(), 1);
   const TileElementSize vec_tile_size(distr.tile_size().rows(), 1);
-  WorkSpace<T, D> ws{Matrix<T, D>(distr),                            // e0
-                     Matrix<T, D>(distr),                            // e1
-                     evecs,                                          // e2
-                     evals,                                          // d1
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z0
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z1
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i2
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5b
-                     Matrix<SizeType, D>(vec_size, vec_tile_size)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size),          // d0
-                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size),    // c
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i1
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i3
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size)};  // i4
+  // Note: the algorithm accesses contiguously over multiple tiles the column vectors (values and indices)
+  // and the columns of e0 and e2. Therefore the workspaces have to be col-major independently of the
+  // default allocation layout, and evecs can be reused only if it is col-major.
+  const matrix::AllocationSpec ws_alloc(matrix::AllocationLayout::ColMajor);
+  std::optional<Matrix<T, D>> e2_ws;
+  if (evecs.allocation_layout() != matrix::AllocationLayout::ColMajor)
+    e2_ws.emplace(distr, ws_alloc);
+  WorkSpace<T, D> ws{Matrix<T, D>(distr, ws_alloc),                            // e0
+                     Matrix<T, D>(distr, ws_alloc),                            // e1
+                     e2_ws ? *e2_ws : evecs,                                   // e2
+                     Matrix<T, D>(vec_size, vec_tile_size, ws_alloc),          // d1
+                     Matrix<T, D>(vec_size, vec_tile_size, ws_alloc),          // z0
+                     Matrix<T, D>(vec_size, vec_tile_size, ws_alloc),          // z1
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, ws_alloc),   // i2
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, ws_alloc),   // i5
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, ws_alloc),   // i5b
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, ws_alloc)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size, ws_alloc),          // d0
+                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size, ws_alloc),    // c
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, ws_alloc),   // i1
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, ws_alloc),   // i3
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, ws_alloc)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1),
@@ -269,7 +277,6 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const SizeType n = evecs.nrTiles().rows();
   copy(ws_hm.i2, ws.i2);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
   applyIndex(0, n, ws_hm.i2, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
@@ -402,22 +409,26 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const matrix::Distribution& dist_evals = evals.distribution();
   const matrix::Distribution dist_local({dist_evecs.local_size().cols(), 1}, dist_evecs.tile_size());
 
-  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs),          // e0
-                     Matrix<T, D>(dist_evecs),          // e1
-                     evecs,                             // e2
-                     evals,                             // d1
-                     Matrix<T, D>(dist_evals),          // z0
-                     Matrix<T, D>(dist_evals),          // z1
-                     Matrix<SizeType, D>(dist_evals),   // i2
-                     Matrix<SizeType, D>(dist_evals),   // i5
-                     Matrix<SizeType, D>(dist_local),   // i5b
-                     Matrix<SizeType, D>(dist_evals)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals),          // d0
-                        Matrix<ColType, Device::CPU>(dist_evals),    // c
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i1
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i3
-                        Matrix<SizeType, Device::CPU>(dist_evals)};  // i4
+  // Note: the algorithm accesses contiguously over multiple tiles the column vectors (values and indices)
+  // and the columns of e0. Therefore the workspaces have to be col-major independently of the default
+  // allocation layout.
+  const matrix::AllocationSpec ws_alloc(matrix::AllocationLayout::ColMajor);
+  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs, ws_alloc),          // e0
+                     Matrix<T, D>(dist_evecs, ws_alloc),          // e1
+                     evecs,                                       // e2
+                     Matrix<T, D>(dist_evals, ws_alloc),          // d1
+                     Matrix<T, D>(dist_evals, ws_alloc),          // z0
+                     Matrix<T, D>(dist_evals, ws_alloc),          // z1
+                     Matrix<SizeType, D>(dist_evals, ws_alloc),   // i2
+                     Matrix<SizeType, D>(dist_evals, ws_alloc),   // i5
+                     Matrix<SizeType, D>(dist_local, ws_alloc),   // i5b
+                     Matrix<SizeType, D>(dist_evals, ws_alloc)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals, ws_alloc),          // d0
+                        Matrix<ColType, Device::CPU>(dist_evals, ws_alloc),    // c
+                        Matrix<SizeType, Device::CPU>(dist_evals, ws_alloc),   // i1
+                        Matrix<SizeType, Device::CPU>(dist_evals, ws_alloc),   // i3
+                        Matrix<SizeType, Device::CPU>(dist_evals, ws_alloc)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2),
@@ -457,7 +468,6 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const SizeType n = evecs.nrTiles().rows();
   copy(ws.e0, ws_hm.e0);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
   applyIndex(0, n, ws_h.i1, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..33b8fb8 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -117,9 +117,9 @@ template <class T, Device D>
 struct WorkSpace {
   Matrix<T, D> e0;
   Matrix<T, D> e1;
-  Matrix<T, D>& e2;  // Reference to reuse evecs
+  Matrix<T, D>& e2;  // Reference to reuse evecs if possible
 
-  Matrix<T, D>& d1;  // Reference to reuse evals
+  Matrix<T, D> d1;
 
   Matrix<T, D> z0;
   Matrix<T, D> z1;
@@ -176,7 +176,8 @@ struct DistWorkSpaceHostMirror {
 
 template <class T>
 Matrix<T, Device::CPU> initMirrorMatrix(Matrix<T, Device::GPU>& mat) {
-  return Matrix<T, Device::CPU>(mat.distribution());
+  return Matrix<T, Device::CPU>(mat.distribution(),
+                                matrix::AllocationSpec(matrix::AllocationLayout::ColMajor));
 }
 
 template <class T>
diff --git a/include/dlaf/permutations/general/impl.h b/include/dlaf/permutations/general/impl.h
index 0653e5c..0a5ee01 100644
--- a/include/dlaf/permutations/general/impl.h
+++ b/include/dlaf/permutations/general/impl.h
@@ -581,7 +581,10 @@ void permuteOnCPU(
     return;
 
   // Create a map from send indices to receive indices (inverse of perms)
-  Matrix<SizeType, D> inverse_perms(perms.distribution());
+  // Note: the indices are accessed contiguously over multiple tiles, therefore they have to be col-major
+  // independently of the default allocation layout.
+  const AllocationSpec index_col_major(AllocationLayout::ColMajor);
+  Matrix<SizeType, D> inverse_perms(perms.distribution(), index_col_major);
   eigensolver::internal::invertIndex(i_begin, i_end, perms, inverse_perms);
 
   // Local distribution used for packing and unpacking
@@ -591,9 +594,9 @@ void permuteOnCPU(
   // communication data
   const SizeType nvecs = sz_loc.get<C>();
   const Distribution index_dist(LocalElementSize(nvecs, 1), TileElementSize(blk.get<C>(), 1));
-  Matrix<SizeType, D> local2global_index(index_dist);
-  Matrix<SizeType, D> packing_index(index_dist);
-  Matrix<SizeType, D> unpacking_index(index_dist);
+  Matrix<SizeType, D> local2global_index(index_dist, index_col_major);
+  Matrix<SizeType, D> packing_index(index_dist, index_col_major);
+  Matrix<SizeType, D> unpacking_index(index_dist, index_col_major);
 
   // Local matrices used for packing data for communication. Both matrices are in column-major order.
   // The particular constructor is used on purpose to guarantee that columns are stored contiguosly,
-- 
2.43.0


From 408fc258cab995915b8a323b16dc78f46ffa53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 04/32] fix: make the deflation tolerance of the tridiagonal
 solver scale with the matrix

The tolerance was a copy of the one in LAPACK's dlaed2, which is called
with a scaled matrix of norm 1. Without scaling the tolerance has an
absolute lower bound of about 1e-15, hence eigenvalues and eigenvectors
of matrices with a small norm were not accurate, e.g. all the couplings
between the tiles were ignored for a matrix of norm 1e-15.
---
 .../dlaf/eigensolver/tridiag_solver/merge.h   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 33b8fb8..ea9536d 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -242,12 +242,15 @@ auto maxVectorElement(const SizeType i_begin, const SizeType i_end, Matrix<const
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_calc_fn));
 }
 
-// The tolerance calculation is the same as the one used in LAPACK's stedc implementation [1].
+// The tolerance calculation is similar to the one used in LAPACK's stedc implementation [1].
+// LAPACK scales the tridiagonal matrix (norm equal to 1) before calling dlaed2. Here the matrix is not
+// scaled, therefore the contribution of the rank-1 update has to include `rho` (as returned by
+// `scaleRho()`), otherwise the tolerance is too large compared to the elements of a matrix with small norm.
 //
 // [1] LAPACK 3.10.0, file dlaed2.f, line 315, variable TOL
-template <class T>
-auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T, Device::CPU>& d,
-                   Matrix<const T, Device::CPU>& z) {
+template <class T, class RhoSender>
+auto calcTolerance(const SizeType i_begin, const SizeType i_end, RhoSender&& rho,
+                   Matrix<const T, Device::CPU>& d, Matrix<const T, Device::CPU>& z) {
   namespace ex = pika::execution::experimental;
   namespace di = dlaf::internal;
   using pika::execution::thread_stacksize;
@@ -255,11 +258,11 @@ auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T,
   auto dmax = maxVectorElement(i_begin, i_end, d);
   auto zmax = maxVectorElement(i_begin, i_end, z);
 
-  auto tol_fn = [](T dmax, T zmax) {
-    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, zmax);
+  auto tol_fn = [](T rho, T dmax, T zmax) {
+    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, rho * zmax);
   };
 
-  return ex::when_all(std::move(dmax), std::move(zmax)) |
+  return ex::when_all(std::forward<RhoSender>(rho), std::move(dmax), std::move(zmax)) |
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_fn)) |
          // TODO: This releases the tiles that are kept in the operation state.
          // This is a temporary fix and needs to be replaced by a different
@@ -1106,7 +1109,7 @@ void mergeSubproblems(const SizeType i_begin, const SizeType i_split, const Size
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
@@ -1849,7 +1852,7 @@ void mergeDistSubproblems(comm::CommunicatorPipeline<comm::CommunicatorType::Ful
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
-- 
2.43.0


From 3d72393ad1c8aebeaa859c4c896e7f624ed6aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 05/32] fix: use a contiguous workspace for the columns in
 distributed Givens rotations

The panel used as workspace has tile layout, i.e. each tile has its own
memory. The columns of the other ranks were stored in the first tile,
and beyond its end when the local column is longer than a tile.
---
 include/dlaf/eigensolver/tridiag_solver/rot.h | 21 +++++--------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/rot.h b/include/dlaf/eigensolver/tridiag_solver/rot.h
index 1f2960d..cc087f5 100644
--- a/include/dlaf/eigensolver/tridiag_solver/rot.h
+++ b/include/dlaf/eigensolver/tridiag_solver/rot.h
@@ -35,7 +35,6 @@
 #include <dlaf/matrix/distribution.h>
 #include <dlaf/matrix/index.h>
 #include <dlaf/matrix/matrix.h>
-#include <dlaf/matrix/panel.h>
 #include <dlaf/memory/memory_view.h>
 #include <dlaf/sender/policy.h>
 #include <dlaf/sender/transform.h>
@@ -266,15 +265,7 @@ void applyGivensRotationsToMatrixColumns(
 
   auto givens_rots_fn = [comm_row_chain = comm_row_chain.sub_pipeline(), tag, dist_sub,
                          mb](std::vector<GivensRotation<T>> rots, std::vector<matrix::Tile<T, D>> tiles,
-                             std::vector<matrix::Tile<T, D>> all_ws) mutable {
-    // Note:
-    // It would have been enough to just get the first tile from the beginning, and it would have
-    // worked anyway (thanks to the fact that panel has its own memorychunk and the first tile would
-    // keep alive the entire chunk, so also the part of other tiles, through its memory view).
-    // Anyway, it is more clean to get them all, and then just here use a single one to access the
-    // full column.
-    matrix::Tile<T, D>& tile_ws = all_ws[0];
-
+                             matrix::Tile<T, D> tile_ws) mutable {
     // Note:
     // The entire algorithm relies on a strong assumption about memory layout of all tiles involved,
     // i.e. both the input tiles selected from the matrix and the tiles for the workspace.
@@ -381,16 +372,14 @@ void applyGivensRotationsToMatrixColumns(
   };
 
   // Note:
-  // Using a combination of shrinked distribution and an offset given to the panel, the workspace
-  // is allocated just for the part strictly needed by the range [i_begin, i_end)
-  const matrix::Distribution dist_ws({range_size_limit, 1}, dist.tile_size(), dist.commGridSize(),
-                                     dist.rankIndex(), dist.sourceRankIndex());
-  matrix::Panel<Coord::Col, T, D> workspace(dist_ws, GlobalTileIndex(i_begin, i_begin));
+  // The workspace stores a full local column, therefore it has to be a single tile to be contiguous.
+  const SizeType range_size_local = dist_sub.localSize().rows();
+  Matrix<T, D> workspace(LocalElementSize(range_size_local, 1), TileElementSize(range_size_local, 1));
 
   const TileCollector tc(i_begin, i_end);
 
   ex::when_all(std::forward<GRSender>(rots_fut), ex::when_all_vector(tc.readwrite(mat)),
-               ex::when_all_vector(select(workspace, workspace.iteratorLocal()))) |
+               workspace.readwrite(LocalTileIndex(0, 0))) |
       di::transformDetach(di::Policy<Backend::MC>(), std::move(givens_rots_fn));
 }
 }
-- 
2.43.0


From 133b0b441f535bdd2b3c9c7bfafbff528bf47d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 06/32] fix: keep the 1D block size of band_to_tridiagonal a
 multiple of the block size

---
 include/dlaf/eigensolver/internal/get_1d_block_size.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/internal/get_1d_block_size.h b/include/dlaf/eigensolver/internal/get_1d_block_size.h
index 83e9da1..1bd2f34 100644
--- a/include/dlaf/eigensolver/internal/get_1d_block_size.h
+++ b/include/dlaf/eigensolver/internal/get_1d_block_size.h
@@ -22,7 +22,7 @@ inline SizeType get1DBlockSize(const SizeType nb) noexcept {
   DLAF_ASSERT(nb >= 1, nb);
   DLAF_ASSERT(nb_base >= 1, nb_base);
 
-  return std::max<SizeType>(1, nb_base / nb * nb);
+  return std::max<SizeType>(1, nb_base / nb) * nb;
 }
 
 }
-- 
2.43.0


From 892a317eba955a44a9712c29f058f37adcd9ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 07/32] fix: create the eigenvectors with the distribution of
 the input matrix

---
 include/dlaf/eigensolver/eigensolver.h     | 2 +-
 include/dlaf/eigensolver/gen_eigensolver.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 969c3cd..687fb30 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -221,7 +221,7 @@ EigensolverResult<T, D> hermitian_eigensolver(comm::CommunicatorGrid& grid, blas
   const SizeType size = mat.size().rows();
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat.distribution());
 
   hermitian_eigensolver<B, D, T>(grid, uplo, mat, eigenvalues, eigenvectors, eigenvalues_index_begin,
                                  eigenvalues_index_end);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index 4d24778..feb31d1 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -156,7 +156,7 @@ EigensolverResult<T, D> hermitian_generalized_eigensolver(comm::CommunicatorGrid
 
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat_a.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat_a.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat_a.distribution());
 
   hermitian_generalized_eigensolver<B, D, T>(grid, uplo, mat_a, mat_b, eigenvalues, eigenvectors,
                                              factorization, eigenvalues_index_begin,
-- 
2.43.0


From e384bbd868ca4d18c3eada141336b65153dcf069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 08/32] fix: use distinct tags for the tiles in the
 redistribution copy

---
 include/dlaf/matrix/copy.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..7bb74da 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -180,10 +180,19 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
     // The tag is computed as a function of local tile index, in order to keep its value as small as
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
     // local tile index is computed using a rank-independent ld.
+    // Note that retiled matrices may have multiple tiles per block.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const LocalTileSize tiles_per_block{dist.block_size().rows() / dist.baseTileSize().rows(),
+                                        dist.block_size().cols() / dist.baseTileSize().cols()};
+    const auto local_tile = [](SizeType tile, SizeType tiles_per_block, SizeType grid_size) {
+      return tile / tiles_per_block / grid_size * tiles_per_block + tile % tiles_per_block;
+    };
+    const LocalTileIndex source_ij_lc{local_tile(ij.row(), tiles_per_block.rows(), size.rows()),
+                                      local_tile(ij.col(), tiles_per_block.cols(), size.cols())};
+    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(),
+                                            tiles_per_block.rows() * to_SizeType(size.rows())) *
+                        tiles_per_block.rows();
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From ede7df19e11f2ee7f040fbb022f3cb1455a22dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 09/32] fix: initialize the allocation layout of sub pipelines

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..411ca58 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From 81a582025619309d2d899d321f1fb4bf2397e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 10/32] fix: reset the start offset of a panel when its range
 changes

---
 include/dlaf/matrix/panel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..4c4071d 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -169,6 +169,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
 
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
@@ -186,8 +187,9 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
 
     const bool has_first_global_tile =
         dist_matrix_.rankGlobalTile<coord>(start_) == dist_matrix_.rankIndex().get(coord);
-    if (has_first_global_tile)
-      start_offset_ = dist_matrix_.tileElementFromGlobalElement<coord>(start.get(coord));
+    start_offset_ = has_first_global_tile
+                        ? dist_matrix_.tileElementFromGlobalElement<coord>(start.get(coord))
+                        : 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -324,6 +326,7 @@ protected:
   void initRange(GlobalTileIndex start_idx, GlobalTileIndex end_idx) {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
+    start_offset_ = 0;
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
 
     end_ = end_idx.get(coord);
-- 
2.43.0


From e97df570ce9bbb3dc8554fd6eb1a16bdf257a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 11/32] fix: panels without local rows have no negative size

---
 include/dlaf/matrix/panel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 4c4071d..81cf894 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -11,6 +11,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <set>
 #include <utility>
 
@@ -361,9 +362,9 @@ protected:
 
     switch (axis) {
       case Coord::Col:
-        return {mat_size - i_tile * mb, nb};
+        return {std::max<SizeType>(0, mat_size - i_tile * mb), nb};
       case Coord::Row:
-        return {mb, mat_size - i_tile * nb};
+        return {mb, std::max<SizeType>(0, mat_size - i_tile * nb)};
       default:
         return DLAF_UNREACHABLE(LocalElementSize);
     }
-- 
2.43.0


From 665eac91bc0a21ceecec85f72292c823f9bf179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 12/32] fix: keep the offset of the distribution in transposed
 panels

---
 include/dlaf/matrix/panel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 81cf894..1480d5a 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -493,7 +493,7 @@ private:
   static matrix::Distribution transposeDist(const matrix::Distribution& dist) {
     return {common::transposed(dist.size()), common::transposed(dist.tile_size()),
             common::transposed(dist.commGridSize()), common::transposed(dist.rankIndex()),
-            common::transposed(dist.sourceRankIndex())};
+            common::transposed(dist.sourceRankIndex()), common::transposed(dist.offset())};
   }
 
 public:
-- 
2.43.0


From 7c0cb8cc4f35e9cde4a3f66b3cb5e38f5fde7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 13/32] fix: take the offset of the distribution into account
 in SubPanelView

---
 include/dlaf/matrix/views.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dlaf/matrix/views.h b/include/dlaf/matrix/views.h
index 7a9e05f..5cadd5f 100644
--- a/include/dlaf/matrix/views.h
+++ b/include/dlaf/matrix/views.h
@@ -145,15 +145,15 @@ struct SubPanelView : public internal::View {
   /// @pre offset_e.col() + ncols <= dist.tile_size().cols()
   SubPanelView(Distribution dist, GlobalElementIndex offset_e, const SizeType ncols)
       : View(dist, offset_e), cols_(ncols) {
-    i_sub_offset_ = offset_e_.row() % dist_.tile_size().rows();
-    j_sub_offset_ = offset_e_.col() % dist_.tile_size().cols();
+    if (dist.size().isEmpty())
+      return;
+
+    i_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Row>(offset_e_.row());
+    j_sub_offset_ = dist_.tileElementFromGlobalElement<Coord::Col>(offset_e_.col());
 
     DLAF_ASSERT(j_sub_offset_ + cols_ <= dist_.tile_size().cols(), j_sub_offset_ + cols_,
                 dist_.tile_size().cols());
 
-    if (dist.size().isEmpty())
-      return;
-
     tile_end_ = LocalTileIndex(dist_.localNrTiles().rows(), tile_begin_.col() + 1);
 
     has_top_tile_ = dist_.rankGlobalTile<Coord::Row>(offset().row()) == dist_.rankIndex().row();
@@ -179,7 +179,7 @@ struct SubPanelView : public internal::View {
 private:
   ///> Maximum width for the panel (it can be less in case there are not enough elements in the matrix)
   SizeType cols_;
-  SizeType i_sub_offset_, j_sub_offset_;
+  SizeType i_sub_offset_ = 0, j_sub_offset_ = 0;
 
   bool has_top_tile_;
 };
-- 
2.43.0


From 6b5da65827ab7976fca0cd67c35622823f87136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 14/32] fix: allow duplicates of tiles without rows

---
 include/dlaf/matrix/copy_tile.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/copy_tile.h b/include/dlaf/matrix/copy_tile.h
index 302ca59..ca11941 100644
--- a/include/dlaf/matrix/copy_tile.h
+++ b/include/dlaf/matrix/copy_tile.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <algorithm>
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -199,7 +200,8 @@ struct Duplicate {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source, Ts&&... ts) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     internal::copy(source, destination, std::forward<decltype(ts)>(ts)...);
     return Tile<T, Destination>(std::move(destination));
   }
@@ -219,7 +221,8 @@ struct DuplicateNoCopy {
   Tile<T, Destination> operator()(const Tile<const T, Source>& source) const {
     auto source_size = source.size();
     dlaf::memory::MemoryView<T, Destination> mem_view(source_size.linear_size());
-    Tile<T, Destination> destination(source_size, std::move(mem_view), source_size.rows());
+    Tile<T, Destination> destination(source_size, std::move(mem_view),
+                                     std::max<SizeType>(1, source_size.rows()));
     return Tile<T, Destination>(std::move(destination));
   }
 };
-- 
2.43.0


From e71ee81b5323968f2959ace890eae3a87df550d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 15/32] fix: refuse general matrices in lantr

---
 include/dlaf/lapack/tile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dlaf/lapack/tile.h b/include/dlaf/lapack/tile.h
index 4a99620..1a942a5 100644
--- a/include/dlaf/lapack/tile.h
+++ b/include/dlaf/lapack/tile.h
@@ -400,7 +400,7 @@ dlaf::BaseType<T> lantr(const lapack::Norm norm, const blas::Uplo uplo, const bl
       DLAF_ASSERT(a.size().rows() <= a.size().cols(), a);
       break;
     case blas::Uplo::General:
-      DLAF_ASSERT(blas::Uplo::General == uplo, uplo);
+      DLAF_ASSERT(blas::Uplo::General != uplo, uplo);
       break;
   }
   common::internal::SingleThreadedBlasScope single;
-- 
2.43.0


From e0826a65d3ccef13995fc2a54bafd84f53b9a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 16/32] fix: refuse hermitian operands that are not square in
 hemm

---
 include/dlaf/util_blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/util_blas.h b/include/dlaf/util_blas.h
index e7a7a0b..594b3d4 100644
--- a/include/dlaf/util_blas.h
+++ b/include/dlaf/util_blas.h
@@ -74,6 +74,7 @@ hemmSizes getHemmSizes(const blas::Side side, [[maybe_unused]] const dlaf::matri
                        const dlaf::matrix::Tile<T, D>& c) {
   const hemmSizes s{c.size().rows(), c.size().cols()};
 
+  DLAF_ASSERT(square_size(a), a);
   if (side == blas::Side::Left) {
     DLAF_ASSERT(s.m == a.size().rows(), c, a);
     DLAF_ASSERT(s.n == b.size().cols(), c, b);
-- 
2.43.0


From aa0f4e77c0dba2d2225d9bb21fb343dd7912d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 17/32] fix: print the number of communicator pipelines with
 the tune parameters

---
 src/tune.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tune.cpp b/src/tune.cpp
index 6561638..76dd97b 100644
--- a/src/tune.cpp
+++ b/src/tune.cpp
@@ -34,6 +34,7 @@ std::ostream& operator<<(std::ostream& os, const TuneParameters& params) {
      << std::endl;
   os << "  bt_band_to_tridiag_hh_apply_group_size = " << params.bt_band_to_tridiag_hh_apply_group_size
      << std::endl;
+  os << "  communicator_grid_num_pipelines = " << params.communicator_grid_num_pipelines << std::endl;
   return os;
 }
 
-- 
2.43.0


From 738d10c005bd24ad216e0d9a1973287a0f58a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 18/32] fix: contexts of new grids could be in use after
 another grid was freed

---
 src/c_api/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..054c284 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -30,6 +30,10 @@ int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // blacs starts to number contexts from 0
   int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
 
+  // Note: when grids have been freed the context can be still used by another grid.
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
+
   auto dlaf_order = char2order(order);
 
   DLAF_MPI_CHECK_ERROR(MPI_Barrier(comm));
-- 
2.43.0


From 4a3cea9e18119f47ff4d0027506736116f8e6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 19/32] fix: set_random_hermitian_banded filled the diagonal
 tiles outside of the band

---
 include/dlaf/util_matrix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/util_matrix.h b/include/dlaf/util_matrix.h
index ea8a421..ee9e307 100644
--- a/include/dlaf/util_matrix.h
+++ b/include/dlaf/util_matrix.h
@@ -333,7 +333,8 @@ namespace internal {
 
 template <class T>
 void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random<T>& random_value,
-                       SizeType offset_value) {
+                       SizeType offset_value,
+                       std::optional<SizeType> band_size = std::nullopt) {
   // DIAGONAL
   // for diagonal tiles get just lower matrix values and set value for both
   // straight and transposed indices
@@ -341,6 +342,9 @@ void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random
     for (SizeType i = 0; i < j; ++i) {
       auto value = random_value();
 
+      if (band_size && j - i > *band_size)
+        value = T(0);
+
       tile(TileElementIndex{i, j}) = value;
       tile(TileElementIndex{j, i}) = dlaf::conj(value);
     }
@@ -442,7 +446,7 @@ void set_random_hermitian_with_offset(Matrix<T, Device::CPU>& matrix, const Size
     auto set_hp_f = [=](const TileType& tile) {
       internal::getter_random<T> random_value(seed);
       if (ij.row() == ij.col())
-        internal::set_diagonal_tile(tile, random_value, offset_value);
+        internal::set_diagonal_tile(tile, random_value, offset_value, band_size);
       else
         internal::set_lower_and_upper_tile(tile, random_value, full_tile_size, ij, dist, band_size);
     };
-- 
2.43.0


From d266d75efb0ad1753e266641a09c560febb5d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 20/32] fix: miniapp_triangular_multiplication ignored --csv

---
 miniapp/miniapp_triangular_multiplication.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/miniapp/miniapp_triangular_multiplication.cpp b/miniapp/miniapp_triangular_multiplication.cpp
index 661759e..d1b820e 100644
--- a/miniapp/miniapp_triangular_multiplication.cpp
+++ b/miniapp/miniapp_triangular_multiplication.cpp
@@ -177,6 +177,25 @@ struct triangularMultiplicationMiniapp {
                   << dlaf::internal::FormatShort{opts.op} << dlaf::internal::FormatShort{opts.diag}
                   << " " << bh.size() << " " << bh.blockSize() << " " << comm_grid.size() << " "
                   << pika::get_os_thread_count() << " " << backend << std::endl;
+        if (opts.csv_output) {
+          // CSV formatted output with column names that can be read by pandas to simplify
+          // post-processing CSVData{-version}, value_0, title_0, value_1, title_1
+          std::cout << "CSVData-2, "
+                    << "run, " << run_index << ", "
+                    << "time, " << elapsed_time << ", "
+                    << "GFlops, " << gigaflops << ", "
+                    << "type, " << dlaf::internal::FormatShort{opts.type}.value << ", "
+                    << "side, " << dlaf::internal::FormatShort{opts.side}.value << ", "
+                    << "uplo, " << dlaf::internal::FormatShort{opts.uplo}.value << ", "
+                    << "op, " << dlaf::internal::FormatShort{opts.op}.value << ", "
+                    << "diag, " << dlaf::internal::FormatShort{opts.diag}.value << ", "
+                    << "matrixsize, " << bh.size().rows() << ", "
+                    << "blocksize, " << bh.blockSize().rows() << ", "
+                    << "comm_rows, " << comm_grid.size().rows() << ", "
+                    << "comm_cols, " << comm_grid.size().cols() << ", "
+                    << "threads, " << pika::get_os_thread_count() << ", "
+                    << "backend, " << backend << ", " << opts.info << std::endl;
+        }
       }
 
       if ((opts.do_check == dlaf::miniapp::CheckIterFreq::Last && run_index == (opts.nruns - 1)) ||
-- 
2.43.0


From fed546cbef365951481af5e0f5f10f917420a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 21/32] fix: miniapp_triangular_solver wrote the side in the
 CSV output with the title size

---
 miniapp/miniapp_triangular_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniapp/miniapp_triangular_solver.cpp b/miniapp/miniapp_triangular_solver.cpp
index c0676ac..60ae1fc 100644
--- a/miniapp/miniapp_triangular_solver.cpp
+++ b/miniapp/miniapp_triangular_solver.cpp
@@ -209,7 +209,7 @@ struct triangularSolverMiniapp {
                     << "time, " << elapsed_time << ", "
                     << "GFlops, " << gigaflops << ", "
                     << "type, " << dlaf::internal::FormatShort{opts.type}.value << ", "
-                    << "size, " << dlaf::internal::FormatShort{opts.side}.value << ", "
+                    << "side, " << dlaf::internal::FormatShort{opts.side}.value << ", "
                     << "uplo, " << dlaf::internal::FormatShort{opts.uplo}.value << ", "
                     << "op, " << dlaf::internal::FormatShort{opts.op}.value << ", "
                     << "diag, " << dlaf::internal::FormatShort{opts.diag}.value << ", "
-- 
2.43.0


From 428ff969b771c69ac7e5394bfb4ed63d3ce61f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 22/32] fix: miniapps of inverses reported twice the
 performance

---
 miniapp/miniapp_inverse_from_cholesky_factor.cpp | 2 +-
 miniapp/miniapp_triangular_inverse.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/miniapp/miniapp_inverse_from_cholesky_factor.cpp b/miniapp/miniapp_inverse_from_cholesky_factor.cpp
index 9d63377..2270cd2 100644
--- a/miniapp/miniapp_inverse_from_cholesky_factor.cpp
+++ b/miniapp/miniapp_inverse_from_cholesky_factor.cpp
@@ -130,7 +130,7 @@ struct InverseFromCholeskyFactorMiniapp {
       double gigaflops;
       {
         double n = matrix_host.size().rows();
-        auto add_mul = n * n * n * 2 / 3;
+        auto add_mul = n * n * n / 3;
         gigaflops = dlaf::total_ops<T>(add_mul, add_mul) / elapsed_time / 1e9;
       }
 
diff --git a/miniapp/miniapp_triangular_inverse.cpp b/miniapp/miniapp_triangular_inverse.cpp
index 3d73729..f4edee7 100644
--- a/miniapp/miniapp_triangular_inverse.cpp
+++ b/miniapp/miniapp_triangular_inverse.cpp
@@ -132,7 +132,7 @@ struct TriangularInverseMiniapp {
       double gigaflops;
       {
         double n = matrix_host.size().rows();
-        auto add_mul = n * n * n / 3;
+        auto add_mul = n * n * n / 6;
         gigaflops = dlaf::total_ops<T>(add_mul, add_mul) / elapsed_time / 1e9;
       }
 
-- 
2.43.0


From 865205f024a247ff0c390425c4f18ab428f42913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 23/32] fix: miniapp_reduction_to_band computed the performance
 with the block size in place of the band size

---
 miniapp/miniapp_reduction_to_band.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniapp/miniapp_reduction_to_band.cpp b/miniapp/miniapp_reduction_to_band.cpp
index 43ce9f8..a112364 100644
--- a/miniapp/miniapp_reduction_to_band.cpp
+++ b/miniapp/miniapp_reduction_to_band.cpp
@@ -167,7 +167,7 @@ struct reductionToBandMiniapp {
       double gigaflops = std::numeric_limits<double>::quiet_NaN();
       {
         double n = matrix_host.size().rows();
-        double b = matrix_host.blockSize().rows();
+        double b = opts.b;
         auto add_mul = 2. / 3. * n * n * n - n * n * b;
         gigaflops = dlaf::total_ops<T>(add_mul, add_mul) / elapsed_time / 1e9;
       }
-- 
2.43.0


From e44d9f1b771f13396c80b1f7c7cee5be050f9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 24/32] fix: miniapp_larft_gemv computed the performance with
 an unrelated size

---
 miniapp/kernel/miniapp_larft_gemv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniapp/kernel/miniapp_larft_gemv.cpp b/miniapp/kernel/miniapp_larft_gemv.cpp
index 3b4e193..6476324 100644
--- a/miniapp/kernel/miniapp_larft_gemv.cpp
+++ b/miniapp/kernel/miniapp_larft_gemv.cpp
@@ -130,7 +130,7 @@ struct Test {
       gpulapack::larft_gemv1_fixtau(k, taus(i).ptr(), 1, ts(i).ptr(), ts(i).ld(), stream);
     };
 #endif
-    const double flop = ops<T>(n, k);
+    const double flop = ops<T>(m, k);
 
     KernelRunner<backend> runner(opts.count, opts.nparallel);
 
-- 
2.43.0


From 66568b76f7a5235b121afc60bb53e4af41d675f8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 25/32] fix: mixing ranks per node in a script was refused with
 an AttributeError

---
 scripts/miniapps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/miniapps.py b/scripts/miniapps.py
index 41aab26..56afd66 100644
--- a/scripts/miniapps.py
+++ b/scripts/miniapps.py
@@ -776,7 +776,7 @@ class StrongScaling:
             if self.rpn_preamble != params["rpn"][0]:
                 raise ValueError(
                     'Cannot mix different rpn in the same script if system["Multiple rpn in same job"] is False. (Old value: {}, new value {})'.format(
-                        self.run_preamble, params["rpn"][0]
+                        self.rpn_preamble, params["rpn"][0]
                     )
                 )
 
@@ -909,7 +909,7 @@ class WeakScaling:
             if self.rpn_preamble != params["rpn"][0]:
                 raise ValueError(
                     'Cannot mix different rpn in the same script if system["Multiple rpn in same job"] is False. (Old value: {}, new value {})'.format(
-                        self.run_preamble, params["rpn"][0]
+                        self.rpn_preamble, params["rpn"][0]
                     )
                 )
 
-- 
2.43.0


From 86053e3cb1999c01eed2fe8fef7155f32c1c4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 26/32] fix: print and submit of the benchmark scripts failed
 when no runs were added

---
 scripts/miniapps.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scripts/miniapps.py b/scripts/miniapps.py
index 56afd66..06bdf1c 100644
--- a/scripts/miniapps.py
+++ b/scripts/miniapps.py
@@ -833,6 +833,10 @@ class StrongScaling:
 
     # Print batch scripts
     def print(self):
+        # Nothing to print if no runs have been added.
+        if len(self.runs) == 0:
+            return
+
         for nodes in self.job["nodes_arr"]:
             print(f"### {nodes} Nodes ###")
             print(self.jobText(nodes).job_text)
@@ -841,6 +845,10 @@ class StrongScaling:
     # Create dir structure and batch scripts and (if !debug) submit
     # Post: The object is cleared and is in the state as after construction.
     def submit(self, run_dir, debug):
+        # Nothing to submit if no runs have been added.
+        if len(self.runs) == 0:
+            return
+
         for nodes in self.job["nodes_arr"]:
             job_text = self.jobText(nodes)
             job_text.submitJobs(run_dir, debug=debug)
@@ -981,6 +989,10 @@ class WeakScaling:
 
     # Print batch scripts
     def print(self):
+        # Nothing to print if no runs have been added.
+        if len(self.runs) == 0:
+            return
+
         for nodes in self.job["nodes_arr"]:
             print(f"### {nodes} Nodes ###")
             print(self.jobText(nodes).job_text)
@@ -989,6 +1001,10 @@ class WeakScaling:
     # Create dir structure and batch scripts and (if !debug) submit
     # Post: The object is cleared and is in the state as after construction.
     def submit(self, run_dir, debug):
+        # Nothing to submit if no runs have been added.
+        if len(self.runs) == 0:
+            return
+
         for nodes in self.job["nodes_arr"]:
             job_text = self.jobText(nodes)
             job_text.submitJobs(run_dir, debug=debug)
-- 
2.43.0


From fdad595c10c00813fafbe5a44398b506ead43d76 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 27/32] fix: submitting jobs without $SHELL was refused with a
 KeyError

---
 scripts/miniapps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/miniapps.py b/scripts/miniapps.py
index 06bdf1c..c854563 100644
--- a/scripts/miniapps.py
+++ b/scripts/miniapps.py
@@ -143,7 +143,7 @@ class JobText:
         # fstring substitution of vars in launch_cmd
         launch_cmd = launch_cmd.format(job_path=job_path, job_file=job_file)
         # get default SHELL if not specified
-        shell = environ["SHELL"]
+        shell = environ.get("SHELL")
         if shell is None:
             raise ValueError(f"no $SHELL environemt variable found")
         print(f"Submitting : {launch_cmd} using shell {shell}")
-- 
2.43.0


From f6451683440cee48b4beebd418e6a1d997483fdc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:35:31 +0000
Subject: [PATCH 28/32] fix: a retiling that does not divide the blocks of the
 matrix was accepted

The tiles per block of a retiled sub pipeline were not checked: the tile size was rounded
down, and the sub pipeline was filled with the index of other tiles. The check that was
there compared the block size with itself.
---
 include/dlaf/matrix/matrix_base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/matrix_base.h b/include/dlaf/matrix/matrix_base.h
index b52e64c..2e6189d 100644
--- a/include/dlaf/matrix/matrix_base.h
+++ b/include/dlaf/matrix/matrix_base.h
@@ -44,8 +44,10 @@ public:
     DLAF_ASSERT(distribution.single_tile_per_block(),
                 "distribution should be the distribution of the original Matrix.",
                 distribution.block_size(), distribution.tile_size());
-    DLAF_ASSERT(distribution.block_size() == distribution_.block_size(), distribution.block_size(),
-                distribution_.block_size());
+    DLAF_ASSERT(distribution.block_size().rows() % tiles_per_block.rows() == 0 &&
+                    distribution.block_size().cols() % tiles_per_block.cols() == 0,
+                "the block size has to be divisible by the number of tiles per block.",
+                distribution.block_size(), tiles_per_block);
   }
 
   MatrixBase(const MatrixBase& rhs) = default;
-- 
2.43.0


From 387990aa81f65b084032dacff467b609d029c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:48:08 +0000
Subject: [PATCH 29/32] fix: keep the source rank valid for offsets of more
 than 2^31 blocks

---
 src/matrix/distribution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..570f21c 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,9 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // Note: the number of skipped blocks may not fit an int.
+  source_rank_index_ = {static_cast<int>((source_rank_index_.row() + div_row.quot) % grid_size_.rows()),
+                        static_cast<int>((source_rank_index_.col() + div_col.quot) % grid_size_.cols())};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From f419576855b4a44263f598cdf8111f55e373aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:15:00 +0000
Subject: [PATCH 30/32] fix: release the last panel of the reduction to
 standard form (its debug dump waited forever)

---
 include/dlaf/eigensolver/gen_to_std/impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/gen_to_std/impl.h b/include/dlaf/eigensolver/gen_to_std/impl.h
index 081e9ec..b873671 100644
--- a/include/dlaf/eigensolver/gen_to_std/impl.h
+++ b/include/dlaf/eigensolver/gen_to_std/impl.h
@@ -398,8 +398,12 @@ void GenToStd<backend, device, T>::call_L(comm::CommunicatorGrid& grid, Matrix<T
       hegstDiagTile<backend>(thread_priority::high, mat_a.readwrite(kk), mat_l.readwrite(kk));
 
     // If there is no trailing matrix
-    if (k == nrtile - 1)
+    if (k == nrtile - 1) {
+      // Note: The panels still refer to the tile kk of L that the diagonal task is waiting for.
+      l_panelT.reset();
+      l_panel.reset();
       continue;
+    }
 
     const LocalTileIndex diag_wp_idx{0, kk_offset.cols()};
 
-- 
2.43.0


From 7220b4fe5e144d00b899dc27859623c0ab751eae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:15:00 +0000
Subject: [PATCH 31/32] fix: complete the debug dump of the distributed
 tridiagonal solver for matrices of one tile

---
 include/dlaf/eigensolver/tridiag_solver/impl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 1aca022..1cca18c 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -401,6 +401,15 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
       solveDistLeaf(full_task_chain, tridiag, evecs, h_evecs);
     }
     offloadDiagonal(tridiag, evals);
+
+#ifdef DLAF_WITH_HDF5
+    if (getTuneParameters().debug_dump_tridiag_solver_data) {
+      file->write(evecs, "/evecs");
+      file->write(evals, "/evals");
+    }
+
+    num_tridiag_solver_calls++;
+#endif
     return;
   }
 
-- 
2.43.0


From 86349200348fed17790b9b6b6d4eae539347f656 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 07:15:00 +0000
Subject: [PATCH 32/32] fix: complete the debug dump of the distributed
 reduction to tridiagonal form for empty matrices

---
 include/dlaf/eigensolver/band_to_tridiag/mc.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dlaf/eigensolver/band_to_tridiag/mc.h b/include/dlaf/eigensolver/band_to_tridiag/mc.h
index 5409d53..dd7609f 100644
--- a/include/dlaf/eigensolver/band_to_tridiag/mc.h
+++ b/include/dlaf/eigensolver/band_to_tridiag/mc.h
@@ -1068,6 +1068,13 @@ TridiagResult<T, Device::CPU> BandToTridiag<Backend::MC, D, T>::call_L(
   Matrix<T, Device::CPU> mat_v(dist_v);
 
   if (size == 0) {
+#ifdef DLAF_WITH_HDF5
+    if (getTuneParameters().debug_dump_band_to_tridiagonal_data) {
+      file->write(mat_trid, "/tridiagonal");
+    }
+
+    num_b2t_calls++;
+#endif
     return {std::move(mat_trid), std::move(mat_v)};
   }
 
-- 
2.43.0

