From 2fb783d152262a71106c05d716058b469888d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 01/22] fix: GlobalArray keeps contributions of every
 submission before wait

---
 include/neso_particles/containers/global_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neso_particles/containers/global_array.hpp b/include/neso_particles/containers/global_array.hpp
index ef1a153..1ca57e8 100644
--- a/include/neso_particles/containers/global_array.hpp
+++ b/include/neso_particles/containers/global_array.hpp
@@ -196,6 +196,11 @@ protected:
    * Pre kernel execution reduction.
    */
   inline void impl_pre_loop_add() {
+    // A loop may be submitted several times (once per cell) before wait is
+    // called, all of these submissions contribute to the same stage buffer.
+    if (this->d_stage_buffer != nullptr) {
+      return;
+    }
     this->d_stage_buffer =
         get_resource<BufferDevice<T>, ResourceStackInterfaceBufferDevice<T>>(
             sycl_target->resource_stack_map, ResourceStackKeyBufferDevice<T>{},
-- 
2.43.0


From fda3b2d9696f6067f1afe7da7d63588c6119f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 02/22] fix: CellDatConst::set_cell copies column by column
 from larger CellData

---
 include/neso_particles/containers/cell_dat_const.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat_const.hpp b/include/neso_particles/containers/cell_dat_const.hpp
index 45ea1b1..840eb72 100644
--- a/include/neso_particles/containers/cell_dat_const.hpp
+++ b/include/neso_particles/containers/cell_dat_const.hpp
@@ -705,11 +705,13 @@ public:
                "CellData as insuffient column count.");
 
     if (this->nrow > 0 && this->ncol > 0) {
-      this->sycl_target->queue
-          .memcpy(&this->d_ptr[cell * this->stride],
-                  cell_data->get_column_ptr(0),
-                  this->nrow * this->ncol * sizeof(T))
-          .wait_and_throw();
+      // The passed CellData may have more rows than this container.
+      for (int colx = 0; colx < this->ncol; colx++) {
+        this->sycl_target->queue
+            .memcpy(&this->d_ptr[cell * this->stride + colx * this->nrow],
+                    cell_data->get_column_ptr(colx), this->nrow * sizeof(T))
+            .wait_and_throw();
+      }
     }
   }
 
-- 
2.43.0


From 860abe1254bc18c0e0d99e4af51fa3173ef4f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 03/22] fix: CellDat::set_value reports the write to dependent
 sub-groups

---
 include/neso_particles/containers/cell_dat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 9767113..77c116d 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -522,6 +522,9 @@ public:
    */
   inline void set_value(const int cell, const int row, const int col,
                         const T value) {
+    if (this->write_callback) {
+      this->write_callback(0);
+    }
     this->sycl_target->queue
         .memcpy(this->h_ptr_cols[cell * this->ncol + col] + row, &value,
                 sizeof(T))
-- 
2.43.0


From 07ace71abc67cc2c53c238c72b5765dcb1b28a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 04/22] fix: partition members stay consistent when the parent
 is recreated between the two loops

---
 .../particle_sub_group/particle_group_partition.hpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/particle_sub_group/particle_group_partition.hpp b/include/neso_particles/particle_sub_group/particle_group_partition.hpp
index 268ae8c..e2e94e3 100644
--- a/include/neso_particles/particle_sub_group/particle_group_partition.hpp
+++ b/include/neso_particles/particle_sub_group/particle_group_partition.hpp
@@ -182,7 +182,7 @@ public:
             // is no point doing this atomic.
             if (STILL_EXISTS.at(partition)) {
               const int layer = atomic_fetch_add(k_cell_counts + offset, 1);
-              k_particle_layers[INDEX.get_loop_linear_index()] = layer;
+              k_particle_layers[INDEX.get_local_linear_index()] = layer;
             }
           }
         },
@@ -200,7 +200,7 @@ public:
             auto PARTITION_SYM) {
           int *k_particle_layers = MAP_PTRS.at(0);
           const INT partition = PARTITION_SYM.at(0);
-          const int layer = k_particle_layers[INDEX.get_loop_linear_index()];
+          const int layer = k_particle_layers[INDEX.get_local_linear_index()];
           if ((0 <= partition) && (partition < k_num_partitions)) {
             INT *layer_map = LAYER_MAPS.at(partition);
             INT *npart_cell_es = NPART_CELL_ES.at(partition);
-- 
2.43.0


From 656b4e08856ad43073165d0a7d97635a201f28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 05/22] fix: locate CELL_ID of a product matrix by its
 component offset

---
 src/particle_group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..f9cf11c 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,9 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    const int cell_id_offset =
+        product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
+    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_offset;
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From 958eb612ddac91cf59e46ccfa9ba69ad3ee3b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 06/22] fix: skip descendant products without a parent when
 CELL_ID is in the matrix

---
 src/particle_group.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index f9cf11c..62debe7 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -332,6 +332,17 @@ void ParticleGroup::add_particles_local(
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
+    if (d_cells != nullptr) {
+      // Products without a parent are not created.
+      this->sycl_target->queue
+          .parallel_for(sycl::range<1>(static_cast<size_t>(num_products)),
+                        [=](sycl::id<1> idx) {
+                          if (d_cells[idx] < 0) {
+                            cells_ptr[idx] = -1;
+                          }
+                        })
+          .wait_and_throw();
+    }
   }
 
   // If any of the cells are -1 we trim those particles by setting layers to -1.
-- 
2.43.0


From a76bdab4caee48ae8baaf3a03bd73e7c8054660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 07/22] fix: neighbour cells of the mesh hierarchy for offsets
 larger than the mesh

get_neighbour_mh_cells wrapped offset + cell count with a single modulo which
is negative when the offset exceeds the number of cells in a dimension: the
call aborted, also without periodic boundaries where the cell is not used.
---
 src/mesh_hierarchy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh_hierarchy.cpp b/src/mesh_hierarchy.cpp
index 3ae4bb0..88fde6f 100644
--- a/src/mesh_hierarchy.cpp
+++ b/src/mesh_hierarchy.cpp
@@ -269,8 +269,10 @@ void get_neighbour_mh_cells(std::shared_ptr<MeshHierarchy> mesh_hierarchy,
             valid = valid && ((offset_dim_linear_unmapped >= 0) &&
                               (offset_dim_linear_unmapped < cell_counts[dimx]));
           }
+          // The offset may be larger than the number of cells in a dimension.
           const INT offset_dim_linear =
-              (offset_dim_linear_unmapped + cell_counts[dimx]) %
+              ((offset_dim_linear_unmapped % cell_counts[dimx]) +
+               cell_counts[dimx]) %
               cell_counts[dimx];
 
           // convert back to a mesh hierarchy tuple index
-- 
2.43.0


From b67314023afa55a21504be573d10efe8b2a4368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 08/22] fix: a cleared CellwisePairListSimple holds zero pairs,
 not minus one

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..082344c 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -247,7 +247,7 @@ void CellwisePairListSimple::clear() {
   }
   this->max_pair_count = -1;
   this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From 7fd0f79e35681cf6b3edee0c51994f51ccc433ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 09/22] fix: PairSamplerNTC with a sub group of the whole
 particle group

---
 src/algorithms/dsmc/pair_sampler_ntc.cpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/dsmc/pair_sampler_ntc.cpp b/src/algorithms/dsmc/pair_sampler_ntc.cpp
index b1847a6..189e217 100644
--- a/src/algorithms/dsmc/pair_sampler_ntc.cpp
+++ b/src/algorithms/dsmc/pair_sampler_ntc.cpp
@@ -97,6 +97,9 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
   this->version_b = sub_group_b->get_version();
   auto selection_a = sub_group_a->get_selection();
   auto selection_b = sub_group_b->get_selection();
+  // A selection of the whole particle group has no map.
+  const bool a_is_whole_group = sub_group_a->is_entire_particle_group();
+  const bool b_is_whole_group = sub_group_b->is_entire_particle_group();
 
   const auto *k_npart_cell = particle_group->mpi_rank_dat->d_npart_cell;
   const auto *h_npart_cell = particle_group->mpi_rank_dat->h_npart_cell;
@@ -175,10 +178,14 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                const int i3 = selection_a.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, i2);
-                const int j3 = selection_b.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, j2);
+                const int i3 = a_is_whole_group
+                                   ? i2
+                                   : selection_a.d_map_cells_to_particles
+                                         .map_loop_layer_to_layer(cell, i2);
+                const int j3 = b_is_whole_group
+                                   ? j2
+                                   : selection_b.d_map_cells_to_particles
+                                         .map_loop_layer_to_layer(cell, j2);
 
                 const int wave_i = la_flags[i3];
                 const int wave_j = la_flags[j3];
@@ -267,10 +274,12 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                i3 = selection_a.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, i2);
-                j3 = selection_b.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, j2);
+                i3 = a_is_whole_group ? i2
+                                      : selection_a.d_map_cells_to_particles
+                                            .map_loop_layer_to_layer(cell, i2);
+                j3 = b_is_whole_group ? j2
+                                      : selection_b.d_map_cells_to_particles
+                                            .map_loop_layer_to_layer(cell, j2);
 
                 const int flag_i =
                     sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From 75468341a4502aef38d06cd738866057e25e476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 10/22] fix: scaling of surface projection on 3D meshes with
 cells of width other than one

---
 src/cartesian_mesh/cartesian_trajectory_intersection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..62ce2e3 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -226,7 +226,9 @@ void CartesianTrajectoryIntersection::function_project_contribute(
     ErrorPropagate ep_dof(this->sycl_target);
     auto k_ep_found = ep_found.device_ptr();
     auto k_ep_dof = ep_dof.device_ptr();
-    const REAL k_inverse_width = func->mesh->inverse_cell_width_fine;
+    // The functions are piecewise constant over cells of dimension func->ndim.
+    const REAL k_inverse_volume =
+        std::pow(func->mesh->inverse_cell_width_fine, func->ndim);
 
     auto lambda_dispatch = [&](auto extract_quantity) {
       particle_loop(
@@ -246,7 +248,7 @@ void CartesianTrajectoryIntersection::function_project_contribute(
 #endif
               if (found) {
                 const REAL value = extract_quantity(SYM, component);
-                atomic_fetch_add(&k_buffer[*index], k_inverse_width * value);
+                atomic_fetch_add(&k_buffer[*index], k_inverse_volume * value);
               }
             }
           },
-- 
2.43.0


From fa668d57250fb09c2edaae5043f1de926b599e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:24 +0000
Subject: [PATCH 11/22] fix: surface projection when elements are added before
 it is finalised

---
 .../cartesian_trajectory_intersection.cpp     | 48 ++++++++++++-------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 62ce2e3..5d3e3f6 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -4,6 +4,26 @@
 
 namespace NESO::Particles {
 
+namespace {
+
+/**
+ * Extend a staging buffer with zeros such that it holds at least the requested
+ * number of entries.
+ */
+inline void extend_dofs_stage(SYCLTargetSharedPtr sycl_target,
+                              BufferDevice<REAL> &stage,
+                              const std::size_t size) {
+  const std::size_t current_size = stage.size;
+  if (current_size < size) {
+    stage.realloc(size);
+    sycl_target->queue
+        .fill(stage.ptr + current_size, (REAL)0.0, size - current_size)
+        .wait_and_throw();
+  }
+}
+
+} // namespace
+
 void CartesianTrajectoryIntersection::setup() {
   auto ndim = this->mesh->get_ndim();
   auto mh = this->mesh->get_mesh_hierarchy();
@@ -161,10 +181,12 @@ void CartesianTrajectoryIntersection::function_project_initialise(
       num_accessible_geoms * func->cell_dof_count;
 
   func->d_dofs_stage->realloc_no_copy(tmp_buffer_size);
-  REAL *k_buffer = func->d_dofs_stage->ptr;
-
-  if (tmp_buffer_size > 0) {
-    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, tmp_buffer_size)
+  // Elements may be added to the exchange pattern before the projection is
+  // finalised hence zero the entire buffer.
+  const std::size_t stage_size = func->d_dofs_stage->size;
+  if (stage_size > 0) {
+    this->sycl_target->queue
+        .fill(func->d_dofs_stage->ptr, (REAL)0.0, stage_size)
         .wait_and_throw();
   }
   func->fill(0.0);
@@ -190,19 +212,8 @@ void CartesianTrajectoryIntersection::function_project_contribute(
   const INT k_num_accessible_geoms = num_accessible_geoms;
 
   const auto cell_dof_count = func->cell_dof_count;
-  const INT current_stage_size = func->d_dofs_stage->size / cell_dof_count;
-  if (current_stage_size < k_num_accessible_geoms) {
-
-    func->d_dofs_stage->realloc(k_num_accessible_geoms * cell_dof_count);
-    const auto diff =
-        (k_num_accessible_geoms - current_stage_size) * cell_dof_count;
-    REAL *k_buffer =
-        func->d_dofs_stage->ptr + current_stage_size * cell_dof_count;
-    this->sycl_target->queue
-        .parallel_for(sycl::range<1>(diff),
-                      [=](auto idx) { k_buffer[idx] = 0.0; })
-        .wait_and_throw();
-  }
+  extend_dofs_stage(this->sycl_target, *func->d_dofs_stage,
+                    k_num_accessible_geoms * cell_dof_count);
 
   NESOASSERT(
       func->d_dofs_stage->size >=
@@ -281,6 +292,9 @@ void CartesianTrajectoryIntersection::function_project_finalise(
 
   const int group = func->boundary_group;
   auto &boundary_mesh_interface = this->map_groups_boundary_interface.at(group);
+  extend_dofs_stage(this->sycl_target, *func->d_dofs_stage,
+                    boundary_mesh_interface->get_num_intersection_geoms() *
+                        func->cell_dof_count);
   boundary_mesh_interface->exchange_from_device(
       func->d_dofs_stage->ptr, func->cell_dof_count, func->d_dofs->ptr);
   func->reset_version();
-- 
2.43.0


From 18d0936c192abc76fc31f3204aafc44459e44e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:05 +0000
Subject: [PATCH 12/22] fix: H5Part::read of a step that was written without
 particles

---
 src/particle_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 7624b9a..e27ecbd 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -81,9 +81,12 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
   hid_t group_step;
   H5CHK(group_step = H5Gopen(this->file_id, step_name.c_str(), H5P_DEFAULT));
-  INT npart_total;
+  INT npart_total = 0;
 
-  {
+  // A step which was written with no particles contains no datasets.
+  htri_t step_has_particles;
+  H5CHK(step_has_particles = H5Lexists(group_step, "x", H5P_DEFAULT));
+  if (step_has_particles > 0) {
     hid_t dataset;
     H5CHK(dataset = H5Dopen(group_step, "x", H5P_DEFAULT));
     hid_t filespace;
-- 
2.43.0


From cfa106ff8802025ead5d513d0c43cf0736b3135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 13/22] fix: rebuild the pointers cached for a vector of Syms
 when the ParticleDats changed

---
 .../containers/sym_vector_pointer_cache.hpp   | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..9811b27 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,13 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  /// The pointers held by the cached device buffers. A ParticleDat may be
+  /// removed from, and recreated in, the maps of ParticleDats in which case the
+  /// cached entry must be recreated.
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetT<T>>>
+      map_syms_host_ptrs;
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetConstT<T>>>
+      map_syms_const_host_ptrs;
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -43,6 +50,8 @@ public:
   inline void reset() {
     this->map_syms_ptrs.clear();
     this->map_syms_const_ptrs.clear();
+    this->map_syms_host_ptrs.clear();
+    this->map_syms_const_host_ptrs.clear();
   }
 
   /**
@@ -52,6 +61,8 @@ public:
     for (auto &keyx : this->ephemeral_keys) {
       this->map_syms_ptrs.erase(keyx);
       this->map_syms_const_ptrs.erase(keyx);
+      this->map_syms_host_ptrs.erase(keyx);
+      this->map_syms_const_host_ptrs.erase(keyx);
     }
     this->ephemeral_keys.clear();
   }
@@ -158,19 +169,21 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetT<T>> ptrs(n);
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    if (!this->in_cache(syms) ||
+        this->map_syms_host_ptrs.at(syms) != ptrs) {
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +196,21 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
-
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    if (!this->in_const_cache(syms) ||
+        this->map_syms_const_host_ptrs.at(syms) != ptrs) {
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_const_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From 6ad24786a74e33cc9c4372b8895eee53a1a5e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 14/22] fix: initialise the outputs of the RNG buffer lookup
 when no values are needed

---
 .../neso_particles/containers/rng/host_rng_common.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/containers/rng/host_rng_common.hpp b/include/neso_particles/containers/rng/host_rng_common.hpp
index 91b5669..78206c3 100644
--- a/include/neso_particles/containers/rng/host_rng_common.hpp
+++ b/include/neso_particles/containers/rng/host_rng_common.hpp
@@ -194,6 +194,9 @@ protected:
   inline T *allocate(SYCLTargetSharedPtr sycl_target,
                      const std::size_t required_size,
                      bool *reallocated = nullptr) {
+    if (reallocated != nullptr) {
+      *reallocated = false;
+    }
     if (required_size == 0) {
       return nullptr;
     }
@@ -210,14 +213,14 @@ protected:
         this->d_buffers.at(sycl_target)->realloc(padded_size, this->max_factor);
       }
     }
-
-    if (reallocated != nullptr) {
-      *reallocated = false;
-    }
     return this->d_buffers.at(sycl_target)->ptr;
   }
 
   inline T *get_buffer_ptr(SYCLTargetSharedPtr sycl_target) {
+    // There is no buffer if no loop has required any samples yet.
+    if (!this->d_buffers.count(sycl_target)) {
+      return nullptr;
+    }
     return this->d_buffers.at(sycl_target)->ptr;
   }
 
-- 
2.43.0


From bf0ada6725de8adc2320ddca2264858584d9a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 15/22] fix: initialise the counters of the atomic block RNG

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..635ea69 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -74,7 +74,8 @@ protected:
   inline void create_counter(SYCLTargetSharedPtr sycl_target) {
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
-          std::make_shared<BufferDevice<int>>(sycl_target, 2);
+          std::make_shared<BufferDevice<int>>(sycl_target,
+                                              std::vector<int>{0, 0});
     }
   }
 
-- 
2.43.0


From b6d2607397ff4864577e034f5854f5e377f4ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 16/22] fix: collect received values with their own type in
 set_recv

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..1321b85 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (const T ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From fece82158a398d4f4066f88ecab27c87dc6fc293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 17/22] fix: matrix_transpose writes its output for matrices
 with one row or column

---
 include/neso_particles/algorithms/common.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..13d80fa 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,9 +452,14 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows == 0) || (num_cols == 0)) {
     return sycl::event();
   }
+  if ((num_rows == 1) || (num_cols == 1)) {
+    // The row major layouts of the matrix and the transpose are identical.
+    return sycl_target->queue.memcpy(d_dst, d_src,
+                                     num_rows * num_cols * sizeof(T));
+  }
   const std::size_t num_bytes_per_item = sizeof(T);
   std::size_t local_size =
       sycl_target->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
-- 
2.43.0


From 7a6888afc8dceb3b9f761023d8242ad2e9c9eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 18/22] fix: index the number of dimensions in
 get_intersecting_cells

---
 src/external_interfaces/common/overlay_cartesian_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/overlay_cartesian_mesh.cpp b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
index b66b234..1f099f0 100644
--- a/src/external_interfaces/common/overlay_cartesian_mesh.cpp
+++ b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
@@ -162,7 +162,7 @@ void OverlayCartesianMesh::get_intersecting_cells(
     size *= (cell_upper - cell_lower);
   }
   cells.reserve(size);
-  std::vector<int> index(2);
+  std::vector<int> index(this->ndim);
   this->get_all_cells(0, cell_starts, cell_ends, index, cells);
 }
 
-- 
2.43.0


From 5a9ea07bc0820805a0a447a84fd8cf6cf0eb3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 19/22] fix: copy in the right direction in
 DOFMapperDG::copy_from_external

---
 src/external_interfaces/common/dof_mapper_dg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index 6b3d550..bec1aba 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -86,7 +86,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
       k_num_cells_local * k_num_dofs_per_cell * sizeof(REAL);
 
   if (num_bytes > 0) {
-    this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes)
+    this->sycl_target->queue.memcpy(k_dofs, h_external_dofs, num_bytes)
         .wait_and_throw();
 
     auto e1 = this->sycl_target->queue.submit([&](sycl::handler &cgh) {
-- 
2.43.0


From f7580921fb741aaebfeedb2e930567b4e5748b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 20/22] fix: size the receive buffer for all components in
 QuadraturePointMapper::get

---
 src/external_interfaces/common/quadrature_point_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 8cdb0e9..d8eef7f 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -326,7 +326,7 @@ void QuadraturePointMapper::get(const int ncomp, std::vector<REAL> &output) {
   // Need to exchange and populate the points where the evaluation point is
   // not owned by the rank which added the point.
   auto sizes = this->compute_num_bytes<REAL>(ncomp);
-  this->recv_buffer.resize(sizes.second);
+  this->recv_buffer.resize(static_cast<std::size_t>(sizes.second) * ncomp);
   e1.wait_and_throw();
   this->compute_offsets<REAL>(ncomp, send_buffer, recv_buffer);
 
-- 
2.43.0


From 86a2deb07095d5c4e41ed669bd984201d9e64189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 21/22] fix: set the values of quadrature points held by other
 ranks

---
 .../common/quadrature_point_mapper.cpp        | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index d8eef7f..845a355 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -351,12 +351,34 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
   const int ncomp_local = this->npoint_local * ncomp;
   NESOASSERT(input.size() >= static_cast<std::size_t>(ncomp_local),
              "Input vector is too small.");
-  this->make_contribs_buffers(ncomp_local, 0);
+  const int ncomp_remote = this->npoint_remote * ncomp;
+  this->make_contribs_buffers(ncomp_local, ncomp_remote);
+
+  // Send the values for points which were added on this rank but are held on
+  // other ranks. This is the reverse of the communication in get.
+  auto sizes = this->compute_num_bytes<REAL>(ncomp);
+  std::vector<REAL> send_buffer(static_cast<std::size_t>(sizes.second) * ncomp);
+  const int num_entries = this->owning_point_indices.size();
+  for (int ix = 0; ix < num_entries; ix++) {
+    const int src_index = this->owning_point_indices.at(ix);
+    for (int cx = 0; cx < ncomp; cx++) {
+      send_buffer.at(ix * ncomp + cx) = input.at(src_index * ncomp + cx);
+    }
+  }
+  this->recv_buffer.resize(ncomp_remote);
+  this->compute_offsets<REAL>(ncomp, this->recv_buffer, send_buffer);
+  this->cec->exchange_send_recv_data(this->owning_ranks, this->owning_num_bytes,
+                                     this->owning_ptrs, this->adding_ranks,
+                                     this->adding_num_bytes, this->adding_ptrs);
 
   auto k_local = this->d_local_contribs->ptr;
+  auto k_remote = this->d_remote_contribs->ptr;
   this->sycl_target->queue
       .memcpy(k_local, input.data(), ncomp_local * sizeof(REAL))
       .wait_and_throw();
+  this->sycl_target->queue
+      .memcpy(k_remote, this->recv_buffer.data(), ncomp_remote * sizeof(REAL))
+      .wait_and_throw();
 
   const int k_rank = this->rank;
   const int k_ncomp = ncomp;
@@ -368,6 +390,10 @@ void QuadraturePointMapper::set(const int ncomp, std::vector<REAL> &input) {
           for (int cx = 0; cx < k_ncomp; cx++) {
             CONTRIB.at(cx) = k_local[start + cx];
           }
+        } else {
+          for (int cx = 0; cx < k_ncomp; cx++) {
+            CONTRIB.at(cx) = k_remote[start + cx];
+          }
         }
       },
       Access::read(Sym<INT>("ADDING_RANK_INDEX")), Access::write(sym))
-- 
2.43.0


From 06dfb24b9e7f65b630a779453468cf960878b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:19 +0000
Subject: [PATCH 22/22] fix: create the counter of the atomic block RNG before
 the loop is submitted

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index 635ea69..d19a070 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -74,8 +74,7 @@ protected:
   inline void create_counter(SYCLTargetSharedPtr sycl_target) {
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
-          std::make_shared<BufferDevice<int>>(sycl_target,
-                                              std::vector<int>{0, 0});
+          std::make_shared<BufferDevice<int>>(sycl_target, 2);
     }
   }
 
@@ -137,6 +136,12 @@ public:
                "overlapping execution.");
     this->internal_state = 1;
 
+    // The counters are created and initialised here as memory operations
+    // cannot be submitted whilst the loop itself is being submitted.
+    if (!this->d_counters.count(global_info->particle_group->sycl_target)) {
+      this->reset_counter(global_info->particle_group->sycl_target);
+    }
+
     if (this->num_components > 0) {
       const auto num_particles = get_loop_iteration_set_size(global_info);
       auto sycl_target = global_info->particle_group->sycl_target;
-- 
2.43.0

