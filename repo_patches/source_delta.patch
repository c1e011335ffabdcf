From 9b7a88850ce612665b950c6c2543730b7e5163ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 01/18] fix: integer element access to a 1-dimensional view
 ignores the offset of the view

---
 eisvogel/core/impl/NDVecArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..a6e4c81 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + m_offset + m_strides[0] * ind);
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
-- 
2.43.0


From 83cae4049db39eae76441baae5df0c95afe7185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 02/18] fix: copying an array view reads from the wrong
 position of the viewed data

---
 eisvogel/core/impl/NDVecArray.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..81e89a0 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -83,9 +83,9 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
     
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+    // Note: `other` may be a view, so that its memory layout is in general different from ours
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
-- 
2.43.0


From b8232557137db6941922dd8b300391978777fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 03/18] fix: appending an array view copies the full data of
 the viewed array

---
 eisvogel/core/impl/NDVecArray.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index 81e89a0..d8e7498 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -217,16 +217,18 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  ind_t app_start(0u);
+  app_start[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
   new_shape[axis] += other.m_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data; `other` may be a view and cover only a part of its underlying data
+  if(other.GetNumberElements() > 0) {
+    fill_from(other, ind_t(0u), other.m_shape, app_start);
+  }
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From ea082d368cb0157fc39c2e188c358b062fd6ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 04/18] fix: chunk iteration overflows for unlimited chunk size
 and nonzero start index

---
 eisvogel/core/impl/IteratorUtils.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/IteratorUtils.hh b/eisvogel/core/impl/IteratorUtils.hh
index 4d950ce..e4bf2f4 100644
--- a/eisvogel/core/impl/IteratorUtils.hh
+++ b/eisvogel/core/impl/IteratorUtils.hh
@@ -65,7 +65,8 @@ namespace IteratorUtils {
     
     chunk_begin[cur_dim] = begin[cur_dim];
     while(chunk_begin[cur_dim] < end[cur_dim]) {
-      chunk_end[cur_dim] = std::min(chunk_begin[cur_dim] + chunk_size[cur_dim], end[cur_dim]);
+      // Note: written such that this does not overflow also for (practically) infinite chunk sizes
+      chunk_end[cur_dim] = (chunk_size[cur_dim] < end[cur_dim] - chunk_begin[cur_dim]) ? chunk_begin[cur_dim] + chunk_size[cur_dim] : end[cur_dim];
       
       if constexpr(cur_dim == vec_dims - 1) {
 	worker(std::forward<Vector<NumT, vec_dims>>(chunk_begin), std::forward<Vector<NumT, vec_dims>>(chunk_end));
-- 
2.43.0


From f040c3039a282ae3dfe0f4d48774adf010f615bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 05/18] fix: downsampled range end underflows for an empty
 range at index zero

---
 eisvogel/core/impl/NDVecArrayOperations.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArrayOperations.hxx b/eisvogel/core/impl/NDVecArrayOperations.hxx
index 5620736..aa80a15 100644
--- a/eisvogel/core/impl/NDVecArrayOperations.hxx
+++ b/eisvogel/core/impl/NDVecArrayOperations.hxx
@@ -9,7 +9,7 @@ namespace {
   
   template <std::size_t dims>
   Vector<std::size_t, dims> get_last_downsampled_ind_in_range(const Vector<std::size_t, dims>& end_ind, const Vector<std::size_t, dims>& downsampling) {
-    return (end_ind - 1) / downsampling + 1; // upper range ends are exclusive
+    return (end_ind + downsampling - 1) / downsampling; // upper range ends are exclusive
   }
 
   template <std::size_t dims>
-- 
2.43.0


From 2817b6a25979c9488a7052b638688388ebec03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 06/18] fix: memory pool with zero initial size cannot grow

---
 eisvogel/core/impl/RStarTree.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..375f953 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -92,9 +92,9 @@ void MemoryPool<T>::grow() {
 
   // std::cout << "HHHH grow start" << std::endl;
   
-  // Double the size of the currently-allocated memory
+  // Double the size of the currently-allocated memory (a pool constructed with zero initial size also needs to be able to grow)
   std::size_t current_size = m_data.size();
-  std::size_t new_size = 2 * current_size;
+  std::size_t new_size = std::max<std::size_t>(2 * current_size, 1u);
   m_data.resize(new_size);
 
   // Extend the slot list
-- 
2.43.0


From 475b5a211963b64af5d110fa2a14bf1bc7889df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 07/18] fix: queries, updates and rebuilds on an empty spatial
 index access an invalid root node

---
 eisvogel/core/impl/RStarTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 375f953..0237fad 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -562,6 +562,11 @@ template <typename CoordT, std::size_t dims, class PayloadT>
 void RStarTree<CoordT, dims, PayloadT>::UpdateBoundingBox(const Vector<CoordT, dims>& elem_coords,
 							  const Vector<CoordT, dims>& updated_start_coords, const Vector<CoordT, dims>& updated_end_coords) {
 
+  // Empty tree: there is nothing to update
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return;
+  }
+
   // Traverse the tree starting from the root node, updating the root node if required
   if(search_entry_update_bbox(m_root_slot, elem_coords, updated_start_coords, updated_end_coords)) {
     recalculate_bbox(m_root_slot);
@@ -1078,6 +1083,11 @@ PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>&
     }
   }
   
+  // Empty tree: there is nothing to find
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return nullptr;
+  }
+
   std::size_t entry_slot = search_entry(m_root_slot, coords);
   if(entry_slot != NodePool::INVALID_SLOT) {
     m_last_accessed_entry_slot = entry_slot;
@@ -1331,6 +1341,11 @@ void RStarTree<CoordT, dims, PayloadT>::RebuildSTR() {
   m_entries.reset();
   m_last_accessed_entry_slot = EntryPool::INVALID_SLOT;
 
+  // Empty tree: there is nothing to rebuild
+  if(entries.empty()) {
+    return;
+  }
+
   // std::cout << "starting to rebuild tree for " << entries.size() << " entries" << std::endl;
 
   std::vector<std::size_t> node_slots;
-- 
2.43.0


From 04329401cc910c0dd9ff65a90abdabcb54454bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 08/18] fix: streamer accepts appended slices which cannot be
 read back

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..d9b1318 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -271,13 +271,19 @@ namespace stor {
     }
 
     // --------
-    // TODO: Finish implementing checks
     // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
 
-    // Better conditions:
     // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
+    if(meta.array_shape[axis] % meta.ser_chunk_shape[axis] != 0) {
+      throw std::runtime_error("Error: serialization chunks are not full along the concatenation axis, cannot append!");
+    }
+
     // 2) concat dimension must not be after the outermost changing dimension
+    for(std::size_t cur_axis = 0; cur_axis < axis; cur_axis++) {
+      if(meta.ser_chunk_shape[cur_axis] < meta.array_shape[cur_axis]) {
+	throw std::runtime_error("Error: array is split into serialization chunks along an axis in front of the concatenation axis, cannot append!");
+      }
+    }
     // --------
     
     // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
-- 
2.43.0


From 283c0b40c4368bdb123fb224a7712263bdba867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:42 +0000
Subject: [PATCH 09/18] fix: chunk file name is written past the end of its
 buffer

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..704cecd 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -516,7 +516,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[UUID_STR_LEN];
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From ca54cbccf6e07374506d4af9daa5cf7d7d824466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 10/18] fix: reading elements of an all-null chunk ignores the
 overlap of the chunk

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 704cecd..4b22205 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -289,7 +289,7 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
     // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From 900edd8d8f04ce0776a3816111a0dda8a1fa178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 11/18] fix: chunks added to a reloaded index reuse the ids of
 existing chunks

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 4b22205..2ae3e20 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -719,6 +719,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
 
   for(metadata_t& cur_meta : chunk_list) {
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
+
+    // newly-added chunks must not reuse an existing id
+    m_next_chunk_id = std::max<id_t>(m_next_chunk_id, cur_meta.chunk_id + 1);
   }  
 }
 
-- 
2.43.0


From 08fbea58113cef597f62395900754303bdf81bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 12/18] fix: rebuilding chunks without overlap does not compile

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 2ae3e20..3e5ce35 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1181,7 +1181,7 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    const ind_t& requested_chunk_shape, std::filesystem::path outdir, const ChunkHints& hints) {
 
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const signed_ind_t&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
@@ -1368,7 +1368,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape,
 								     std::filesystem::path tmpdir, const ChunkHints& hints) {
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const signed_ind_t&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
-- 
2.43.0


From d52f7a1dce2cd306d1e0641b01d3a41fc0ff7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 13/18] fix: corner cells of rebuilt chunks hold values left
 over from the previous chunk

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 3e5ce35..3580cb2 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1241,7 +1241,9 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
     ind_t output_start = (fill_start_ind.template as_type<int>() - extended_chunk_start_ind).template as_type<std::size_t>();
     
     // fill rebuilt chunk into local buffer ...    
-    chunk_buffer.resize(extended_chunk_shape);    
+    // (start from cleared values: boundary evaluators may refer to other boundary elements of this chunk that are not yet filled)
+    chunk_buffer.resize(extended_chunk_shape);
+    chunk_buffer.clear();
     FillArray(chunk_buffer, fill_start_ind, fill_end_ind, output_start);
 
     auto is_boundary_element = [&](Vector<int, dims>& boundary_ind) {
-- 
2.43.0


From f46b7e9c3ba599d412d47dd378dc278467eb418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 14/18] fix: samples following an all-null chunk are
 accumulated at the wrong position

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..7399e49 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -431,6 +431,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+      // nothing to accumulate for these samples
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From 13a0f5a5ee998f58724f126911ea3f91f7633892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 15/18] fix: positions outside of the Green's function domain
 dereference a null pointer

---
 eisvogel/core/impl/GreensFunction.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 7399e49..7bc0eb7 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -368,7 +368,8 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     
     // Fetch the chunk that contains this current location ...
     RZTIndexVector cur_ind = cur_f_ind.template as_type<std::size_t>();
-    const metadata_t* meta = m_index.GetChunk(cur_ind);
+    const bool before_start = (cur_f_ind.r() < 0) || (cur_f_ind.z() < 0) || (cur_f_ind.t() < 0);  // cannot be represented as index
+    const metadata_t* meta = before_start ? nullptr : m_index.GetChunk(cur_ind);
 
     // std::cout << "start_ind = " << m_index.get_start_ind() << std::endl;
     // std::cout << "end_ind = " << m_index.get_end_ind() << std::endl;
@@ -383,6 +384,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
       return;
     }
 
+    // Otherwise, this is an error
+    if(meta == nullptr) {
+      throw std::out_of_range("Error: requested position is outside of the domain of the Green's function!");
+    }
+
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-- 
2.43.0


From ca70490de6e0494df5b860ce79fddfd222ab31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 16/18] fix: ignoring a sample before the Green's function
 domain drops later samples of the same block

---
 eisvogel/core/impl/GreensFunction.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 7bc0eb7..c481346 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -381,7 +381,9 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // (Silently) ignore (part of) this track if this is what we're asked to do
     if((oob_mode == Green::OutOfBoundsBehavior::Ignore) && (meta == nullptr)) {
       // std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
-      return;
+      cur_sample_ind++;
+      std::advance(result, 1);
+      continue;
     }
 
     // Otherwise, this is an error
-- 
2.43.0


From f9b0f9ae204fe7bd0d5166aa059d18de999d50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 17/18] fix: rounding of the first causal sample aborts the
 signal calculation

---
 eisvogel/core/impl/GreensFunction.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index c481346..6b2476e 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -307,7 +307,8 @@ void CylindricalGreensFunction::apply_accumulate(const LineCurrentSegment& seg,
 	scalar_t block_t_sig_start = block_sample_ind_start * t_sig_samp + t_sig_start;
 	
 	// start time in integration block
-	scalar_t convolution_t_start = block_t_sig_start - t_p;
+	// (not before the integration time: rounding of the causal sample index may leave a tiny negative value)
+	scalar_t convolution_t_start = std::max<scalar_t>(block_t_sig_start - t_p, 0.0);
 
 	// std::cout << " . . . . . . . . " << std::endl;
 	// std::cout << "start to call accumulate_inner_product" << std::endl;
-- 
2.43.0


From 163118e725d763b83d516d6287c45faf005f1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 18/18] fix: slices are duplicated when the axis of appended
 slices changes

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 3580cb2..4c60f1d 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -168,14 +168,19 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     // The cache already contains a chunk scheduled for concatenation with the on-disk chunk
     if(std::get<CacheStatus::Append>(status).axis != axis) {
       
-      // Concatenation axis changed, need to synchronize
+      // Concatenation axis changed, need to synchronize; afterwards, the cached chunk is identical to the one on disk ...
       sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
+
+      // ... and only the new slice must be appended to it: replace it, as done above
+      m_cache.evict(index);
+      insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
     }
+    else {
 
-    // Now have the fully up-to date chunk in the cache, can append
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);
+      // Can append to the slices that are already scheduled
+      cached_chunk.chunk_meta = chunk_meta;
+      cached_chunk.chunk_data.template Append<axis>(slice);
+    }
   }
 
   // Immediately synchronize to disk if we're asked to operate without cache
-- 
2.43.0

