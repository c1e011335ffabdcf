"""Which contract files decide which property.  verify: files whose ev_contract_* are discharged by the deductive verifier;
native: files whose ev_contract_* are run natively (replay of counter-models, bounded search).  A contract that only exists
natively is a bounded stand-in."""
PROPS = {
 'C01': dict(verify=['c01.cc'], native=['c01.cc'], level='proof',
   text="NDVecArray/NDVecArrayView/VectorView element access: every shape (dims 1..4, several vec_dims), every index"),
 'C02': dict(verify=['c02.cc', 'c02d.cc', 'c02a.cc'], native=['c02.cc', 'c02a.cc'], level='proof', thorough_only=['_4_1', 'range_3_2', 'whole_3_2'],
   text="index_loop_over_elements/chunks per dimension (dims 1..4) with the inner loops taken by their contract, NDVecArray::index_loop_over_elements on arrays and views with the chunk loop taken by its contract"),
 'C03': dict(verify=['c03.cc'], native=['c03.cc'], level='proof', thorough_only=['_3_2', '(whole|copy|copyview|allnull|allzero|assign|assignview|swap|swapview|fillview|construct|constructview|appendview)_3_1', '(copy|copyview|assign|assignview|whole|allnull|swapview)_2_2'],
   text="NDVecArray fill/fill_from/operator=/copy constructor/Append/SwapAxes/IsAllNull/clear/resize on arrays and views, dims 1..3, arbitrary extents, with the chunk and element loops taken by their contract (C02)"),
 'C04': dict(verify=['c04.cc'], native=['c04.cc'], level='proof',
   text="Traits round trip and big-endian layout for uint32/uint64/float/double, std::array, Vector, RZTCoordVector, streamer metadata, chunk metadata of the streamer, CylindricalGreensFunctionMetadata: every value bit pattern, every stream position; bounded (native): std::string, std::vector with blocked I/O, std::map, ChunkMetadata (chunk ids below 2^32, see known_findings.txt)"),
 'C05': dict(verify=['c05.cc'], native=['c05.cc'], level='proof',
   text="dense::to_buffer/from_buffer on contiguous arrays (arbitrary length up to 2^30, vec_dims 1..3); nullsup::calculate_required_buflen never exceeded by suppress_null for any length and any contents (vec_dims 1..3); bounded: suppress/desuppress round trips of 2 and 3 elements deductively, arrays and views of dims 1..3 natively"),
 'C06': dict(verify=['c06d.cc'], native=['c06.cc'], level='proof', secs=12, thorough_only=['null_3_2', 'dense_3_2', 'boxes_3_0', 'append_3_0'],
   text="NDVecArrayStreamer, dims 1..3: metadata on file, refusals (before any write) and updates of serialize/append_slice/mark_as_final/deserialize, dispatch on the mode; the bodies of the chunk loops write and read back one record for an arbitrary box at an arbitrary file position (dense and null-suppressed); lemma: the boxes of the concatenation are those of the array followed by those of the slice. Chunk loops and encodings taken by their contracts (C02, C05); bounded (native): whole histories of up to 5 appends, dims 1..3, every chunk shape up to extent+1 or unlimited, arrays and views, nonzero file offsets, against an abstract concatenated array",
   assumptions=['the composition of the per-record contracts over the sequence of boxes (the chunk loop visits the same boxes in the same order for writing and reading, C02) is an induction done on paper', 'std::fstream is a byte sequence with one position; I/O errors do not occur']),
 'C07': dict(verify=[], native=['c07.cc'], level='exploration',
   text="bounded: RTree histories (insert, update, rebuild, queries) of dims 1..3 against a list of boxes"),
 'C08': dict(verify=['c08d.cc'], native=['c08.cc'], level='proof',
   text="MemoryPool: the representation invariant of the doubly-linked slot lists (ghost list membership and position) is kept by remove_from_slot_list/add_to_slot_list_back/front, get_empty_slot_front hands out a slot that is not in use, free_slot/get_empty_slot_front/grow/reset leave elements and the other slots alone, loop_over_elements_*/apply visit the k-th slot of the list at step k: pools of any size up to 2^40, any list contents; bounded (native): constructor, fill_elements and whole operation histories against a reference model",
   trusted=['std::__do_uninit_copy and std::__uninitialized_default_n (moving and creating the elements of a std::vector) in grow and reset']),
 'C09': dict(verify=['c09d.cc'], native=['c09.cc'], level='proof',
   text="Cache: footprint contracts of mark_as_newest/mark_as_oldest/get/contains/has_free_slot/insert_no_overwrite/insert_ref_no_overwrite/evict/evict_oldest_from_full_cache for lists of any length (every configuration of the entry, its neighbours and the ends of the list; everything else is the frame); bounded: traversals of up to 4 entries deductively, the constructor and whole operation histories natively against a reference LRU model",
   trusted=['std::unordered_map is taken by its contract (a mapping; verified code sees a model of it restricted to the keys at hand)'],
   assumptions=['frame rule: the list operations follow no link beyond the neighbours of the entry and the two ends (a longer access would be reported as a dereference of null)']),
 'C18': dict(verify=[], native=['c18.cc'], level='exploration',
   text="bounded: exported .npy files read back by an independent parser"),
 'C10': dict(verify=['c10d.cc', 'c10e.cc'], native=['c10.cc'], level='proof', secs=12, thorough_only=['extents_3'],
   text="ChunkCache (RegisterNewChunk/RemoveChunk/ReplaceChunk/RetrieveChunk/AppendSlice/FlushCache with deserialize_into_cache, insert_into_cache, sync_cache_element_with_disk, descope_cache_element, get_abs_path): the invariant that file and cache together hold all of every chunk is kept for any two chunks in any states, any cache depth (also none), chunks with and without file, slices along two axes; ChunkMetadata, ChunkIndex (RegisterChunk, ImportIndex, load_and_rebuild_index, Map, extents) and ChunkLibrary (operator[], FillArray, index_loop_over_elements, RegisterChunk, AppendSlice, SwapAxes), MoveCache/ImportCache/ClearCache, dims 1..3, arbitrary boxes, any two disjoint chunks and one arbitrary element",
   trusted=['the file system (paths, open, exists, remove, copy, rename) and std::unordered_map are taken by their contracts'],
   assumptions=['frame rule: the chunks (files, cache entries) that are not followed are not touched by an operation on the followed ones; lists of chunks are covered by any two of them, the induction over longer lists is done on paper', 'chunk ids fit into 32 bits', 'FlushIndex and the composition of moves and imports with the file system are checked natively only']),
 'C11': dict(verify=['c11d.cc'], native=['c11.cc'], level='proof', secs=12,
   text="RebuildChunks and RebuildChunksPartial (all overloads, both kinds of boundary rule, with and without a shift of the output), index_loop_over_penetrating_chunk_elements, FillArray and Arr views as used by them, dims 1..3: one arbitrary box of the partition and one arbitrary cell of its chunk (overlap included) of an array of one chunk or any two disjoint ones, null or not, with any overlap: inside cells hold the element of the array, outside cells what the rule gives for that index, the rule is asked for outside cells only and with the right cell; the chunk goes to its place in the new library with its overlap; RebuildChunks replaces the contents only after everything is rebuilt. That the boxes partition the region is the index_loop_over_chunks contract of C02",
   trusted=['the file system and the containers as in C10; FillArray/Arr fill and copy primitives as contracted in C03'],
   assumptions=['longer lists of chunks are covered by any two of them (frame rule, on paper)', 'the extents of the array are those of the extents contract of C10', 'an index outside of the array along several axes may be given to the boundary rule several times; the rule is taken to give the same value each time', 'indices below 2^28, overlaps up to 2^20']),
 'C15': dict(verify=['c15d.cc'], native=['c15.cc'], kind='asan2', level='proof', secs=14,
   assumptions=['floating-point arithmetic treated as exact real arithmetic', 'the Green\'s-function grid has fewer than 2^20 samples per axis and the sampling interval is more than 1e-6 grid intervals', 'the chunk found for an index contains it and has at least the overlap the kernel needs (contracts of C10)', 'RetrieveChunk returns the data of the asked-for chunk (contracts of C07/C09)'],
   trusted=['Interpolation::interpolate taken by its contract (C13)', 'ChunkIndex::GetChunk and ChunkCache::RetrieveChunk taken by contract'],
   text="CylindricalGreensFunction::accumulate_inner_product in exact real arithmetic, any number of samples, any chunking (present, absent or all-null chunks at every step), both kernels, both out-of-domain modes: every sample of a chunk with data is interpolated at its own place in that chunk and accumulated exactly once with field . source x weight, the others are stepped over, and an exception is raised only when asked for; bounded: accumulate_inner_product and apply_accumulate on random Green's functions, chunkings, trajectories and sampling grids against a direct double-precision evaluation of the sum (samples within rounding distance of the edge of the domain are not examined)"),
 'C12': dict(verify=['c12.cc'], native=['c12.cc'], level='proof', secs=12,
   text="SpatialSymmetry::Cylindrical<float>::boundary_evaluator on chunks of arbitrary shape (extents up to 2^18), start indices up to +-2^28, any cell: mirrored and zero case"),
 'C13': dict(verify=['c13.cc'], native=['c13.cc'], level='proof', secs=10, thorough_only=['keys_[12]_2'],
   text="Interpolation::Kernel::Keys/Linear::kern for every fraction in exact real arithmetic (tolerance 1e-6 for the rounded constants); Interpolation::interpolate for arrays of arbitrary extents (up to 2^18) at arbitrary admissible positions, arbitrary kernels of support 1 and 2, vec_dims 1 and 2; bounded: one or two output samples per call (1, 2 or 5 natively)",
   assumptions=['floating-point arithmetic treated as exact real arithmetic', 'std::sqrt(7.0) in constant expressions evaluated by Newton iteration (clang does not fold it)', 'the number of output samples per interpolate() call is bounded by 2 in the verified contracts']),
 'C14': dict(verify=['c14.cc'], native=['c14.cc'], level='proof',
   text="TrapezoidalRule::fill_weights on std::vector<float>, arbitrary a < b <= N up to 2^40"),
 'C16': dict(verify=['c16.cc'], native=['c16.cc'], level='proof', thorough_only=['_3_2', 'downsample_3_1'],
   text="Downsampling::downsample/get_downsampled_shape and the range helpers, dims 1..3, starts up to 2^40, factors up to 2^20, extents up to 2^30/2^24/2^18, with the element loop taken by its contract (C02)"),
 'C17': dict(verify=['c17.cc'], native=['c17.cc'], level='proof', secs=6,
   text="ChunkUtils/BoundingBox predicates and VectorUtils min/max, dimensions 1..3, arbitrary corners up to 2^40 (overlaps: non-empty boxes); product statements (volume, overlap volume) for extents up to 2^20"),
}
NOT_APPLICABLE = {
 'C19': 'the MEEP library is not installed and the property is a statement about PDE discretisation error, which no contract within reach of a deductive verifier can express',
 'C20': 'convergence of floating-point series and quadratures to transcendental functions; the verifier treats floating point as opaque or as exact reals and has no theory of rounding error or of these functions',
}
