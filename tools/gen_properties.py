#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property's wording changes)."""
import json, os
I = "eisvogel/core/impl/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[I+f if '/' not in f else f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=a, meaning=b, where=c) for a,b,c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Array indexing is in-bounds, injective, row-major; views alias the parent",
 "For every array shape, every in-range index designates vec_dims consecutive elements lying inside the array's own storage, the first one at row-major position (last index fastest), and distinct in-range indices designate disjoint elements. An in-range element (i) of a view taken from start index s is exactly the parent's element (s+i): it reads what the parent holds and a write through either is seen by the other.",
 ["inputs"], "all array shapes, element sizes, in-range indices, view ranges (also views of views)",
 "testNDVecArray uses a handful of small shapes; in-boundsness and injectivity are universally quantified over shapes and index pairs.",
 ["NDVecArray.hh", "NDVecArray.hxx", "VectorView.hh", "Vector.hh"],
 [("ComputeStrides / ComputeFlatInd / operator[] / View", I+"NDVecArray.hh")],
 [("m_strides, m_offset, m_shape", "map from index to storage position", I+"NDVecArray.hh")],
 ["NDVecArray::operator[]", "NDVecArray::View"])

prop("C02", "Index loops visit every element once; chunk loops partition the range",
 "Iterating over a half-open index range [begin, end) calls the worker exactly once for every index of the range, in row-major order, and for no other index; element loops over an array hand the worker the element that belongs to the index. Iterating over the range in chunks hands out non-empty boxes that lie inside the range, are pairwise disjoint, together cover it, and are never longer than the requested chunk size along any axis (the only shorter ones being those cut off by the end of the range).",
 ["inputs"], "all begin/end/chunk-size vectors with positive chunk sizes (sizes too large to matter, up to the 'infinite' one, included), empty ranges included",
 "Tests iterate over a few small cubes and cubic chunk sizes; exactly-once over every begin/end/chunk size is universal.",
 ["IteratorUtils.hh", "NDVecArray.hxx"],
 [("index_loop_over_elements(_dimension), index_loop_over_chunks(_dimension)", I+"IteratorUtils.hh"),
  ("loop_over_elements, index_loop_over_elements", I+"NDVecArray.hxx")], None,
 ["IteratorUtils::index_loop_over_elements", "IteratorUtils::index_loop_over_chunks", "NDVecArray::index_loop_over_elements", "NDVecArray::loop_over_elements"])

prop("C03", "Bulk array operations move exactly the right elements and nothing else",
 "Filling a region, copying a region between arrays, copying/assigning a whole array (also when the source is a view), filling a column, appending along axis 0 and swapping two axes each produce, at every index, exactly the element their definition prescribes, and leave every element outside the target region unchanged. The all-null query answers true exactly when every element of the array (or view) is zero.",
 ["inputs"], "all shapes, contents, regions and offsets that fit; sources that own their data or are views",
 "testNDVecArray checks one or two regions of cubic owning arrays; the frame condition and view sources are never checked.",
 ["NDVecArray.hxx", "NDVecArray.hh"],
 [("fill, fill_from, fill_from<axis>, operator=, copy constructor, Append<0>, SwapAxes, IsAllNull, resize, clear", I+"NDVecArray.hxx")], None,
 ["NDVecArray public interface"])

prop("C04", "Serialized values and metadata round-trip bit-exactly, big-endian on disk",
 "For every 32/64-bit integer, float, double, vector, fixed-size array, string, map and metadata record (chunk description, array and chunk stream headers, Green's function description) deserializing the bytes that serialization wrote returns the same value bit for bit, and consumes exactly the bytes written. Integers and floating-point numbers are stored most significant byte first, whatever the host.",
 ["inputs"], "all values of each serializable type, any container length, any position in the stream",
 "No existing test covers serialization on its own; round-trip over all 2^64 values and any length is universal.",
 ["DefaultSerializationTraits.hxx", "Serialization.hh", "Serialization.hxx", "Vector.hxx", "DistributedNDVecArray.hxx", "NDVecArrayStreamer.hxx", "GreensFunction.hxx"],
 [("Traits<...>::serialize / deserialize", I+"DefaultSerializationTraits.hxx"), ("htonll / ntohll", I+"Serialization.hxx")], None,
 ["stor::Traits<T>::serialize", "stor::Traits<T>::deserialize"])

prop("C05", "Dense and null-suppressed encodings are lossless and fit their buffer",
 "For every array (or view) content, decoding the dense encoding returns every element bit-exactly, and decoding the null-suppressed encoding returns every non-null element bit-exactly and every null element as zero. Neither encoding ever writes outside the buffer size computed in advance for that shape, and decoding consumes exactly the number of words that encoding produced.",
 ["inputs"], "all shapes, all null/non-null patterns (leading, trailing, alternating, all-null, none), all bit patterns",
 "testCompression samples random arrays and only prints on a mismatch; worst-case alternating patterns and buffer bounds are never tried.",
 ["NDVecArraySerialization.hh", "MathUtils.hh"],
 [("dense::to_buffer / from_buffer, nullsup::suppress_null / desuppress_null / calculate_required_buflen", I+"NDVecArraySerialization.hh")],
 [("num_nulls", "length of the current run of null elements", I+"NDVecArraySerialization.hh")],
 ["nullsup::*", "dense::*"])

prop("C06", "Streamed arrays read back exactly; appending slices concatenates or refuses",
 "An array written to a stream (either mode, any well-formed serialization chunk size) reads back with the same shape and contents. Appending a slice along the outermost axis yields a stream that reads back as the concatenation, for every sequence of appends that the streamer accepts; it raises an error and does not write when the array was marked final, when an earlier array or slice did not divide into full serialization chunks, when the shapes do not allow concatenation, or when the serialization chunk specifies no extent at all.",
 ["inputs", "histories"], "all shapes, serialization chunk sizes, modes, contents and append histories along axis 0",
 "Existing tests append with a serialization chunk of one slice only; error paths and other chunk sizes are not exercised.",
 ["NDVecArrayStreamer.hxx", "NDVecArrayStreamer.hh", "NDVecArraySerialization.hh"],
 [("serialize, deserialize, append_slice, mark_as_final, permits_equally_sized_serialization_chunks", I+"NDVecArrayStreamer.hxx")],
 [("access_mode", "whether the stream may still be modified", I+"NDVecArrayStreamer.hxx")],
 ["NDVecArrayStreamer public interface"])

prop("C07", "Spatial index finds exactly the stored entries that contain or overlap a query",
 "After any sequence of insertions, bounding-box updates, rebuilds and clears on pairwise disjoint boxes, a point query returns the entry whose box contains the point (start inclusive, end exclusive) and nothing if there is none, and a range query returns every entry overlapping the range once and no other. Listing or applying a worker to all entries yields every stored entry once, and the overall bounding box is the smallest box around all entries.",
 ["histories", "inputs"], "all histories of insert/update/rebuild/clear, also on an empty index, all query points and ranges",
 "testRStarTree checks one random workload; tree shapes reached by splits and reinsertions depend on the whole history.",
 ["RStarTree.hh", "RStarTree.hxx"],
 [("InsertElement, Search, UpdateBoundingBox, RebuildSTR, GetAllEntries, Apply, Clear", I+"RStarTree.hxx"),
  ("BoundingBox", I+"RStarTree.hxx")],
 [("m_nodes, m_entries, m_root_slot", "the tree", I+"RStarTree.hh")],
 ["RStarTree public interface"])

prop("C08", "The slot pool never hands out a slot in use and iterates over live slots only",
 "For every sequence of slot requests, frees, element insertions and resets, a newly handed-out slot is not currently in use, the contents of slots in use are never disturbed (growth included), and iterating the pool visits every slot in use exactly once and no freed slot.",
 ["histories"], "all request/free/reset histories and initial sizes, growth included",
 "The pool is only exercised indirectly by the tree test; reuse after free in arbitrary order is history-dependent.",
 ["RStarTree.hh", "RStarTree.hxx"],
 [("MemoryPool::get_empty_slot_front, free_slot, grow, reset_slot_lists, iterators", I+"RStarTree.hxx")],
 [("m_free_start, m_alloc_start, m_alloc_end, m_slots", "doubly linked free and allocated lists", I+"RStarTree.hh")],
 ["MemoryPool"])

prop("C09", "The LRU cache returns the stored payload and evicts in recency order",
 "For every sequence of inserts, lookups, evictions and listings, a cached key yields the payload last stored under it and is reported as contained until it is evicted; the number of entries never exceeds the depth and a free slot is reported exactly when there is one. When the cache is full the entry offered for eviction is the least recently inserted or accessed one, and iteration old-to-new (new-to-old) visits every cached entry once in (reverse) recency order.",
 ["histories"], "all operation histories over any key set and any depth >= 1",
 "No dedicated cache test exists; recency order depends on the whole history.",
 ["Cache.hh", "Cache.hxx"],
 [("insert_ref_no_overwrite, get, evict, evict_oldest_from_full_cache, mark_as_newest, mark_as_oldest", I+"Cache.hxx")],
 [("m_oldest, m_newest, prev/next links, m_accessor", "recency list and key map", I+"Cache.hh")],
 ["Cache public interface"])

prop("C10", "A distributed array reads back what was written, whatever the cache did",
 "After any sequence of chunk registrations, slice appends, region or element reads, flushes, axis swaps, moves, imports and close/reopen cycles, every element read (single element, region copy or iteration) equals the value the abstract array has at that index. The result does not depend on the cache depth, on which chunks happened to be evicted, or on whether all-zero chunks were stored explicitly.",
 ["histories", "configurations"], "all operation histories, cache depths 0..n, serialization chunk sizes, overlaps, hints",
 "testDistributedNDVecArray checks a few fixed scripts with one cache depth; eviction/append/reopen interleavings are unbounded.",
 ["DistributedNDVecArray.hh", "DistributedNDVecArray.hxx", "Cache.hxx", "NDVecArrayStreamer.hxx"],
 [("ChunkLibrary, ChunkCache (insert/descope/sync), ChunkIndex", I+"DistributedNDVecArray.hxx")],
 [("op_to_perform", "pending write-back per cached chunk", I+"DistributedNDVecArray.hh")],
 ["DistributedNDVecArray public interface"])

prop("C11", "Rechunking keeps every value; overlaps agree with neighbours and boundary rule",
 "Rebuilding the chunks of an array (or of part of it) into any chunk shape and overlap leaves every element unchanged, and the resulting chunks partition the region into boxes of at most the requested shape. Each overlap cell of a rebuilt chunk that lies inside the original array holds that array's element, and each one outside holds what the supplied boundary rule gives for that index.",
 ["inputs", "configurations"], "all array shapes, source chunkings, requested chunk shapes, overlaps and boundary rules",
 "testDistributedNDVecArray rechunks cubic arrays with cubic chunks; corner cells and non-dividing shapes are not checked.",
 ["DistributedNDVecArray.hxx", "Symmetry.hxx", "IteratorUtils.hh"],
 [("RebuildChunksPartial, index_loop_over_penetrating_chunk_elements, FillArray", I+"DistributedNDVecArray.hxx")], None,
 ["DistributedNDVecArray::RebuildChunks", "DistributedNDVecArray::RebuildChunksPartial"])

prop("C12", "Cylindrical boundary rule: mirror at negative radius, zero elsewhere outside",
 "For an index outside the array with negative radial coordinate r, the cylindrical boundary rule yields the element at (|r|, z, t) of the same chunk; for any other index outside the array it yields the zero vector. It changes nothing but the element it was asked to fill.",
 ["inputs"], "all chunk positions and shapes, all boundary indices whose mirror image lies in the chunk",
 "Exercised only indirectly by a rechunking test with overlap 1-2.",
 ["Symmetry.hxx", "Symmetry.hh"],
 [("SpatialSymmetry::Cylindrical::boundary_evaluator", I+"Symmetry.hxx")], None,
 ["SpatialSymmetry::Cylindrical"])

prop("C13", "Interpolation is exact at samples, preserves constants, uses the right stencil",
 "In exact arithmetic, both interpolation kernels have weights that sum to one for every fractional position, give weight one to the sample itself at fraction zero and reproduce linear data; the cubic kernel also reproduces quadratic data. Interpolating an array at any admissible fractional position combines exactly the elements within the kernel support around it, with the tensor-product weights, for each requested output sample, and touches no other element.",
 ["inputs"], "all fractional positions in [0,1), all admissible positions, steps, sample counts and array contents",
 "testNDVecArrayInterpolation prints values without checking them.",
 ["Interpolation.hxx", "Interpolation.hh"],
 [("Kernel::Linear::kern, Kernel::Keys::kern, interpolate, interpolate_1d", I+"Interpolation.hxx")], None,
 ["Interpolation::interpolate", "Interpolation::Kernel"])

prop("C14", "Trapezoidal quadrature weights do not depend on how the range is blocked",
 "For every number of quadrature points and every way of cutting the range into blocks, the weight filled in for a point is one half at the first and the last point of the whole range and one everywhere else, and no weight outside the block is written.",
 ["inputs"], "all block boundaries 0 <= a < b <= N and all N >= 2",
 "Only used through signal tests whose segments fit in one or two blocks.",
 ["Quadrature.hh"],
 [("TrapezoidalRule::fill_weights", I+"Quadrature.hh")], None,
 ["Quadrature::TrapezoidalRule::fill_weights"])

prop("C15", "Signal accumulation: causal, additive, every sample gets its own contribution",
 "Accumulating a line-current segment adds to each output sample exactly the trapezoidal sum over the segment's points of weight x current . interpolated Green's function at that sample's retarded time, counting only points with non-negative time difference, independent of block sizes, of how the Green's function is cut into chunks and of whether zero chunks are stored explicitly. It never touches other samples, and a request that leaves the Green's function domain raises an error or is ignored, as asked.",
 ["inputs", "configurations"], "all segments, sampling grids, chunkings (including all-null chunks), cache depths",
 "testCoulomb/testAskaryan check a few smooth trajectories to percent accuracy with no all-null chunks.",
 ["GreensFunction.hxx", "GreensFunction.hh", "Quadrature.hh", "Interpolation.hxx"],
 [("apply_accumulate, accumulate_inner_product, to_chunk_local_ind", I+"GreensFunction.hxx")], None,
 ["CylindricalGreensFunction::apply_accumulate", "CylindricalGreensFunction::accumulate_inner_product"])

prop("C16", "Downsampling keeps exactly the grid points on the coarse grid, block by block",
 "Downsampling an array that sits at any start index keeps exactly the elements whose global index is a multiple of the downsampling factor along every axis, stores each at the coarse index minus the reported coarse start index, and reports the matching shape (empty if no such index falls in the range). Hence the downsampled pieces of any partition of an array tile the downsampled whole.",
 ["inputs"], "all shapes, start indices, factors >= 1, any partition into blocks",
 "testDownsampling checks selected shapes; tiling over arbitrary partitions is universal.",
 ["NDVecArrayOperations.hxx", "NDVecArrayOperations.hh"],
 [("Downsampling::downsample, get_downsampled_shape", I+"NDVecArrayOperations.hxx")], None,
 ["Downsampling::downsample", "Downsampling::get_downsampled_shape"])

prop("C17", "Box geometry helpers agree with the set-theoretic definition",
 "For all non-empty boxes of array indices, the containment and overlap predicates are true exactly when the point lies in, respectively the boxes share an index; the computed overlap of two overlapping boxes is exactly their intersection, and has no extent along a direction in which the first box ends before the second begins; element-wise minimum/maximum compare by mathematical value even when signed and unsigned operands are mixed. A stretched bounding box is the smallest box containing its parts, and its volume, margin and overlap volume are the products, sums and intersection sizes of its extents.",
 ["inputs"], "all boxes with representable corners, all points",
 "No dedicated tests; negative signed operands and touching boxes are corner cases of an infinite input space.",
 ["ChunkUtils.hh", "Vector.hxx", "RStarTree.hxx", "DistributedNDVecArray.hxx"],
 [("ChunkUtils::contains/overlaps/get_chunk_overlap", I+"ChunkUtils.hh"), ("VectorUtils::min/max", I+"Vector.hxx"), ("BoundingBox", I+"RStarTree.hxx")], None,
 ["ChunkUtils", "VectorUtils", "BoundingBox"])

prop("C18", "Numpy export is a well-formed .npy file holding exactly the array",
 "For every owning array, the exported bytes form a version-1.0 .npy file: magic, version, a header that declares big-endian 4-byte floats in C order with shape (array shape..., vec_dims), padded so that data starts at a multiple of 64, followed by exactly the array's elements in row-major order, bit for bit.",
 ["inputs"], "all shapes and contents",
 "testNDVecArray writes one file without reading it back.",
 ["NDVecArray.hxx"],
 [("Traits<NDVecArray>::serialize_to_numpy", I+"NDVecArray.hxx")], None,
 ["stor::Traits<NDVecArray>::serialize_to_numpy"])

prop("C19", "Green's functions computed through MEEP satisfy the field equations",
 "The Green's function calculated by the MEEP-based calculator equals, up to discretisation, the electromagnetic response of the modelled antenna in the given geometry.",
 ["inputs"], "all geometries, antennas, resolutions",
 "No MEEP test runs in this build.",
 ["eisvogel/meep/MEEPCylindricalGreensFunctionCalculator.hh"],
 [("MEEPCylindricalGreensFunctionCalculator", "eisvogel/meep/impl")], None, ["MEEP output"])

prop("C20", "Shower and special-function numerics match their analytic definitions",
 "The incomplete gamma function and the analytic Green's function evaluator agree with their mathematical definitions to the requested relative tolerance.",
 ["inputs"], "all arguments in the domain",
 "Only spot-checked through physics tests.",
 ["MathUtils.hxx", "AnalyticGreensFunctionCalculator.hxx"],
 [("MathUtils::incomplete_gamma", I+"MathUtils.hxx")], None, ["MathUtils", "AnalyticGreensFunctionCalculator"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
