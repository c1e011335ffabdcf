// Chunk index, chunk library and distributed array over the ghost file system, with a ghost spatial index (C07) and ghost arrays
// (C01-C03) that follow one arbitrary element (deductive only).
#pragma once
#include "ghostfs.hh"
#ifdef EV_VERIFY
#include "Common.hh"
#include "Vector.hh"
#include "IteratorUtils.hh"
#include "TypeUtils.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#define RStarTree real_RStarTree
#include "RStarTree.hh"
#undef RStarTree
#define Cache real_Cache
#include "Cache.hh"
#undef Cache
#define NDVecArrayStreamer real_NDVecArrayStreamer
#include "NDVecArrayStreamer.hh"
#undef NDVecArrayStreamer
namespace stor { template <template<typename, std::size_t, std::size_t> class ArrayT, class T, std::size_t D, std::size_t V> struct NDVecArrayStreamer { using A = ArrayT<T, D, V>;
  NDVecArrayStreamer(std::size_t) { } void serialize(std::ev_file&, const A&, const Vector<std::size_t, D>&, const StreamerMode&) { } void append_slice(std::ev_file&, const A&, std::size_t, const StreamerMode&) { } void deserialize(std::ev_file&, A&) { } }; }
template <class K, class P> using Cache = std::ev_cache<K, P>;
namespace evg { inline bool flush = false; }
template <class C, std::size_t D, class P> struct RStarTree {
  using Ind = Vector<C, D>; struct Box { Ind s, e; };
  static inline P* store[4]; static inline std::size_t stores = 0;   // where inserted elements go
  P* e[4]; Box box[4]; std::size_t n = 0; std::size_t updates = 0; Ind updated; Box update;
  RStarTree(std::size_t) { }
  P& InsertElement(const P& x, const Ind& s, const Ind& t) { ev_check(stores < 4, "chunks are added to the index once"); P* q = store[stores++]; *q = x; e[n] = q; box[n] = Box{s, t}; n++; return *q; }
  static bool inside(const Ind& i, const Box& b) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (i[k] >= b.s[k]) & (i[k] < b.e[k]); return r; }
  static bool meets(const Ind& s, const Ind& t, const Box& b) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (s[k] < b.e[k]) & (b.s[k] < t[k]); return r; }
  P* Search(const Ind& i) { for(std::size_t k = 0; k < n; k++) if(inside(i, box[k])) return e[k]; return nullptr; }
  std::vector<std::reference_wrapper<const P>> Search(const Ind& s, const Ind& t) {
    std::vector<std::reference_wrapper<const P>> r; r.reserve(4); for(std::size_t k = 0; k < n; k++) if(meets(s, t, box[k])) r.push_back(*e[k]); return r; }
  void UpdateBoundingBox(const Ind& i, const Ind& s, const Ind& t) { updated = i; update = Box{s, t}; updates++; }
  template <class F> void Apply(F&& f) { for(std::size_t k = 0; k < n; k++) f(*e[k]); }
  void GetAllEntries(std::vector<P>&) { }
  BoundingBox<C, D> GetBoundingBox() { Ind s = box[0].s, t = box[0].e; for(std::size_t k = 1; k < n; k++) for(std::size_t d = 0; d < D; d++) { s[d] = std::min(s[d], box[k].s[d]); t[d] = std::max(t[d], box[k].e[d]); } return BoundingBox<C, D>(s, t); }
  void Clear() { n = 0; } bool Empty() { return n == 0; }
};
#define filesystem evfs
#define fstream ev_file
#define private public
#define protected public
#include "DistributedNDVecArray.hh"
#undef private
#undef protected
#undef filesystem
#undef fstream
namespace evg {
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  template <std::size_t D> bool in(const Ind<D>& i, const Ind<D>& a, const Ind<D>& b) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (i[k] >= a[k]) & (i[k] < b[k]); return r; }
  template <std::size_t D> bool same(const Ind<D>& a, const Ind<D>& b) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (a[k] == b[k]); return r; }
  // an array, as far as one element of it is concerned: at `at` it has the element `src` of the array with the number `from` (0: zero)
  template <class T, std::size_t D, std::size_t V> struct Arr {
    using shape_t = Ind<D>; using ind_t = shape_t; struct view_t { const Arr* a; ind_t i; };
    shape_t shape; std::size_t id = 0; ind_t at, src; std::size_t from = ~0ull; bool null = false; std::size_t visits = 0;
    static inline ind_t follow; static inline bool following = false;
    Arr(const shape_t& s) : shape(s), at(s), src(s) { if(following) at = follow; }
    const shape_t& GetShape() const { return shape; }
    template <std::size_t ax> static bool ShapeAllowsConcatenation(const shape_t&, const shape_t&) { return true; }
    template <std::size_t ax> void Append(const Arr&) { }
    void resize(const shape_t& s) { shape = s; }
    void clear() { from = 0; }
    Arr& operator=(const T& v) { ev_check(v == T(0), "only zero chunks are filled"); from = 0; return *this; }
    bool IsAllNull() const { return null; }
    bool has_index(const ind_t& i) const { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & (i[k] < shape[k]); return r; }
    void valid(const ind_t& a, const ind_t& b, const shape_t& s) const { for(std::size_t k = 0; k < D; k++) ev_check((a[k] < b[k]) & (b[k] <= s[k]), "a region of the array"); }
    void fill(const ind_t& a, const ind_t& b, const T& v) { valid(a, b, shape); ev_check(v == T(0), "only zero chunks are filled"); if(in<D>(at, a, b)) from = 0; }
    void fill_from(const Arr& o, const ind_t& a, const ind_t& b, const ind_t& to) { valid(a, b, o.shape); ind_t end = to; for(std::size_t k = 0; k < D; k++) end[k] = to[k] + (b[k] - a[k]); valid(to, end, shape); if(in<D>(at, to, end)) { from = o.id; for(std::size_t k = 0; k < D; k++) src[k] = at[k] - to[k] + a[k]; } }
    view_t operator[](const ind_t& i) const { ev_check(has_index(i), "an element of the array"); return view_t{this, i}; }
    // the worker is run once for every index of the region: here, for the one at hand (if it lies in the region)
    template <class F> void index_loop_over_elements(const ind_t& a, const ind_t& b, F&& f) const { valid(a, b, shape); if(in<D>(at, a, b)) f(at, (*this)[at]); }
    template <std::size_t p, std::size_t q> void SwapAxes(Arr& o) const { ev_check(&o != this, "the swapped chunk is a new one"); o.id = id + 1000; o.shape = shape; std::swap(o.shape[p], o.shape[q]); o.null = null; }
  };
  template <std::size_t D> struct Lib {
    using A = Arr<float, D, 1>; using L = ChunkLibrary<Arr, float, D, 1>; using CC = ChunkCache<Arr, float, D, 1>; using CI = ChunkIndex<D>; using Meta = ChunkMetadata<D>; using Tree = RStarTree<std::size_t, D, Meta>; using I = Ind<D>; using path = std::evfs::path; using DA = DistributedNDVecArray<Arr, float, D, 1>;
    static inline Lib* w; static constexpr std::size_t HI = 1ull << 40;
    alignas(DA) char mem[sizeof(DA)]; L& lib; CI& index; Meta* meta[2]; A* chunk[2]; std::size_t next, count;
    static Meta* fresh() { return new Meta(); }
    static I ind(const char* n, std::size_t lo = 0, std::size_t hi = HI) { I r; for(std::size_t k = 0; k < D; k++) r[k] = ev_nat(n, lo, hi); return r; }
    static void some(Meta& m, std::size_t name) { m.chunk_type = ChunkType::specified; m.filepath = path(); m.filepath.name = name; m.start_pos = 0; m.overlap = ev_nat("overlap", 0, 1u << 20); for(std::size_t k = 0; k < D; k++) { m.start_ind[k] = ev_nat("start", 0, HI); m.shape[k] = ev_nat("shape", 1, HI); m.end_ind[k] = m.start_ind[k] + m.shape[k]; m.loc_ind_offset[k] = m.start_ind[k] - m.overlap; } }
    static void consistent(const Meta& m) { for(std::size_t k = 0; k < D; k++) { ev_check(m.end_ind[k] == m.start_ind[k] + m.shape[k], "start, shape and end of a chunk fit together"); ev_check(m.loc_ind_offset[k] + m.overlap == m.start_ind[k], "the first element of a chunk is behind its overlap"); } }
    static bool disjoint(const Meta& a, const Meta& b) { bool r = false; for(std::size_t k = 0; k < D; k++) r = r | (a.end_ind[k] <= b.start_ind[k]) | (b.end_ind[k] <= a.start_ind[k]); return r; }
    // n chunks in the index
    Lib(std::size_t n, bool null0, bool null1) : lib(*(L*)mem), index(lib.m_index) {
      w = this; count = n; path p; p.name = ev_nat("dir", 1, HI);
      for(std::size_t i = 0; i < 4; i++) Tree::store[i] = fresh(); Tree::stores = 0;
      new(mem) DA(p, 1, I(1u), I(1u));
      ev_check(!index.m_index_metadata_valid & index.m_chunk_tree.n == 0 & index.m_next_chunk_id == 0, "a new array is empty"); ev_check(lib.m_libdir == p, "the directory of the array");
      next = ev_nat("next id", 2, 1u << 30); index.m_next_chunk_id = next; index.m_index_metadata_valid = ev_any_bool(); index.m_shape = I((std::size_t)ev_any()); index.m_start_ind = I((std::size_t)ev_any()); index.m_end_ind = I((std::size_t)ev_any());
      for(std::size_t i = 0; i < n; i++) {
        Meta* m = fresh(); some(*m, 201 + i); meta[i] = m; m->chunk_id = ev_nat("id", 0, 1u << 30); ev_assume(m->chunk_id < next); if(i ? null1 : null0) { m->chunk_type = ChunkType::all_null; m->filepath = path(); }
        chunk[i] = new A(m->shape + 2 * m->overlap); chunk[i]->id = i + 1; chunk[i]->null = i ? null1 : null0;
        Tree& t = index.m_chunk_tree; t.e[i] = m; t.box[i].s = m->start_ind; t.box[i].e = m->end_ind; t.n++;
      }
      if(n > 1) { ev_assume(disjoint(*meta[0], *meta[1])); ev_assume(meta[0]->chunk_id != meta[1]->chunk_id); }
      ev_replace("get_chunkfile_path", (void*)&filename); ev_replace("std::max<unsigned long>", (void*)&greater); ev_replace("std::min<unsigned long>", (void*)&smaller);
      ev_replace("::RetrieveChunk(", (void*)&retrieve); ev_replace("::RegisterNewChunk(", (void*)&register_new);
    }
    static path filename() { path p; p.name = ev_any(); ev_assume(p.name > 1000); return p; }   // a name not used before
    static const std::size_t& greater(const std::size_t& a, const std::size_t& b) { std::size_t x = a, y = b; return *new std::size_t(x < y ? y : x); }
    static const std::size_t& smaller(const std::size_t& a, const std::size_t& b) { std::size_t x = a, y = b; return *new std::size_t(y < x ? y : x); }
    static const A& retrieve(CC*, const Meta& m) { for(std::size_t i = 0; i < w->index.m_chunk_tree.n; i++) if(w->meta[i]->chunk_id == m.chunk_id) return *w->chunk[i]; ev_check(false, "only stored chunks are read"); return *w->chunk[0]; }
    static inline std::size_t registered, replaced; static inline Meta reg_meta; static inline const A* reg_chunk; static inline std::size_t rep_id[2]; static inline Meta rep_meta[2]; 
    static void register_new(CC*, const Meta& m, const A& a) { registered++; reg_meta = m; reg_chunk = &a; }
    static void replace_chunk(CC*, const Meta& m, const Meta& nm, const A& a) {
      for(std::size_t i = 0; i < w->count; i++) if(w->chunk[i]->id + 1000 == a.id) { ev_check(m.chunk_id == w->meta[i]->chunk_id & nm.chunk_id == m.chunk_id, "a chunk is replaced by its own data"); ev_check(same<D>(a.shape, nm.shape + 2 * nm.overlap), "the data of a chunk has its shape"); replaced++; rep_meta[i] = nm; rep_id[i] = a.id; } }
  };
}
#endif
