#include "ghostfs.hh"
// The chunk cache of a distributed array, for any number of chunks, any cache depth and any history (deductive only).
// Two arbitrary chunks are followed, X (worked on) and Y (any other one); the invariant says where the contents of a chunk are:
//   not cached                 all of it is in its file (or it is an all-null chunk without a file)
//   cached, nothing to do      all of it is in the cache and in the file
//   cached, to be serialized   all of it is in the cache
//   cached, to be appended     the file has the steps up to some step, the cache all slices appended since, along one axis
// Every operation is checked to preserve it for X and Y, to hand out the full contents, and never to ask the streamer (C06) or the
// cache (C09) for something outside of their contracts.
#ifdef EV_VERIFY
#include "Common.hh"
#include "Vector.hh"
#include "IteratorUtils.hh"
#include "TypeUtils.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "RStarTree.hh"
#define Cache real_Cache
#include "Cache.hh"
#undef Cache
#define NDVecArrayStreamer real_NDVecArrayStreamer
#include "NDVecArrayStreamer.hh"
#undef NDVecArrayStreamer
template <class K, class P> using Cache = std::ev_cache<K, P>;
namespace stor {
  // contract of the streamer (C06)
  template <template<typename, std::size_t, std::size_t> class ArrayT, class T, std::size_t D, std::size_t V> struct NDVecArrayStreamer {
    using A = ArrayT<T, D, V>;
    NDVecArrayStreamer(std::size_t) { }
    void serialize(std::ev_file& s, const A& a, const Vector<std::size_t, D>&, const StreamerMode&) {
      ev_check(s.out & s.begin, "a chunk is written to the start of its file"); s.begin = false;
      s.f->d = evg::Data{a.tag, a.from, a.to, a.zero}; s.f->exists = true; for(std::size_t k = 0; k < D; k++) s.f->axis_shape[k] = a.shape[k];
    }
    void append_slice(std::ev_file& s, const A& a, std::size_t axis, const StreamerMode&) {
      ev_check(s.in & s.out & s.begin, "a slice is appended to the file of the chunk"); s.begin = false;
      ev_check(a.tag == s.f->d.tag, "a slice is appended to its own chunk"); ev_check(a.from == s.f->d.to, "every slice is appended once, in order"); ev_check(axis < D && axis == a.axis, "a slice is appended along its axis");
      s.f->d.to = a.to; for(std::size_t k = 0; k < D; k++) if(k == axis) s.f->axis_shape[k] += a.shape[k];
    }
    void deserialize(std::ev_file& s, A& a) {
      ev_check(s.in & s.begin, "a chunk is read from the start of its file"); s.begin = false;
      a.tag = s.f->d.tag; a.from = s.f->d.from; a.to = s.f->d.to; a.zero = s.f->d.zero; for(std::size_t k = 0; k < D; k++) a.shape[k] = s.f->axis_shape[k];
    }
  };
}
#define filesystem evfs
#define fstream ev_file
#define private public
#include "DistributedNDVecArray.hh"
#undef private
#undef filesystem
#undef fstream
namespace {
  template <class T, std::size_t D, std::size_t V> struct Arr : evg::Data {
    using shape_t = Vector<std::size_t, D>; using ind_t = shape_t; using view_t = T*;
    shape_t shape; std::size_t axis;
    Arr(const shape_t& s) : shape(s), axis(D) { }
    const shape_t& GetShape() const { return shape; }
    template <std::size_t ax> static bool ShapeAllowsConcatenation(const shape_t& a, const shape_t& b) { bool ok = true; for(std::size_t k = 0; k < D; k++) if(k != ax) ok = ok & (a[k] == b[k]); return ok; }
    template <std::size_t ax> void Append(const Arr& s) {
      ev_check(tag == s.tag, "a slice is appended to its own chunk"); ev_check(to == s.from, "every slice is appended once, in order");
      if(from != 0) ev_check(axis == ax, "slices waiting to be appended are joined along their common axis");
      to = s.to; shape[ax] += s.shape[ax];
    }
    void resize(const shape_t& s) { shape = s; tag = 0; }
    Arr& operator=(const T& v) { zero = v == T(0); from = 0; to = 0; return *this; }
    bool IsAllNull() const { return zero; }
  };
  template <std::size_t D> struct W {
    using CC = ChunkCache<Arr, float, D, 1>; using A = Arr<float, D, 1>; using Meta = ChunkMetadata<D>; using Entry = CacheEntry<Arr, float, D, 1>; using Ind = Vector<std::size_t, D>;
    using S = std::evfs::path;
    struct Chunk { std::size_t tag, n; bool null; Meta meta; Ind ext; };   // n: number of steps so far; ext: extents of the stored array
    Chunk c[2]; alignas(CC) char mem[sizeof(CC)]; CC& cc; Entry* entry[3];
    static Meta some_meta() { Meta m; m.chunk_id = ev_any(); m.start_pos = 0; m.filepath.name = ev_any(); m.chunk_type = ev_any_bool() ? ChunkType::specified : ChunkType::all_null; return m; }
    static void any(Entry& e) { e.chunk_meta = some_meta(); e.chunk_data.tag = ev_any(); e.chunk_data.from = ev_any(); e.chunk_data.to = ev_any(); e.chunk_data.zero = ev_any_bool(); e.op_to_perform = CacheStatus::Nothing(); }
    W() : cc(*(CC*)mem) {
      std::size_t dir = ev_nat("dir", 1, EV_BIG); S wd; wd.name = dir; evg::dir = dir; Ind z(0u); Ind scs(1u);
      for(int i = 0; i < 3; i++) { entry[i] = new Entry(z); any(*entry[i]); }
      new(mem) CC(wd, ev_nat("cache size", 0, EV_BIG), z, scs, 1);
      auto& m = cc.m_cache; ev_check(m.depth == (cc.m_cache_size == 0 ? 1 : cc.m_cache_size), "the cache has the requested depth, at least one");
      std::size_t x = ev_nat("id", 0, 1u << 30), y = ev_nat("other id", 0, 1u << 30); ev_assume(x != y);
      evg::known = 2;
      for(int i = 0; i < 2; i++) {
        m.e[i] = entry[i]; m.key[i] = i ? y : x; m.in[i] = false; m.slot[i] = i; evg::File& f = evg::files[i]; f.name = 101 + i; f.exists = ev_any_bool(); f.d = evg::Data{ev_any(), ev_any(), ev_any(), ev_any_bool()};
        Chunk& k = c[i]; k.tag = 11 + i; k.meta.chunk_id = m.key[i]; k.n = ev_nat(i ? "other steps" : "steps", 1, EV_BIG); k.meta.overlap = ev_nat("overlap", 0, 8);
        for(std::size_t d = 0; d < D; d++) { k.meta.shape[d] = ev_nat("shape", 1, EV_BIG); k.meta.start_ind[d] = ev_nat("start", 0, EV_BIG); k.meta.end_ind[d] = k.meta.start_ind[d] + k.meta.shape[d]; k.meta.loc_ind_offset[d] = k.meta.start_ind[d] - k.meta.overlap; k.ext[d] = k.meta.shape[d] + 2 * k.meta.overlap; }
      }
      m.e[2] = entry[2]; m.free_ = 2; m.count = ev_nat("cached", 0, m.depth);
    }
    void type(int i, bool null) { Chunk& k = c[i]; k.null = null; k.meta.chunk_type = null ? ChunkType::all_null : ChunkType::specified; k.meta.filepath = S(); if(!null) k.meta.filepath.name = evg::files[i].name; if(null) k.n = 1; }
    void holds(evg::Data& d, int i, std::size_t from, std::size_t to) { d.tag = c[i].tag; d.from = from; d.to = to; d.zero = c[i].null; }
    void on_disk(int i, std::size_t to, const Ind& ext) { evg::File& f = evg::files[i]; f.exists = true; holds(f.d, i, 0, to); for(std::size_t d = 0; d < D; d++) f.axis_shape[d] = ext[d]; }
    // kind: 0 not cached, 1 nothing to do, 2 to be serialized, 3.. to be appended along axis kind - 3
    void state(int i, int kind) {
      Chunk& k = c[i]; auto& m = cc.m_cache;
      if(kind == 0) { if(!k.null) on_disk(i, k.n, k.ext); return; }
      m.in[i] = true; Entry& e = *entry[i]; e.chunk_meta = k.meta; holds(e.chunk_data, i, 0, k.n); e.chunk_data.shape = k.ext;
      if(kind == 1) { if(!k.null) on_disk(i, k.n, k.ext); else if(ev_any_bool()) e.chunk_data.tag = 0; e.op_to_perform = CacheStatus::Nothing(); }
      if(kind == 2) e.op_to_perform = CacheStatus::Serialize();
      if(kind >= 3) {
        std::size_t ax = kind - 3, d = ev_nat(i ? "other steps on disk" : "steps on disk", 1, EV_BIG), w = ev_nat("pending extent", 1, EV_BIG); ev_assume(d < k.n); ev_assume(w < k.meta.shape[ax]);
        Ind de = k.ext, pe = k.ext; de[ax] -= w; pe[ax] = w; on_disk(i, d, de); holds(e.chunk_data, i, d, k.n); e.chunk_data.shape = pe; e.chunk_data.axis = ax; e.op_to_perform = CacheStatus::Append(ax);
      }
    }
    void full(const evg::Data& d, int i, const char* what) { ev_check((d.tag == c[i].tag) | (c[i].null & d.zero), what); if(!c[i].null) { ev_check(d.from == 0, what); ev_check(d.to == c[i].n, what); } ev_check(d.zero == c[i].null, what); }
    void shape(const Ind& s, int i, const char* what) { for(std::size_t d = 0; d < D; d++) ev_check(s[d] == c[i].ext[d], what); }
    void file(int i) { evg::File& f = evg::files[i]; ev_check(f.exists, "the file of the chunk is there"); full(f.d, i, "the file has all of the chunk"); for(std::size_t d = 0; d < D; d++) ev_check(f.axis_shape[d] == c[i].ext[d], "the file has all of the chunk"); }
    void invariant(int i, bool cached_only_if = true) {
      auto& m = cc.m_cache; Chunk& k = c[i];
      if(!m.in[i]) { if(!k.null) file(i); return; }
      Entry& e = *m.e[m.slot[i]]; Meta& q = e.chunk_meta;
      ev_check(q.chunk_id == k.meta.chunk_id, "the cached chunk knows its id"); ev_check(q.filepath == k.meta.filepath, "the cached chunk knows its file"); ev_check((q.start_pos == k.meta.start_pos) & (q.chunk_type == k.meta.chunk_type), "the cached chunk knows its type");
      if(std::holds_alternative<CacheStatus::Nothing>(e.op_to_perform)) { full(e.chunk_data, i, "the cache has all of the chunk"); shape(e.chunk_data.shape, i, "the cache has all of the chunk"); if(!k.null) file(i); }
      else if(std::holds_alternative<CacheStatus::Serialize>(e.op_to_perform)) { full(e.chunk_data, i, "the cache has all of the chunk"); shape(e.chunk_data.shape, i, "the cache has all of the chunk"); }
      else {
        std::size_t ax = std::get<CacheStatus::Append>(e.op_to_perform).axis; evg::File& f = evg::files[i];
        ev_check(!k.null, "slices are appended to specified chunks"); ev_check(f.exists, "the file of the chunk is there"); ev_check(f.d.tag == k.tag & f.d.from == 0, "the file has the first part of the chunk");
        ev_check(e.chunk_data.tag == k.tag & e.chunk_data.from == f.d.to & e.chunk_data.to == k.n, "the cache has what is missing in the file"); ev_check(e.chunk_data.axis == ax, "slices wait to be appended along their axis");
        for(std::size_t d = 0; d < D; d++) { if(d == ax) ev_check(e.chunk_data.shape[d] + f.axis_shape[d] == k.ext[d], "the cache has what is missing in the file"); else ev_check(f.axis_shape[d] == k.ext[d], "the file has the first part of the chunk"); }
      }
    }
    void both() { invariant(0); invariant(1); auto& m = cc.m_cache; ev_check(m.count <= m.depth, "the cache is never overfull"); if(cc.m_cache_size == 0) ev_check(!m.in[0], "nothing is kept in the cache when there is none"); }
    void counts() { auto& m = cc.m_cache; ev_assume(m.count >= (std::size_t)m.in[0] + (std::size_t)m.in[1]); }
  };
  // f(world): for every state of X and Y
  template <std::size_t D, class F> void with(int kx, int ky, bool nx, bool ny, F f) { W<D> w; w.type(0, nx); w.type(1, ny); w.state(0, kx); w.state(1, ky); w.counts(); f(w); }
  // states of Y matter when it is pushed out of the cache or flushed along
  template <std::size_t D, class F> void others(int kx, bool nx, F f) {
    if(ev_bool("Y is all null")) { if(ev_bool("Y cached")) { if(ev_bool("Y fresh")) with<D>(kx, 2, nx, true, f); else with<D>(kx, 1, nx, true, f); } else with<D>(kx, 0, nx, true, f); }
    else if(ev_bool("Y cached")) {
      if(ev_bool("Y to be appended")) { if(D > 1 && ev_bool("Y along axis 1")) with<D>(kx, 4, nx, false, f); else with<D>(kx, 3, nx, false, f); }
      else if(ev_bool("Y fresh")) with<D>(kx, 2, nx, false, f); else with<D>(kx, 1, nx, false, f); }
    else with<D>(kx, 0, nx, false, f);
  }
  template <std::size_t D> void retrieve(int kx, bool nx) { others<D>(kx, nx, [](W<D>& w) {
    ev_cover("reached"); const auto& d = w.cc.RetrieveChunk(w.c[0].meta);
    w.full(d, 0, "all of the chunk is handed out"); w.shape(d.shape, 0, "all of the chunk is handed out");
    auto& m = w.cc.m_cache; ev_check(m.in[0], "the chunk stays in the cache while it is used"); ev_check(&d == &m.e[m.slot[0]]->chunk_data, "the cached chunk is handed out"); w.invariant(0); w.invariant(1); }); }
  template <std::size_t D> void add(bool nx) { others<D>(0, nx, [](W<D>& w) {
    evg::File& f = evg::files[0]; f.exists = ev_any_bool(); f.d = evg::Data{ev_any(), ev_any(), ev_any(), false};
    w.c[0].n = 1; typename W<D>::A a(w.c[0].ext); w.holds(a, 0, 0, 1); ev_cover("reached");
    w.cc.RegisterNewChunk(w.c[0].meta, a); w.both(); }); }
  template <std::size_t D> void replace(int kx, bool nx) { others<D>(kx, nx, [](W<D>& w) {
    auto old = w.c[0].meta; w.c[0].n = 1; w.c[0].tag = 21; for(std::size_t d = 0; d < D; d++) { w.c[0].meta.shape[d] = ev_nat("new shape", 1, EV_BIG); w.c[0].ext[d] = w.c[0].meta.shape[d] + 2 * w.c[0].meta.overlap; }
    typename W<D>::A a(w.c[0].ext); w.holds(a, 0, 0, 1); ev_cover("reached");
    w.cc.ReplaceChunk(old, w.c[0].meta, a); w.both(); }); }
  template <std::size_t D> void forget(int kx, bool nx) { others<D>(kx, nx, [](W<D>& w) { ev_cover("reached"); w.cc.RemoveChunk(w.c[0].meta); ev_check(!w.cc.m_cache.in[0], "a removed chunk is not cached"); w.invariant(1); }); }
  template <std::size_t D, std::size_t ax> void append(int kx) { others<D>(kx, false, [](W<D>& w) {
    typename W<D>::A s(w.c[0].ext); s.shape[ax] = ev_nat("slice", 1, EV_BIG); bool ok = true; for(std::size_t d = 0; d < D; d++) if(d != ax) { s.shape[d] = ev_nat("slice extent", 1, EV_BIG); ok = ok & (s.shape[d] == w.c[0].meta.shape[d]); }
    w.holds(s, 0, w.c[0].n, w.c[0].n + 1); s.axis = ax; auto m = w.c[0].meta; ev_assume(m.overlap == 0);   // appending is for chunks without overlap
    ev_throws_if(!ok); ev_cover("reached");
    w.cc.template AppendSlice<ax>(m, s);
    ev_check(ok, "a slice that does not fit is refused"); w.c[0].n++; w.c[0].ext[ax] += s.shape[ax]; w.both();
    for(std::size_t d = 0; d < D; d++) { ev_check(m.shape[d] == w.c[0].ext[d], "the metadata has the new extents"); ev_check(m.end_ind[d] == m.start_ind[d] + m.shape[d], "the metadata has the new end"); ev_check(m.start_ind[d] == w.c[0].meta.start_ind[d] & m.loc_ind_offset[d] == w.c[0].meta.loc_ind_offset[d], "the start of the chunk does not change"); } }); }
  template <std::size_t D> void flush(int kx, bool nx) { others<D>(kx, nx, [](W<D>& w) {
    ev_cover("reached"); w.cc.FlushCache(); for(int i = 0; i < 2; i++) { ev_check(!w.cc.m_cache.in[i], "nothing is cached after flushing"); w.invariant(i); } }); }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
#define KINDS(n, call) C(n##_away, call(0, false)) C(n##_synced, call(1, false)) C(n##_fresh, call(2, false)) C(n##_pending0, call(3, false)) C(n##_pending1, call(4, false)) C(n##_null_away, call(0, true)) C(n##_null_synced, call(1, true)) C(n##_null_fresh, call(2, true))
KINDS(retrieve, retrieve<2>) KINDS(replace, replace<2>) KINDS(flush, flush<2>) KINDS(forget, forget<2>)
C(add, add<2>(false)) C(add_null, add<2>(true))
#define AX(a) C(append##a##_away, append<2, a>(0)) C(append##a##_synced, append<2, a>(1)) C(append##a##_fresh, append<2, a>(2)) C(append##a##_pending0, append<2, a>(3)) C(append##a##_pending1, append<2, a>(4))
AX(0) AX(1)
#endif
