#include "ghostlib.hh"
// Chunk metadata, chunk index and chunk library: where an element is, which chunks a region needs and what of them goes where, which
// chunks there are after adding, importing, reloading, appending and swapping, and the extents of the array (deductive only).
// Reads follow one arbitrary element of the target; regions are covered by two arbitrary disjoint chunks (each chunk is handled on its
// own and only the one that contains the element changes it, so the rest of the chunks is the frame).
#ifdef EV_VERIFY
namespace {
  using evg::Ind; using evg::Lib; using evg::in; using evg::same;
  template <std::size_t D, class F> void pair(F f) {
    if(ev_bool("one chunk")) { if(ev_bool("null")) { Lib<D> w(1, true, false); f(w, 1); } else { Lib<D> w(1, false, false); f(w, 1); } }
    else { if(ev_bool("first null")) { Lib<D> w(2, true, false); f(w, 2); } else if(ev_bool("second null")) { Lib<D> w(2, false, true); f(w, 2); } else { Lib<D> w(2, false, false); f(w, 2); } }
  }
  template <std::size_t D> void metadata() {
    using Meta = ChunkMetadata<D>; Ind<D> s = Lib<D>::ind("start"), n = Lib<D>::ind("shape", 1); std::size_t o = ev_nat("overlap", 0, 1u << 20), id = ev_nat("id", 0, 1ull << 40); std::evfs::path p; p.name = ev_any();
    ChunkType t = ev_bool("null") ? ChunkType::all_null : ChunkType::specified; ev_cover("reached");
    Meta m(t, p, id, s, n, o); Lib<D>::consistent(m);
    ev_check(same<D>(m.start_ind, s) & same<D>(m.shape, n) & m.overlap == o & m.chunk_id == id & m.filepath == p & m.chunk_type == t & m.start_pos == 0, "the metadata is what was given");
    std::size_t g = ev_nat("growth", 0, 1ull << 40); m.template GrowChunk<0>(g); Lib<D>::consistent(m);
    for(std::size_t k = 0; k < D; k++) ev_check(m.shape[k] == n[k] + (k == 0 ? g : 0) & m.start_ind[k] == s[k], "a chunk grows at its end");
    if constexpr(D > 1) { Meta q = m; m.template SwapAxes<0, D - 1>(); Lib<D>::consistent(m);
      for(std::size_t k = 0; k < D; k++) { std::size_t j = k == 0 ? D - 1 : k == D - 1 ? 0 : k; ev_check(m.start_ind[k] == q.start_ind[j] & m.shape[k] == q.shape[j], "both axes are swapped"); } ev_check(m.overlap == o & m.chunk_id == id & m.filepath == p & m.chunk_type == t, "nothing else changes"); }
  }
  // ---- reading
  template <std::size_t D> void element() { pair<D>([](Lib<D>& w, std::size_t n) {
    Ind<D> g = Lib<D>::ind("index", 0, 1ull << 41); ev_assume(in<D>(g, w.meta[0]->start_ind, w.meta[0]->end_ind)); ev_cover("reached");
    auto v = w.lib[g];
    ev_check(v.a == w.chunk[0], "an element is read from the chunk that contains it"); for(std::size_t k = 0; k < D; k++) ev_check(v.i[k] == g[k] - w.meta[0]->start_ind[k] + w.meta[0]->overlap, "the element of the chunk at that index"); }); }
  template <std::size_t D> void region() { pair<D>([](Lib<D>& w, std::size_t n) {
    Ind<D> a = Lib<D>::ind("from"), ext = Lib<D>::ind("extent", 1), o = Lib<D>::ind("output"), s, j; for(std::size_t k = 0; k < D; k++) { s[k] = ev_nat("target", 1, 1ull << 42); ev_assume(o[k] + ext[k] <= s[k]); j[k] = ev_nat("element", 0, s[k] - 1); }
    typename Lib<D>::A t(s); t.at = j; t.from = 99; t.id = 98; Ind<D> e = a + ext; ev_cover("reached");
    w.lib.FillArray(t, a, e, o);
    bool asked = in<D>(j, o, o + ext), had = false; Ind<D> g = j - o + a;
    for(std::size_t i = 0; i < n; i++) {
      auto& m = *w.meta[i]; bool here = asked & in<D>(g, m.start_ind, m.end_ind); had = had | here;
      if(here) { if(m.chunk_type == ChunkType::all_null) ev_check((t.from == 0) | (t.from == i + 1), "elements of all-null chunks are zero"); else { ev_check(t.from == i + 1, "an element is copied from the chunk that contains it"); for(std::size_t k = 0; k < D; k++) ev_check(t.src[k] == g[k] - m.start_ind[k] + m.overlap, "the element of the chunk at that index"); } }
    }
    if(!had) ev_check(t.from == 99, "nothing else is touched"); }); }
  template <std::size_t D> void iterate(bool all) { pair<D>([=](Lib<D>& w, std::size_t n) {
    Ind<D> a = Lib<D>::ind("from"), ext = Lib<D>::ind("extent", 1), g = Lib<D>::ind("index", 0, 1ull << 41); Ind<D> e = a + ext; std::size_t seen[2] = {0, 0};
    for(std::size_t i = 0; i < n; i++) { w.chunk[i]->at = Lib<D>::ind("in chunk", 0, 1ull << 41); }
    ev_cover("reached");
    auto worker = [&](const Ind<D>& i, const auto& v) {
      ev_check(in<D>(i, a, e), "only elements of the region are visited");
      for(std::size_t q = 0; q < n; q++) if(v.a == w.chunk[q]) { ev_check(seen[q]++ == 0, "every element is visited once"); ev_check(in<D>(i, w.meta[q]->start_ind, w.meta[q]->end_ind), "every element is visited in the chunk that contains it"); for(std::size_t k = 0; k < D; k++) ev_check(i[k] + w.meta[q]->overlap == v.i[k] + w.meta[q]->start_ind[k], "an element is visited together with its index"); } };
    w.lib.index_loop_over_elements(a, e, worker);
    for(std::size_t q = 0; q < n; q++) { auto& m = *w.meta[q]; bool mine = true; Ind<D> at; for(std::size_t k = 0; k < D; k++) { at[k] = m.start_ind[k] + w.chunk[q]->at[k] - m.overlap; mine = mine & (w.chunk[q]->at[k] >= m.overlap); } mine = mine & in<D>(at, m.start_ind, m.end_ind) & in<D>(at, a, e); ev_check(seen[q] == (mine ? 1 : 0), "every element of the region is visited"); } }); }
  // ---- adding
  template <std::size_t D> void add(bool opt) { pair<D>([=](Lib<D>& w, std::size_t n) {
    Ind<D> s = Lib<D>::ind("new start"), x = Lib<D>::ind("new shape", 1); std::size_t o = ev_nat("new overlap", 0, 1u << 20); Ind<D> e = s + x; typename Lib<D>::A a(x + 2 * o); a.id = 50; a.null = ev_bool("new null"); Lib<D>::registered = 0; ev_cover("reached");
    w.lib.RegisterChunk(a, s, e, o, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    auto& t = w.index.m_chunk_tree; ev_check(t.n == n + 1, "one chunk is added"); auto& m = *t.e[n]; Lib<D>::consistent(m);
    ev_check(same<D>(t.box[n].s, s) & same<D>(t.box[n].e, e), "the chunk is found where it is"); ev_check(same<D>(m.start_ind, s) & same<D>(m.shape, x) & m.overlap == o, "the metadata of the chunk");
    for(std::size_t i = 0; i < n; i++) ev_check(m.chunk_id != w.meta[i]->chunk_id, "chunks have different ids"); ev_check(w.index.m_next_chunk_id > m.chunk_id, "chunks have different ids");
    if(!opt | !a.null) ev_check(m.chunk_type == ChunkType::specified, "only zero chunks may be left out"); if(m.chunk_type == ChunkType::all_null) ev_check(m.filepath.empty(), "a left-out chunk has no file"); else ev_check(!m.filepath.empty(), "a chunk has a file"); 
    ev_check(Lib<D>::registered == 1, "the data of the chunk is stored once"); ev_check(Lib<D>::reg_chunk == &a, "the data of the chunk is stored"); ev_check(Lib<D>::reg_meta.chunk_id == m.chunk_id & Lib<D>::reg_meta.filepath == m.filepath & Lib<D>::reg_meta.chunk_type == m.chunk_type, "the data of the chunk is stored under its metadata");
    ev_check(!w.index.m_index_metadata_valid, "the extents of the array are worked out again"); }); }
  template <std::size_t D> struct Ap { static inline Lib<D>* w; static inline std::size_t calls; static inline const void* slice; static inline std::size_t grow;
    static void append(typename Lib<D>::CC*, ChunkMetadata<D>& m, const typename Lib<D>::A& s) { calls++; ev_check(&m == w->meta[0], "the slice is appended to the chunk that ends before it"); ev_check(&s == slice, "the slice is appended"); m.template GrowChunk<0>(grow); } };
  template <std::size_t D> void append() { pair<D>([](Lib<D>& w, std::size_t n) {
    auto& m = *w.meta[0]; Ind<D> s = m.start_ind; s[0] = m.end_ind[0]; for(std::size_t k = 1; k < D; k++) { s[k] = ev_nat("at", 0, 1ull << 41); ev_assume(s[k] >= m.start_ind[k] & s[k] < m.end_ind[k]); }
    typename Lib<D>::A a(Lib<D>::ind("slice", 1)); Ap<D>::w = &w; Ap<D>::calls = 0; Ap<D>::slice = &a; Ap<D>::grow = ev_nat("growth", 1, 1ull << 40); ev_replace("::AppendSlice<0ul>(ChunkMetadata", (void*)&Ap<D>::append); bool null = m.chunk_type == ChunkType::all_null; ev_throws_if(null); ev_cover("reached");
    w.lib.template AppendSlice<0>(s, a); ev_check(!null, "nothing is appended to a left-out chunk");
    ev_check(Ap<D>::calls == 1, "the slice is appended once"); auto& t = w.index.m_chunk_tree; ev_check(t.updates == 1, "the index knows the new extents"); ev_check(in<D>(t.updated, t.box[0].s, t.box[0].e), "the index knows which chunk changed"); ev_check(same<D>(t.update.s, m.start_ind) & same<D>(t.update.e, m.end_ind), "the index knows the new extents"); ev_check(!w.index.m_index_metadata_valid, "the extents of the array are worked out again"); }); }
  // ---- swapping
  template <std::size_t D, std::size_t p, std::size_t q> void swap() { pair<D>([](Lib<D>& w, std::size_t n) {
    ev_replace("::ReplaceChunk(", (void*)&Lib<D>::replace_chunk); Lib<D>::replaced = 0; ChunkMetadata<D> old[2]; for(std::size_t i = 0; i < n; i++) old[i] = *w.meta[i]; ev_cover("reached");
    w.lib.template SwapAxes<p, q>();
    auto& t = w.index.m_chunk_tree; ev_check(t.n == n, "the chunks stay the same"); ev_check(Lib<D>::replaced == n, "the data of every chunk is swapped"); ev_check(!w.index.m_index_metadata_valid, "the extents of the array are worked out again");
    for(std::size_t i = 0; i < n; i++) { auto& m = *t.e[i]; Lib<D>::consistent(m); ev_check(same<D>(t.box[i].s, m.start_ind) & same<D>(t.box[i].e, m.end_ind), "the chunk is found where it is"); ev_check(m.chunk_id == old[i].chunk_id & m.filepath == old[i].filepath & m.chunk_type == old[i].chunk_type & m.overlap == old[i].overlap, "the chunks stay the same");
      for(std::size_t k = 0; k < D; k++) { std::size_t j = k == p ? q : k == q ? p : k; ev_check(m.start_ind[k] == old[i].start_ind[j] & m.shape[k] == old[i].shape[j], "both axes are swapped"); ev_check(Lib<D>::rep_meta[i].start_ind[k] == m.start_ind[k], "the data is stored under the new metadata"); } } }); }
  // ---- extents
  template <std::size_t D> void extents() { pair<D>([](Lib<D>& w, std::size_t n) {
    w.index.m_index_metadata_valid = false; ev_cover("reached"); Ind<D> s = w.index.get_start_ind(), e = w.index.get_end_ind(), sh = w.lib.GetShape(); std::size_t all = 1, sum = 0; bool whole;
    for(std::size_t i = 0; i < n; i++) { std::size_t v = 1; for(std::size_t k = 0; k < D; k++) v *= w.meta[i]->end_ind[k] - w.meta[i]->start_ind[k]; sum += v; }
    for(std::size_t k = 0; k < D; k++) { std::size_t lo = w.meta[0]->start_ind[k], hi = w.meta[0]->end_ind[k]; if(n > 1) { lo = std::min(lo, w.meta[1]->start_ind[k]); hi = std::max(hi, w.meta[1]->end_ind[k]); } ev_check(s[k] == lo, "the first index of the array"); ev_check(e[k] == hi, "the end of the array"); all *= hi - lo; }
    for(std::size_t k = 0; k < D; k++) { if(all == sum) ev_check(sh[k] == e[k] - s[k], "the shape of a contiguous array"); else ev_check(sh[k] == 0, "an array with gaps has no shape"); } }); }
  template <std::size_t D> void empty() { Lib<D> w(0, false, false); w.index.m_index_metadata_valid = false; ev_cover("reached"); Ind<D> s = w.index.get_start_ind(), e = w.index.get_end_ind(), sh = w.lib.GetShape(); for(std::size_t k = 0; k < D; k++) ev_check(s[k] == 0 & e[k] == 0 & sh[k] == 0, "an empty array has no extents"); }
  // ---- index files
  template <std::size_t D> struct File { static inline ChunkMetadata<D> rec[2]; static inline std::size_t asked;
    static std::vector<ChunkMetadata<D>> load(ChunkIndex<D>*, std::evfs::path p) { asked = p.name; std::vector<ChunkMetadata<D>> r; r.reserve(2); r.push_back(rec[0]); r.push_back(rec[1]); return r; } };
  template <std::size_t D> void stored(Lib<D>& w, std::size_t n, bool same_ids) {
    auto& t = w.index.m_chunk_tree; ev_check(t.n == n + 2, "every chunk of the file is added to the index");
    for(std::size_t i = 0; i < 2; i++) { auto& m = *t.e[n + i]; auto& r = File<D>::rec[i]; ev_check(m.filepath == r.filepath & m.chunk_type == r.chunk_type & m.overlap == r.overlap & same<D>(m.shape, r.shape) & same<D>(m.start_ind, r.start_ind), "chunks keep their metadata"); Lib<D>::consistent(m); ev_check(same<D>(t.box[n + i].s, m.start_ind) & same<D>(t.box[n + i].e, m.end_ind), "the chunk is found where it is"); if(same_ids) ev_check(m.chunk_id == r.chunk_id, "chunks keep their ids"); for(std::size_t j = 0; j < n; j++) ev_check(m.chunk_id != w.meta[j]->chunk_id, "chunks have different ids"); ev_check(m.chunk_id < w.index.m_next_chunk_id, "ids of chunks are not given out again"); }
    ev_check(t.e[n]->chunk_id != t.e[n + 1]->chunk_id, "chunks have different ids");
  }
  template <std::size_t D> void records() { for(std::size_t i = 0; i < 2; i++) { auto& r = File<D>::rec[i]; Lib<D>::some(r, 301 + i); r.chunk_id = ev_nat("stored id", 0, 1u << 30); } ev_assume(File<D>::rec[0].chunk_id != File<D>::rec[1].chunk_id); }
  template <std::size_t D> void import(bool move) { pair<D>([=](Lib<D>& w, std::size_t n) {
    records<D>(); ev_replace("::load_index_entries(", (void*)&File<D>::load); std::evfs::path p; p.name = ev_nat("import", 1, 1ull << 40); ev_cover("reached"); w.index.ImportIndex(p, move); stored<D>(w, n, false); ev_check(!w.index.m_index_metadata_valid, "the extents of the array are worked out again"); ev_check(File<D>::asked == p.name, "the given index is imported"); }); }
  template <std::size_t D> void reload() { Lib<D> w(0, false, false); records<D>(); ev_replace("::load_index_entries(", (void*)&File<D>::load); w.index.m_next_chunk_id = ev_nat("next", 0, 1u << 30); ev_cover("reached"); w.index.load_and_rebuild_index(); stored<D>(w, 0, true); }
  // ---- files of chunks
  using P = std::evfs::path; using DI = std::evfs::directory_iterator;
  struct Op { static inline std::size_t moved, copied, removed; static inline P from, to; static void clear() { moved = copied = removed = 0; }
    static void move(const P& a, const P& b) { moved++; from = a; to = b; } static void copy(const P& a, const P& b) { copied++; from = a; to = b; } static bool remove(const P& a) { removed++; from = a; return true; } static void flush(void*) { } };
  // one file of the directory (chunk or not)
  void entry() { DI::n = 1; P p; p.dir = ev_nat("where", 1, 1ull << 40); p.name = ev_nat("file", 1, 1ull << 40); p.chunk = ev_bool("chunk"); DI::e[0].p = p; Op::clear(); ev_replace("move_or_copydelete_file", (void*)&Op::move); ev_replace("evfs::copy(", (void*)&Op::copy); ev_replace("evfs::remove(", (void*)&Op::remove); ev_replace("::FlushCache(", (void*)&Op::flush); }
  void files(int what) {
    Lib<2> w(0, false, false); entry(); P d; d.name = ev_nat("other dir", 1, 1ull << 40); auto& c = w.lib.m_cache; P old = c.m_workdir, e = DI::e[0].p; bool chunk = e.chunk; ev_cover("reached");
    if(what == 0) c.MoveCache(d); else if(what == 1) c.ImportCache(d, true); else if(what == 2) c.ImportCache(d, false); else c.ClearCache();
    ev_check(Op::moved == (what < 2 & chunk), "every chunk file is moved once"); ev_check(Op::copied == (what == 2 & chunk), "every chunk file is copied once"); ev_check(Op::removed == (what == 3 & chunk), "every chunk file is removed");
    P target = what == 0 ? d : old; ev_check(c.m_workdir == target, "the directory of the chunk files"); ev_check(DI::of == (what == 0 | what == 3 ? old : d).name, "the files of the right directory");
    if(chunk) { ev_check(Op::from == e, "chunk files keep their names"); if(what < 3) ev_check(Op::to.dir == target.name & Op::to.name == e.name & Op::to.chunk, "chunk files keep their names"); }
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
#define DIMS(n, f) C(n##_1, f<1>()) C(n##_2, f<2>()) C(n##_3, f<3>())
DIMS(metadata, metadata) DIMS(element, element) DIMS(region, region) DIMS(append, append) DIMS(extents, extents) DIMS(empty, empty) DIMS(reload, reload)
C(iterate_1, iterate<1>(false)) C(iterate_2, iterate<2>(false)) C(iterate_3, iterate<3>(false))
C(add_1, add<1>(false)) C(add_2, add<2>(true)) C(add_3, add<3>(true)) C(add_plain_3, add<3>(false)) C(swap_01, swap<2, 0, 1>()) C(swap_02, swap<3, 0, 2>()) C(swap_12, swap<3, 1, 2>())
C(import_2, import<2>(false)) C(import_3, import<3>(true)) C(files_move, files(0)) C(files_import_move, files(1)) C(files_import_copy, files(2)) C(files_clear, files(3))
#endif
