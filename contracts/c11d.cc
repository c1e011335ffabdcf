#include "ev.hh"
#include "Common.hh"
#include "Vector.hh"
// Rechunking, one arbitrary rebuilt chunk and one arbitrary element of it at a time (deductive only).  The loops over chunks and over
// elements are taken by their contracts (C02): the body runs for an arbitrary box of the partition / for an arbitrary index.  The
// array rebuilt has one chunk or any two disjoint ones (see c10e.cc), the boundary rule is arbitrary.
#ifdef EV_VERIFY
namespace evc {
  template <std::size_t D> struct Loops {
    static inline Vector<std::size_t, D> start, end, size, b, e; static inline std::size_t runs = 0;     // over chunks
    static inline Vector<int, D> z; static inline std::size_t visits = 0;                               // over elements
  };
}
#define index_loop_over_elements real_index_loop_over_elements
#define index_loop_over_chunks real_index_loop_over_chunks
#include "IteratorUtils.hh"
#undef index_loop_over_elements
#undef index_loop_over_chunks
namespace IteratorUtils {
  template <std::size_t D, class CallableT> constexpr void index_loop_over_elements(const Vector<int, D>& b, const Vector<int, D>& e, CallableT&& worker) {
    using L = evc::Loops<D>; bool in = true; for(std::size_t k = 0; k < D; k++) in = in & (L::z[k] >= b[k]) & (L::z[k] < e[k]);
    if(in) { Vector<int, D> i = L::z; worker(i); }
  }
  template <std::size_t D, class CallableT> constexpr void index_loop_over_chunks(const Vector<std::size_t, D>& s, const Vector<std::size_t, D>& e, const Vector<std::size_t, D>& size, CallableT&& worker) {
    using L = evc::Loops<D>; L::runs++;
    for(std::size_t k = 0; k < D; k++) { ev_check((s[k] == L::start[k]) & (e[k] == L::end[k]), "the requested region is rebuilt"); ev_check(size[k] == L::size[k], "chunks of the requested shape"); }
    Vector<std::size_t, D> cb = L::b, ce = L::e; worker(cb, ce);
  }
}
#include "ghostlib.hh"
namespace {
  using evg::Ind; using evg::Lib; using evg::in; using evg::same; using P = std::evfs::path;
  template <std::size_t D> struct R {
    using DA = DistributedNDVecArray<evg::Arr, float, D, 1>; using A = evg::Arr<float, D, 1>; using L = evc::Loops<D>; using S = Vector<int, D>; using LibT = ChunkLibrary<evg::Arr, float, D, 1>;
    static inline Ind<D> gs, ge, s, e, shift; static inline std::size_t overlap, chunks, added, flushed, dir; static inline bool opt; static inline Lib<D>* w; static inline bool outside;
    static void add(LibT* lib, const A& c, const Ind<D>& b, const Ind<D>& t, std::size_t o, const ChunkHints& h) {
      added++; ev_check((void*)lib != (void*)&w->lib, "the chunk goes to the new library"); ev_check(lib->m_libdir.name == dir, "the chunk goes to the requested directory");
      for(std::size_t k = 0; k < D; k++) { ev_check((b[k] == L::b[k] + shift[k]) & (t[k] == L::e[k] + shift[k]), "the chunk is stored where it belongs"); ev_check(c.shape[k] == L::e[k] - L::b[k] + 2 * overlap, "the chunk has room for its overlap"); }
      ev_check(o == overlap, "the requested overlap"); ev_check((h & ChunkHints::ENABLE_OPT) == (opt ? ChunkHints::ENABLE_OPT : 0), "the requested hints");
      if(outside) { ev_check(c.from == 500, "a cell outside of the array holds what the boundary rule gives"); for(std::size_t k = 0; k < D; k++) ev_check((int)c.src[k] == L::z[k], "a cell outside of the array holds what the boundary rule gives for its index"); return; }
      bool had = false; Ind<D> g; for(std::size_t k = 0; k < D; k++) g[k] = (std::size_t)L::z[k];
      for(std::size_t i = 0; i < chunks; i++) { auto& m = *w->meta[i]; if(in<D>(g, m.start_ind, m.end_ind)) { had = true; if(m.chunk_type == ChunkType::all_null) ev_check((c.from == 0) | (c.from == i + 1), "a cell inside of the array holds its element"); else { ev_check(c.from == i + 1, "a cell inside of the array holds its element"); for(std::size_t k = 0; k < D; k++) ev_check(c.src[k] == g[k] - m.start_ind[k] + m.overlap, "a cell inside of the array holds its element"); } } }
      if(!had) ev_check(c.from == 0, "nothing is left over from the chunk before");
    }
    static void flush(LibT* lib) { ev_check((void*)lib != (void*)&w->lib & added == 1, "the rebuilt chunks are written out"); flushed++; }
    static void nothing(void*) { }
    // the contract of the loop over outside cells (see outside() below), for the cell that is followed
    static void penetrating(const Ind<D>& s, const Ind<D>& e, const S& b, const S& t, void* worker, void (*call)(void*, S&)) {
      bool in = true, out = false; for(std::size_t k = 0; k < D; k++) { ev_check((s[k] < e[k]) & (b[k] < (int)e[k]) & (t[k] > (int)s[k]) & (b[k] < t[k]), "the chunk meets the array"); in = in & (L::z[k] >= b[k]) & (L::z[k] < t[k]); out = out | (L::z[k] < (int)s[k]) | (L::z[k] >= (int)e[k]); }
      if(in & out) { S i = L::z; call(worker, i); }
    }
    static bool out(const S& i) { bool r = false; for(std::size_t k = 0; k < D; k++) r = r | (i[k] < (int)gs[k]) | (i[k] >= (int)ge[k]); return r; }
    static void rule(const S& i, const typename A::view_t& v) { ev_check(out(i), "the boundary rule is asked for cells outside of the array only"); A& a = *const_cast<A*>(v.a); for(std::size_t k = 0; k < D; k++) ev_check((int)v.i[k] == i[k] - ((int)L::b[k] - (int)overlap), "the boundary rule gets the cell of that index"); if(same<D>(v.i, a.at)) { a.from = 500; for(std::size_t k = 0; k < D; k++) a.src[k] = (std::size_t)i[k]; } }
    // ranges: any sub-box [s, e) of the extents of the array, any box [b, e) of it, any index z of the extended chunk
    static void setup(Lib<D>& lib, std::size_t n, bool rule = true) {
      w = &lib; chunks = n; added = flushed = 0; L::runs = 0; overlap = ev_nat("new overlap", 0, 1u << 20); opt = ev_bool("optimize"); dir = ev_nat("outdir", 1, 1ull << 40);
      for(std::size_t k = 0; k < D; k++) {
        std::size_t lo = lib.meta[0]->start_ind[k], hi = lib.meta[0]->end_ind[k]; if(n > 1) { std::size_t x = lib.meta[1]->start_ind[k], y = lib.meta[1]->end_ind[k]; lo = x < lo ? x : lo; hi = y > hi ? y : hi; }
        gs[k] = lo; ge[k] = hi; ev_assume(hi <= (1u << 28));
        s[k] = ev_nat("from", 0, 1u << 28); e[k] = ev_nat("to", 1, 1u << 28); ev_assume((s[k] >= lo) & (s[k] < e[k]) & (e[k] <= hi)); L::size[k] = ev_nat("chunk", 1, 1u << 28);
        std::size_t b = ev_nat("box", 0, 1u << 28), x = ev_nat("box end", 1, 1u << 28); ev_assume((b >= s[k]) & (b < x) & (x <= e[k]) & (x - b <= L::size[k])); L::b[k] = b; L::e[k] = x;
        std::size_t a = ev_nat("cell", 0, 1u << 30); ev_assume(a < x - b + 2 * overlap); A::follow[k] = a; L::z[k] = (int)b - (int)overlap + (int)a; L::start[k] = s[k]; L::end[k] = e[k];
      }
      A::following = true; outside = out(L::z); auto& x = Lib<D>::w->index; x.m_index_metadata_valid = true; for(std::size_t k = 0; k < D; k++) { x.m_start_ind[k] = gs[k]; x.m_end_ind[k] = ge[k]; }    // as the extents contract of c10e.cc has it
      ev_replace("::RegisterChunk(evg::Arr", (void*)&add); ev_replace("::FlushLibrary(", (void*)&flush); ev_replace("::~ChunkLibrary(", (void*)&nothing); if(rule) ev_replace_cb("::index_loop_over_penetrating_chunk_elements<", (void*)&penetrating);
    }
    static DA& array(Lib<D>& lib) { return *(DA*)lib.mem; }
    static P outdir() { P p; p.name = dir; return p; }
    static ChunkHints hints() { return opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE; }
    static void done() { ev_check(L::runs == 1 & added == 1 & flushed == 1, "every box is rebuilt and written out once"); }
    static auto global() { return [](DA& a, const S& i, typename A::view_t v) { ev_check((void*)&a == (void*)w->mem, "the boundary rule gets the array"); rule(i, v); }; }
    static auto local() { return [](A& c, const S& b, const S& t, const S& i, typename A::view_t v) { ev_check(&c == v.a, "the boundary rule gets the chunk"); for(std::size_t k = 0; k < D; k++) ev_check((b[k] == (int)L::b[k] - (int)overlap) & (t[k] == (int)L::e[k] + (int)overlap), "the boundary rule gets the place of the chunk"); rule(i, v); }; }
    static void part(Lib<D>& lib, std::size_t n, bool loc, bool moved) {
      setup(lib, n); auto& a = array(lib); for(std::size_t k = 0; k < D; k++) shift[k] = 0; ev_cover("reached");
      if(moved) { Ind<D> to = Lib<D>::ind("to"); for(std::size_t k = 0; k < D; k++) shift[k] = to[k] - s[k]; if(loc) { auto r = local(); a.RebuildChunksPartial(s, e, to, L::size, outdir(), overlap, r, hints()); } else { auto r = global(); a.RebuildChunksPartial(s, e, to, L::size, outdir(), overlap, r, hints()); } }
      else if(loc) { auto r = local(); a.RebuildChunksPartial(s, e, L::size, outdir(), overlap, r, hints()); } else { auto r = global(); a.RebuildChunksPartial(s, e, L::size, outdir(), overlap, r, hints()); }
      done();
    }
    static void plain(Lib<D>& lib, std::size_t n) { setup(lib, n, false); ev_assume(overlap == 0); for(std::size_t k = 0; k < D; k++) shift[k] = 0; ev_cover("reached"); array(lib).RebuildChunksPartial(s, e, L::size, outdir(), hints()); done(); }
  };
  template <std::size_t D, class F> void pair(F f) {
    if(ev_bool("one chunk")) { if(ev_bool("null")) { Lib<D> w(1, true, false); f(w, 1); } else { Lib<D> w(1, false, false); f(w, 1); } }
    else { if(ev_bool("first null")) { Lib<D> w(2, true, false); f(w, 2); } else if(ev_bool("second null")) { Lib<D> w(2, false, true); f(w, 2); } else { Lib<D> w(2, false, false); f(w, 2); } }
  }
  template <std::size_t D> void part(bool local, bool moved) { pair<D>([=](Lib<D>& w, std::size_t n) { R<D>::part(w, n, local, moved); }); }
  template <std::size_t D> void plain() { pair<D>([](Lib<D>& w, std::size_t n) { R<D>::plain(w, n); }); }
  // the elements outside of the array: every index of the chunk outside of the array is visited, no other
  template <std::size_t D> void outside() {
    using L = evc::Loops<D>; using S = Vector<int, D>; Ind<D> gs, ge; S b, e; std::size_t n = 0; bool in = true, out = false;
    for(std::size_t k = 0; k < D; k++) { gs[k] = ev_nat("array start", 0, 1u << 30); ge[k] = ev_nat("array end", 1, 1u << 30); b[k] = (int)ev_int("start", -(1 << 30), 1 << 30); e[k] = (int)ev_int("end", -(1 << 30), 1 << 30); L::z[k] = (int)ev_int("index", -(1 << 30), 1 << 30);
      ev_assume((gs[k] < ge[k]) & (b[k] < (int)ge[k]) & (e[k] > (int)gs[k]) & (b[k] < e[k])); in = in & (L::z[k] >= b[k]) & (L::z[k] < e[k]); out = out | (L::z[k] < (int)gs[k]) | (L::z[k] >= (int)ge[k]); }
    ev_replace("std::max<unsigned long>", (void*)&Lib<D>::greater); ev_replace("std::min<unsigned long>", (void*)&Lib<D>::smaller);
    ev_cover("reached");
    R<D>::DA::index_loop_over_penetrating_chunk_elements(gs, ge, b, e, [&](Vector<int, D>& i) { ev_check(in & out, "only indices of the chunk outside of the array are visited"); n++; });
    if(in & out) ev_check(n >= 1, "every index of the chunk outside of the array is visited"); else ev_check(n == 0, "only indices of the chunk outside of the array are visited");
  }
  // rebuilding in place: everything is rebuilt to the temporary directory, which then replaces the contents
  struct Seq { static inline int at; static inline std::size_t tmp;
    static void step(int n, const char* what) { ev_check(at == n, what); at = n + 1; }
    static void clear(void*) { step(1, "the old contents go once the new ones are complete"); }
    static void import(void*, P p, bool) { step(2, "the new contents are imported"); ev_check(p.name == tmp, "the new contents are imported"); }
    static void flush(void*) { step(3, "the new contents are written out"); }
    static bool drop(const P& p) { step(4, "the temporary directory goes in the end"); ev_check(p.name == tmp, "the temporary directory goes in the end"); return true; } };
  template <std::size_t D> struct SeqD { static inline Ind<D> sh, size; static inline std::size_t overlap; static inline bool opt; template <class Rule> static void part(void*, const Ind<D>& s, const Ind<D>& e, const Ind<D>& c, P p, std::size_t o, Rule&&, const ChunkHints& h) { Seq::step(0, "everything is rebuilt first"); for(std::size_t k = 0; k < D; k++) { ev_check(s[k] == 0, "the whole array is rebuilt"); ev_check(e[k] == sh[k], "the whole array is rebuilt"); ev_check(c[k] == size[k], "chunks of the requested shape"); } ev_check(o == overlap, "the requested overlap"); ev_check((h & ChunkHints::ENABLE_OPT) == (opt ? ChunkHints::ENABLE_OPT : 0), "the requested hints"); ev_check(p.name == Seq::tmp, "the new contents go to the temporary directory"); } };
  template <std::size_t D> void whole(bool rule) {
    Lib<D> lib(1, false, false); for(std::size_t k = 0; k < D; k++) ev_assume(lib.meta[0]->start_ind[k] == 0); auto& a = R<D>::array(lib); using Q = SeqD<D>; lib.index.m_index_metadata_valid = false;
    Q::sh = lib.meta[0]->shape; Q::size = Lib<D>::ind("chunk", 1); Q::overlap = rule ? ev_nat("new overlap", 0, 1u << 20) : 0; Q::opt = ev_bool("optimize"); Seq::at = 0; Seq::tmp = ev_nat("tmp", 1, 1ull << 40); P t; t.name = Seq::tmp; R<D>::w = &lib;
    auto r = R<D>::global(); using Rule = decltype(r)&;
    ev_replace("::RebuildChunksPartial<", (void*)&Q::template part<Rule>); ev_replace("::ClearLibrary(", (void*)&Seq::clear); ev_replace("::ImportLibrary(", (void*)&Seq::import); ev_replace("::FlushLibrary(", (void*)&Seq::flush); ev_replace("evfs::remove_all(", (void*)&Seq::drop);
    ev_cover("reached"); if(rule) a.RebuildChunks(Q::size, t, Q::overlap, r, Q::opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE); else a.RebuildChunks(Q::size, t, Q::opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    ev_check(Seq::at == 5, "all steps are taken");
  }
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
#define DIMS(n, f, ...) C(n##_1, f<1>(__VA_ARGS__)) C(n##_2, f<2>(__VA_ARGS__)) C(n##_3, f<3>(__VA_ARGS__))
DIMS(outside, outside) DIMS(global, part, false, false) DIMS(local, part, true, false) DIMS(plain, plain) C(moved_2, part<2>(false, true)) C(moved_local_2, part<2>(true, true)) DIMS(whole, whole, true) DIMS(whole_plain, whole, false)
#endif
