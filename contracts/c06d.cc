#include "ev.hh"
#include "Common.hh"
#include "Vector.hh"
// Arrays on a file, one step at a time (deductive only).  Contracts:
//   serialize / append_slice / mark_as_final / deserialize: the metadata on file, what is refused (before anything is written), where
//     and with what the chunk writer/reader is run
//   the body of the chunk loops, run for an arbitrary box at an arbitrary file position: one record (mode, number of words, words) is
//     written and read back, the reader ends where the writer ended
//   boxes of the concatenation: those of the array followed by those of the slice
// The chunk loop (C02) and the encodings (C05) are taken by their contracts.
#ifdef EV_VERIFY
namespace evc { template <std::size_t D> struct Loop {
  static inline Vector<std::size_t, D> shape, chunk, b, e; static inline std::size_t runs = 0;
  static inline void (*before)() = nullptr; static inline void (*after)() = nullptr; }; }
#define index_loop_over_array_chunks real_index_loop_over_array_chunks
#include "IteratorUtils.hh"
#undef index_loop_over_array_chunks
namespace IteratorUtils {
  template <template<typename, std::size_t, std::size_t> class ArrayT, typename T, std::size_t dims, std::size_t vec_dims, class CallableT>
  constexpr void index_loop_over_array_chunks(const ArrayT<T, dims, vec_dims>& arr, const Vector<std::size_t, dims>& cs, CallableT&& worker) {
    using L = evc::Loop<dims>; L::runs++;
    for(std::size_t k = 0; k < dims; k++) { ev_check(arr.GetShape()[k] == L::shape[k], "the whole array is written in chunks"); ev_check(cs[k] == L::chunk[k], "the requested serialization chunks are used"); }
    if(L::before) L::before();
    worker(L::b, L::e);       // an arbitrary box
    if(L::after) L::after();
  }
}
#include "Serialization.hh"
#include <fstream>
#define private public
#include "NDVecArray.hh"
#include "clang_compat.hh"
#include "NDVecArrayStreamer.hh"
#undef private
namespace {
  using stor::StreamerMode; using stor::AccessMode; using stor::INFTY; using stor::Traits;
  constexpr std::size_t POS = 1ull << 40;
  template <std::size_t D> using Ind = Vector<std::size_t, D>;
  constexpr std::size_t EXT[] = {0, 1ull << 30, 1ull << 20, 1ull << 14};
  template <std::size_t D> bool full(const Ind<D>& s, const Ind<D>& c) { bool r = true; for(std::size_t k = 0; k < D; k++) r = r & ((c[k] >= s[k]) | (s[k] % c[k] == 0)); return r; }
  template <std::size_t D, std::size_t V> struct W {
    using A = NDVecArray<float, D, V>; using Str = stor::NDVecArrayStreamer<NDVecArray, float, D, V>; using Meta = stor::NDVecArrayStreamerMetadata<NDVecArray, float, D, V>; using CMeta = stor::NDVecArrayStreamerChunkMetadata;
    using L = evc::Loop<D>; static constexpr std::size_t MS = 8 * (2 * D + 1);
    static inline std::iostream* s; static inline std::size_t pos, size, words, w; static inline Ind<D> sh, ch, b, e, in; static inline A* arr; static inline std::uint32_t* buf; static inline StreamerMode mode; static inline const A* given; static inline std::size_t calls;
    static std::fstream& f() { return *(std::fstream*)s; }
    static Ind<D> extents(const char* n, std::size_t hi) { Ind<D> r; for(std::size_t k = 0; k < D; k++) { r[k] = ev_nat(n, 1, POS); ev_assume(r[k] <= hi); } return r; }
    static Ind<D> chunk() { Ind<D> r; for(std::size_t k = 0; k < D; k++) { std::size_t x = ev_nat("chunk", 0, POS); r[k] = x == 0 ? INFTY : x; } return r; }
    static void box() { for(std::size_t k = 0; k < D; k++) { b[k] = ev_nat("begin", 0, sh[k] - 1); e[k] = ev_nat("end", b[k] + 1, sh[k]); ev_assume(e[k] - b[k] <= ch[k]); in[k] = ev_nat("in", b[k], e[k] - 1); } L::b = b; L::e = e; L::shape = sh; L::chunk = ch; L::runs = 0; L::before = nullptr; L::after = nullptr; }
    static std::size_t volume() { std::size_t n = V; for(std::size_t k = 0; k < D; k++) n *= e[k] - b[k]; return n; }
    // the array a box of which is encoded or decoded
    static void box_of(const A& v) {
      for(std::size_t k = 0; k < D; k++) ev_check(v.GetShape()[k] == e[k] - b[k], "the box of the array");
      ev_check(&v[Ind<D>(0u)][0] == &(*arr)[b][0], "the box of the array"); ev_check(&v[in - b][0] == &(*arr)[in][0], "the box of the array");
    }
    static std::size_t encode(const A& v, std::span<std::uint32_t>&& out) {
      box_of(v); ev_check(out.size() >= words, "the buffer has room for the encoding"); ev_havoc(out.data(), words * 4, "words"); buf = out.data(); calls++; return words;
    }
    static void record() {
      ev_check(ev_stream_tellp(s) == pos + 16 + 4 * words, "a record is two words of metadata and the encoded data");
      for(int i = 0; i < 8; i++) { ev_check(ev_stream_byte(s, pos + i) == (i == 7 ? (unsigned)mode : 0u), "the mode of the record"); ev_check(ev_stream_byte(s, pos + 8 + i) == ((words >> (56 - 8 * i)) & 255), "the number of words of the record"); }
      for(int i = 0; i < 4; i++) ev_check(ev_stream_byte(s, pos + 16 + 4 * w + i) == ((const unsigned char*)(buf + w))[i], "the words of the record are the encoded data");
      ev_check(ev_stream_size(s) == pos + 16 + 4 * words, "records are written one behind the other");
    }
    static void write(bool dense) {
      sh = extents("shape", EXT[D]); ch = chunk(); box(); A a(sh); arr = &a; calls = 0; mode = dense ? StreamerMode::dense : StreamerMode::null_suppressed;
      std::size_t n = volume(); words = dense ? n : ev_nat("words", 1, 2ull << 45);
      if(!dense) ev_assume(words <= n + (n / V + 1) / 2);      // C05
      w = ev_nat("word", 0, 2ull << 45); ev_assume(w < words);
      s = ev_stream(); pos = ev_nat("pos", 0, POS); ev_stream_file(s, pos, pos); L::after = record;
      Str str(ev_nat("buffer", 0, 10000));
      if(dense) ev_replace("dense::to_buffer<", (void*)&encode); else ev_replace("nullsup::suppress_null<", (void*)&encode);
      ev_cover("reached");
      if(dense) str.serialize_all_chunks_dense(f(), a, ch); else str.serialize_all_chunks_null_suppressed(f(), a, ch);
      ev_check(L::runs == 1, "one loop over the chunks"); ev_check(calls == 1, "one record for each chunk");
    }
    // ---- reading
    static std::size_t decode_dense(A& v, std::span<std::uint32_t>&& from) { return decode(from, v); }
    static std::size_t decode_null(const std::span<std::uint32_t>&& from, A& v) { return decode(from, v); }
    static std::size_t decode(const std::span<std::uint32_t>& from, A& v) {
      box_of(v); ev_check(from.size() >= words, "all words of the record are decoded"); calls++;
      for(int i = 0; i < 4; i++) ev_check(ev_stream_byte(s, pos + 16 + 4 * w + i) == ((const unsigned char*)(from.data() + w))[i], "the words of the record are decoded");
      return words;
    }
    static void at_record() {
      ev_check(ev_stream_tellg(s) == size, "the records follow the metadata");
      for(std::size_t k = 0; k < D; k++) ev_check(arr->GetShape()[k] == sh[k], "the array gets the shape on file");
      std::size_t rest = ev_nat("rest", 0, POS); ev_stream_file(s, pos + 16 + 4 * words + rest, pos);
      Traits<CMeta>::serialize(*s, CMeta(mode, words)); ev_stream_at(s, pos + 16 + 4 * words + rest, pos);
    }
    static void after_record() { ev_check(ev_stream_tellg(s) == pos + 16 + 4 * words, "the reader ends where the writer ended"); }
    static void read(bool dense) {
      sh = extents("shape", EXT[D]); ch = chunk(); box(); A a(Ind<D>(1u)); arr = &a; calls = 0; mode = dense ? StreamerMode::dense : StreamerMode::null_suppressed;
      std::size_t n = volume(); words = dense ? n : ev_nat("words", 1, 2ull << 45); w = ev_nat("word", 0, 2ull << 45); ev_assume(w < words);
      s = ev_stream(); std::size_t p = ev_nat("at", 0, POS), rest = ev_nat("rest", 0, POS); ev_stream_file(s, p + MS + rest, p); pos = ev_nat("pos", 0, POS); size = p + MS;
      Traits<Meta>::serialize(*s, Meta(ch, sh, AccessMode::modification_allowed)); ev_stream_at(s, p + MS + rest, p);
      L::before = at_record; L::after = after_record;
      Str str(ev_nat("buffer", 0, 10000));
      if(dense) ev_replace("dense::from_buffer<", (void*)&decode_dense); else ev_replace("nullsup::desuppress_null<", (void*)&decode_null);
      ev_cover("reached");
      str.deserialize(f(), a);
      ev_check(L::runs == 1, "one loop over the chunks"); ev_check(calls == 1, "one record for each chunk");
    }
    // ---- metadata
    static void all_chunks(Str* self, std::fstream& out, const A& v, const Ind<D>& c, const StreamerMode& m) {
      ev_check((void*)&out == (void*)s, "the records go to the same file"); ev_check(&v == given, "the data of the array or slice"); ev_check(m == mode, "the requested mode");
      for(std::size_t k = 0; k < D; k++) ev_check(c[k] == ch[k], "the same serialization chunks");
      ev_check(ev_stream_tellp(s) == size, "the records go behind what is there"); ev_check(ev_stream_size(s) == size, "the records go behind what is there"); calls++;
    }
    static Meta meta(std::size_t p) { ev_stream_rewind(s, p); return Traits<Meta>::deserialize(*s); }
    static void metadata(std::size_t p, const Ind<D>& shape, bool allowed) {
      Meta m = meta(p);
      for(std::size_t k = 0; k < D; k++) { ev_check(m.array_shape[k] == shape[k], "the shape on file"); ev_check(m.ser_chunk_shape[k] == ch[k], "the serialization chunks on file"); }
      if(allowed) ev_check(m.access_mode == AccessMode::modification_allowed, "full serialization chunks allow modification"); else ev_check(m.access_mode == AccessMode::modification_not_allowed, "partial serialization chunks or a final array do not allow modification");
    }
    static void serialize() {
      sh = extents("shape", EXT[D]); ch = chunk(); A a(sh); given = &a; calls = 0; mode = ev_bool("dense") ? StreamerMode::dense : StreamerMode::null_suppressed;
      s = ev_stream(); pos = ev_nat("pos", 0, POS); ev_stream_file(s, pos, pos); size = pos + MS;
      bool spec = false; for(std::size_t k = 0; k < D; k++) spec = spec | (ch[k] != INFTY);
      ev_throws_if(!spec); ev_stream_refuse(s, !spec); ev_replace("::serialize_all_chunks(", (void*)&all_chunks);
      Str str(1); ev_cover("reached");
      str.serialize(f(), a, ch, mode);
      ev_check(spec, "a serialization chunk without any extent is refused"); ev_check(calls == 1, "the chunks are written once"); ev_check(ev_stream_tellp(s) == size, "the records follow the metadata");
      metadata(pos, sh, full<D>(sh, ch));
    }
    static void append(std::size_t axis) {
      sh = extents("shape", POS); ch = chunk(); Ind<D> t = extents("slice", EXT[D]); A a(t); given = &a; calls = 0; mode = ev_bool("dense") ? StreamerMode::dense : StreamerMode::null_suppressed;
      bool allowed = ev_bool("allowed"); s = ev_stream(); pos = ev_nat("pos", 0, POS); size = pos + MS + ev_nat("rest", 0, POS); ev_stream_file(s, size, pos);
      Traits<Meta>::serialize(*s, Meta(ch, sh, allowed ? AccessMode::modification_allowed : AccessMode::modification_not_allowed)); ev_stream_at(s, size, pos);
      bool ok = allowed & (sh[axis] % ch[axis] == 0); for(std::size_t k = 0; k < D; k++) { if(k != axis) ok = ok & (sh[k] == t[k]); if(k < axis) ok = ok & (ch[k] >= sh[k]); }
      ev_throws_if(!ok); ev_stream_refuse(s, !ok); ev_replace("::serialize_all_chunks(", (void*)&all_chunks);
      Str str(1); ev_cover("reached");
      str.append_slice(f(), a, axis, mode);
      ev_check(ok, "appending to a final array, behind a partial chunk, or a slice that does not fit is refused"); ev_check(calls == 1, "the slice is written once"); ev_check(ev_stream_size(s) == size, "the metadata takes the same place");
      Ind<D> ns = sh; ns[axis] += t[axis]; metadata(pos, ns, full<D>(t, ch));
    }
    static void final() {
      sh = extents("shape", POS); ch = chunk(); bool allowed = ev_bool("allowed"); s = ev_stream(); pos = ev_nat("pos", 0, POS); size = pos + MS + ev_nat("rest", 0, POS); ev_stream_file(s, size, pos);
      Traits<Meta>::serialize(*s, Meta(ch, sh, allowed ? AccessMode::modification_allowed : AccessMode::modification_not_allowed)); ev_stream_at(s, size, pos);
      Str str(1); ev_cover("reached");
      str.mark_as_final(f()); ev_check(ev_stream_size(s) == size, "the metadata takes the same place"); metadata(pos, sh, false);
    }
    static void dispatch_stub_d(Str*, std::fstream& out, const A& v, const Ind<D>& c) { dispatched(out, v, c, StreamerMode::dense); }
    static void dispatch_stub_n(Str*, std::fstream& out, const A& v, const Ind<D>& c) { dispatched(out, v, c, StreamerMode::null_suppressed); }
    static void dispatched(std::fstream& out, const A& v, const Ind<D>& c, StreamerMode m) { ev_check(m == mode, "the requested mode"); ev_check((void*)&out == (void*)s & &v == given, "the data of the array or slice"); for(std::size_t k = 0; k < D; k++) ev_check(c[k] == ch[k], "the same serialization chunks"); calls++; }
    static void dispatch() {
      sh = extents("shape", EXT[D]); ch = chunk(); A a(sh); given = &a; calls = 0; mode = ev_bool("dense") ? StreamerMode::dense : StreamerMode::null_suppressed; s = ev_stream();
      ev_replace("::serialize_all_chunks_dense(", (void*)&dispatch_stub_d); ev_replace("::serialize_all_chunks_null_suppressed(", (void*)&dispatch_stub_n);
      Str str(1); ev_cover("reached"); str.serialize_all_chunks(f(), a, ch, mode); ev_check(calls == 1, "the chunks are written once");
    }
    // lemma: a box of the chunk grid of the concatenation is a box of the grid of the array or (shifted) of the slice, and the former come first
    static void boxes(std::size_t axis) {
      sh = extents("shape", 1ull << 30); Ind<D> t = sh, g[2], cb[2], ce[2]; t[axis] = ev_nat("rows", 1, 1ull << 30);
      for(std::size_t k = 0; k < D; k++) ch[k] = ev_nat("chunk", 1, 1ull << 31);
      std::size_t m = ev_nat("m", 1, 1ull << 30); ev_assume(sh[axis] == m * ch[axis]); for(std::size_t k = 0; k < axis; k++) ev_assume(ch[k] >= sh[k]);     // what append_slice accepts
      ev_cover("reached");
      for(int i = 0; i < 2; i++) for(std::size_t k = 0; k < D; k++) { std::size_t n = sh[k] + (k == axis ? t[k] : 0); g[i][k] = ev_nat("grid", 0, 1ull << 31); cb[i][k] = g[i][k] * ch[k]; ev_assume(cb[i][k] < n); ce[i][k] = cb[i][k] + ch[k] < n ? cb[i][k] + ch[k] : n; }
      for(int i = 0; i < 2; i++) {
        if(g[i][axis] < m) { ev_check(cb[i][axis] + ch[axis] <= sh[axis], "a box of the array: not beyond it"); ev_check(ce[i][axis] == cb[i][axis] + ch[axis], "a box of the array: full along the axis"); }
        else { ev_check(cb[i][axis] >= sh[axis], "a box of the slice: not before it"); ev_check(cb[i][axis] - sh[axis] == (g[i][axis] - m) * ch[axis], "a box of the slice: on its grid"); }
        for(std::size_t k = 0; k < axis; k++) ev_check(g[i][k] == 0, "one box along the axes in front");
      }
      // row-major order of the boxes: along the axes in front there is one box only, so the axis decides
      if(g[0][axis] < m & g[1][axis] >= m) { bool before = true, lt = false; for(std::size_t k = 0; k < D; k++) { lt = lt | (before & (g[0][k] < g[1][k])); before = before & (g[0][k] == g[1][k]); } ev_check(lt, "the boxes of the array come before those of the slice"); }
    }
  };
}
#define C(n, ...) extern "C" void ev_contract_##n() { __VA_ARGS__; }
#define CS(d, v) C(write_dense_##d##_##v, W<d, v>::write(true)) C(write_null_##d##_##v, W<d, v>::write(false)) C(read_dense_##d##_##v, W<d, v>::read(true)) C(read_null_##d##_##v, W<d, v>::read(false)) C(serialize_##d##_##v, W<d, v>::serialize()) C(final_##d##_##v, W<d, v>::final()) C(dispatch_##d##_##v, W<d, v>::dispatch())
CS(1, 1) CS(1, 2) CS(2, 1) CS(2, 2) CS(3, 2)
C(append_1, W<1, 1>::append(0)) C(append_2_0, W<2, 1>::append(0)) C(append_2_1, W<2, 1>::append(1)) C(append_3_0, W<3, 2>::append(0)) C(append_3_1, W<3, 2>::append(1)) C(append_3_2, W<3, 2>::append(2))
C(boxes_1, W<1, 1>::boxes(0)) C(boxes_2_0, W<2, 1>::boxes(0)) C(boxes_2_1, W<2, 1>::boxes(1)) C(boxes_3_0, W<3, 1>::boxes(0)) C(boxes_3_1, W<3, 1>::boxes(1)) C(boxes_3_2, W<3, 1>::boxes(2))
#endif
